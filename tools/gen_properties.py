#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("H01", "Reduced-precision floats convert faithfully",
 "For every real input and every exponent bias, converting to the 8-bit or 16-bit float format and back yields a value within that format's precision, never changes the order of two inputs, mirrors under negation, saturates instead of wrapping when the input is out of range, and keeps zero, infinities and not-a-number recognisable. Converting a value that is already representable is the identity, and arithmetic on reduced-precision numbers equals the conversion of the exact arithmetic. The fixed-byte-order helpers store every integer, float and block big-endian and reading the bytes back yields the original value.",
 ["inputs"], "all 32-bit float patterns, all 256 / 65536 encodings, all practical exponent biases, all integers and byte blocks",
 "The unit tests print or compare a handful of hand-picked values per bias; neighbouring bit patterns, rounding boundaries, saturation at other biases and ordering are not sampled.",
 ["src/types/quarter_float.hpp", "src/types/half_float.hpp", "src/util/portable_bytes.hpp"],
 [("float to 8-bit conversion with rounding and clamping", "src/types/quarter_float.hpp floatToQuarter/quarterToFloat"),
  ("float to 16-bit truncation", "src/types/half_float.hpp floatToHalf/halfToFloat"),
  ("byte order helpers", "src/util/portable_bytes.hpp portableBytes")])

prop("H02", "Stored tensors keep values within their precision",
 "Copying any tensor into 32-bit, 16-bit, 8-bit or pixel storage keeps its shape and keeps every element: exactly at 32 bits, and otherwise as the nearest documented reduced-precision form of that same element. Writing a stored tensor to a file and loading it into the same kind of storage reproduces shape and every element exactly, for any shape and number of tensors in the file. Constructing a tensor from nested lists, from a function, or from a constant places each value at its own row, column and channel.",
 ["inputs"], "all shapes (incl. single row, single column, several channels), all finite values, all storage widths and biases",
 "Tests save and load two or three small tensors with one channel; index arithmetic over rows, columns and channels and reduced-precision storage of other shapes are never compared.",
 ["src/types/tensor_impls/full_tensor.hpp", "src/types/tensor_impls/half_tensor.hpp", "src/types/tensor_impls/quarter_tensor.hpp", "src/types/tensor_impls/pixel_tensor.hpp", "src/types/tensor_impls/uniform_tensor.hpp", "src/types/tensor_impls/identity_tensor.hpp", "src/types/tensor_impls/tensor_from_function.hpp", "src/types/base_tensors.hpp", "src/util/tensor_utils.hpp", "src/types/materialized_tensors.hpp"],
 [("materialisation by bits", "src/util/tensor_utils.hpp materializeTensor"),
  ("tensor save and load", "src/types/base_tensors.hpp save; */full_tensor.hpp, pixel_tensor.hpp stream constructors")])

prop("H03", "Lazy tensor expressions equal their dense evaluation",
 "Any expression built from tensor operations (arithmetic, scalar, element-wise functions, transpose, reshape, flatten, padding, windowing, channel selection and summation, dot, matrix and outer products, rotation, diagonal, masking, concatenation) has, at every position and for its shape, the value obtained by evaluating the same operations densely. Operations whose operands have incompatible shapes are refused instead of returning a tensor. Evaluating an expression twice, in any element order, whole or by row, gives the same numbers.",
 ["inputs", "programs"], "all expression trees over all operand shapes and values",
 "Tests check single operators on one or two hand-written matrices, mostly square and one-channel; compositions, non-square shapes, several channels and parallel materialisation are not reached.",
 ["src/types/tensor_views/", "src/types/base_tensors.hpp"],
 [("lazy element access", "src/types/base_tensors.hpp getValue and src/types/tensor_views/*.hpp"),
  ("parallel materialisation", "src/types/tensor_impls/full_tensor.hpp")])

prop("H04", "Tensor aggregates and statistics match their definitions",
 "For every tensor the reported sum, product, minimum, maximum, range, index of the largest and smallest value, the ranked top positions, arithmetic mean, norm, and the standardised and normalised forms agree with the values computed directly from its elements, whatever its shape, size or magnitudes. Undoing standardisation or normalisation with the same parameters gives back the original values. The recommended reduced-precision encoding derived from a tensor's statistics covers its value range.",
 ["inputs"], "all tensors, including constant, negative-only, single-element, widely scaled and multi-channel ones",
 "Tests aggregate a couple of tensors of positive numbers; negative-only tensors, ties, position-weighted errors and multi-channel tensors are not covered.",
 ["src/types/base_tensors.hpp", "src/util/tensor_stats.hpp", "src/types/tensor_views/standardize_tensor_view.hpp", "src/types/tensor_views/unstandardize_tensor_view.hpp", "src/types/tensor_views/normalize_tensor_view.hpp", "src/types/tensor_views/denormalize_tensor_view.hpp"],
 [("aggregates", "src/types/base_tensors.hpp sum/min/max/product/maxIndex/topIndices"),
  ("recommended bias and offset", "src/util/tensor_stats.hpp TensorStats")])

prop("H05", "Convolutions and cross-correlations match the definition",
 "For every input, kernel size and channel count, the valid and full cross-correlation and convolution of a tensor equal the direct sliding-window definition, in shape and at every element, and convolving is cross-correlating with the kernel rotated by half a turn. A convolution layer's output for each filter is the sum over input channels of the valid cross-correlation with that filter's kernel. Kernels larger than the input of a valid operation are refused.",
 ["inputs", "configurations"], "all input sizes, square kernel sizes, channel counts, filter counts and values",
 "Tests print or compare fixed 3x3 or 6x6 examples with 2x2 or 3x3 kernels.",
 ["src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp", "src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp", "src/types/tensor_views/full_2d_convolve_tensor_view.hpp", "src/types/tensor_views/rotate_180_tensor_view.hpp", "src/ml/layers/convolution_2d_valid_layer.hpp"],
 [("sliding window", "src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp"),
  ("zero padding for full", "src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp")])

prop("H06", "Delimited text survives writing and reading",
 "Any table of text fields written as delimited text and read back with the same delimiter yields exactly the same records and fields, in order, whatever the fields contain (delimiters, quotes, line breaks, number-like text, non-ASCII); only blanks around a field and one pair of quotes enclosing it are not part of it. Asking for more after the end yields nothing. Reading lines from a single file or from a folder of files yields every line of every matching file exactly once, in order within a file. Splitting one encoded line into fields inverts joining fields into a line.",
 ["inputs", "histories"], "all tables of single-line fields, delimiters, header choices, sets of files including empty ones",
 "Tests read two fixed example files; quoting corner cases, empty fields, files without a final newline and empty files between others are not sampled.",
 ["src/util/file_writer.hpp", "src/util/file_reader.hpp"],
 [("quoting on write", "src/util/file_writer.hpp DelimitedTextFileWriter, TextLineFileWriter"),
  ("field parsing on read", "src/util/file_reader.hpp DelimitedTextFileReader, TextLinePathReader")])

prop("H07", "Sorting a text file permutes its lines",
 "Sorting a text file of any size yields a file whose lines are in order and are exactly the input's non-empty lines as a multiset, or each distinct line once when duplicates are to be removed. A header line, when declared, stays first and is not sorted. The result does not depend on how many pieces the file is sorted in, and no temporary files are left behind.",
 ["inputs", "configurations"], "all line multisets, numbers of lines relative to the chunk size, header and duplicate options",
 "The test sorts one generated file with one configuration; chunk boundaries, duplicates across chunks and headers with few lines are not exercised.",
 ["src/util/text_file_sorter.hpp"],
 [("external merge sort", "src/util/text_file_sorter.hpp FileSorter")])

prop("H08", "Binary data set files give back every record written",
 "Every record written to a binary data set file can be read back at its own position with the same column shapes and the same values (images within one pixel step, numbers exactly), sequentially or in any order. The per-column description written in the header (purpose, data type, name, shape, normalisation and standardisation parameters, labels) is read back unchanged, and the reported record count equals the number written. Preparing a copy of a data set with standardisation and normalisation rescales each numeric column to the range 0 to 1 by parameters recorded for that column only, and undoing them gives the original numbers back. Records can be read for the columns of another data set: numbers get its parameters, labels the positions they have there, and a label it lacks is refused.",
 ["inputs", "histories"], "all column layouts, purposes, shapes, label sets, record counts and access orders",
 "Tests create data sets from fixed CSV files and compare a few rows; several columns with different parameters, random access and label lists of other lengths are not covered.",
 ["src/util/dataset_utils.hpp", "src/util/file_writer.hpp", "src/util/file_reader.hpp", "src/util/column_metadata.hpp"],
 [("binary writer and reader", "src/util/file_writer.hpp BinaryDatasetWriter; src/util/file_reader.hpp BinaryDatasetReader"),
  ("normalising copy", "src/util/dataset_utils.hpp normalize_and_standardize_dataset")])

prop("H09", "Data set passes visit each record exactly once",
 "Iterating a data set from its start yields each of its records exactly once and then reports the end, any number of times, whether or not it is shuffled, with each record's inputs kept together with its own expected outputs. Shuffling only permutes and keeps the requested record count. A positive and the complementary negative split of the same data set partition it: every record is in exactly one part and the reported sizes match what iteration delivers.",
 ["histories", "inputs", "configurations"], "all record counts, split fractions, interleavings of shuffle, restart and next",
 "Tests iterate one tiny in-memory set once; shuffles followed by restarts and complementary splits of file-backed sets are not checked.",
 ["src/training_data/training_dataset.hpp", "src/util/shuffler.hpp", "src/training_data/generated_datasets.hpp", "src/training_data/training_pair.hpp"],
 [("iteration, restart, split", "src/training_data/training_dataset.hpp InMemoryDataSet, BinaryDataSet"),
  ("index permutation", "src/util/shuffler.hpp Shuffler")])

prop("H10", "A created data set holds the rows of its source file",
 "Creating a data set from a CSV or tab-separated file yields one record per distinct combination of given values (as documented, duplicates are dropped), each holding one such row's values for the declared columns in the order of their position in the source, given columns as inputs and expected columns as outputs, independent of source row order. Labels are encoded so that distinct labels get distinct codes and the same label always the same code, and every recorded label decodes back. Numeric columns, undone with their recorded parameters, give the source numbers back, and printing the data set shows the source values. Overlapping column declarations, rows with too few values and malformed sources are refused and leave an existing data set of that name untouched. A plain text source is cut into records at blanks, with no word lost, repeated or cut.",
 ["inputs", "configurations"], "all column declarations and orders, data types, header choices, row multisets",
 "Tests run two fixed scripts and compare a few rows; other column orders, duplicated rows, label sets, constant numeric columns and multi-element columns are not covered.",
 ["src/util/dataset_utils.hpp", "src/lang/statements/create_dataset_statement.hpp", "src/util/encoder_decoder_builder.hpp", "src/lang/statements/print_statement.hpp", "src/util/pretty_print_row.hpp", "docs/commands/CREATE_DATASET.md"],
 [("CSV to binary pipeline", "src/util/dataset_utils.hpp"), ("create statement", "src/lang/statements/create_dataset_statement.hpp execute")])

prop("H11", "Value encoders and decoders are mutually consistent",
 "Every value of a declared column type (label, number, image pixel grid) encodes to a tensor of the declared shape with each source element at its own position, and decoding the tensor gives the value back: the same label exactly, numbers within float precision after undoing scaling. Values supplied interactively to a task, or read from a delimited file straight into memory, are encoded the same way as the same values in a data set file. Unknown labels, wrong element counts and malformed numbers are reported, never silently stored as something else.",
 ["inputs"], "all label sets, numbers and shapes",
 "Tests encode a few category and integer columns; other label sets, element counts and the interactive path are not compared.",
 ["src/training_data/data_encoder.hpp", "src/training_data/data_decoder.hpp", "src/util/encoder_decoder_builder.hpp", "src/lang/happyml_variant.hpp"],
 [("encoders", "src/training_data/data_encoder.hpp"), ("decoders", "src/training_data/data_decoder.hpp"), ("script inputs", "src/lang/happyml_variant.hpp HappyMLVariantEncoder/encode")])

prop("H12", "Byte-pair tokenizing is lossless and reproducible",
 "For every text and every trained vocabulary, decoding an encoded text gives the text back exactly, and encoding only uses codes the vocabulary contains. Training is deterministic: each training gives consecutive new codes to the adjacent pairs of its text's current encoding in order of falling frequency down to the configured minimum, keeps every earlier code, never learns more merges than asked for, never uses the reserved code, and never lengthens the encoding of its training text. Training on a file starts afresh. A saved and reloaded tokenizer encodes and decodes every text exactly as the original did.",
 ["inputs", "histories"], "all training texts, merge counts, texts to encode, and save/load points",
 "Tests use two or three fixed sentences; text unlike the training text, repeated-character runs, tiny texts and retraining after load are not covered.",
 ["src/ml/byte_pair_encoder.hpp", "src/util/data_util.hpp", "src/create_tokenizer.cpp"],
 [("training and merging", "src/ml/byte_pair_encoder.hpp BytePairEncoderModel::train"), ("encode/decode", "src/ml/byte_pair_encoder.hpp encode/decode"), ("persistence", "src/ml/byte_pair_encoder.hpp save/load")])

prop("H13", "Prefix lookup structures agree with a plain dictionary",
 "After any sequence of insertions, a prefix tree reports exactly the inserted words as present, with the value last stored for each, the words sharing a given prefix, and nothing else. Replacing substrings, splitting and sampling helper operations agree with their plain definitions: replacement leaves no unreplaced non-overlapping occurrence of the original text, and splitting a text or a collection loses and invents nothing. A recently-used cache holds exactly the most recently inserted keys up to its capacity.",
 ["histories", "inputs"], "all insertion/lookup histories over all words; all texts and collections",
 "The trie test inserts a few words; shared prefixes, empty words, overwritten values and non-letter characters are not covered.",
 ["src/types/trie.hpp", "src/util/data_util.hpp"],
 [("prefix tree", "src/types/trie.hpp"), ("text and collection helpers", "src/util/data_util.hpp")])

prop("H14", "One-hot and positional encodings represent their input",
 "One-hot encoding a sequence of tokens or characters yields one row per position with exactly one non-zero element, at that token's own code, so the sequence can be read back; a token or character without a code gives an all-zero row. Positional embedding adds to every element a sine or cosine term that depends only on the element's position in the sequence and in the row, drops tokens past the configured sequence length and refuses vectors wider than configured. Embedding the same input twice gives the same result.",
 ["inputs"], "all token sequences, vocabulary sizes, vectors, dimensions and positions",
 "Tests compare one fixed sequence each.",
 ["src/util/one_hot_encoder.hpp", "src/ml/rotary_positional_embedding.hpp", "src/util/text_encoder_decoder.hpp", "src/util/text_embedder.hpp"],
 [("one-hot", "src/util/one_hot_encoder.hpp"), ("positional terms", "src/ml/rotary_positional_embedding.hpp")])

prop("H15", "Lexing partitions the script into longest matches",
 "For every script text, lexing terminates and either yields tokens that, together with the skipped blanks and comments, cover the text without gap or overlap, each being the longest match of the token rules at its position with earlier rules winning ties, or reports an error that names the first position no rule matches. Token values are exact substrings of the script. Keywords are recognised regardless of letter case where documented, and never inside a longer identifier.",
 ["inputs"], "all strings over all characters, in particular near-miss keywords, numbers, quoted strings and comments",
 "Tests lex about twenty fixed lines; prefixes shared by keywords, unterminated strings and ties between rules are not covered systematically.",
 ["src/lang/lexer/lexer.hpp", "src/lang/lexer/lexer_patterns.hpp", "src/lang/lexer/token.hpp", "docs/KEYWORDS.md", "docs/SYNTAX.md"],
 [("longest match loop", "src/lang/lexer/lexer.hpp Lexer::lex"), ("token rules", "src/lang/lexer/lexer_patterns.hpp")])

prop("H16", "Any script is executed or rejected with a message",
 "Interpreting any text, however malformed or truncated, either executes it or reports failure with a message; it never crashes, hangs, escapes with an unexpected exception or leaves the session unusable for the next command. Statements mean the same regardless of blank space, comments, line breaks and keyword letter case allowed by the documentation, and statements run in order with nothing after a failed statement being executed. Every syntactically valid documented statement is parsed into the columns, options, names and locations that the script spelled.",
 ["inputs", "programs", "histories"], "all command texts and sequences of commands in a session",
 "Tests interpret a few complete, correct scripts; truncations at each token, unknown words and bad numbers are not sampled.",
 ["src/lang/parser/parser.hpp", "src/lang/interpreter.hpp", "src/lang/execution_context.hpp", "src/lang/statements/", "docs/SYNTAX.md", "docs/commands/"],
 [("recursive descent parser", "src/lang/parser/parser.hpp"), ("session loop", "src/lang/interpreter.hpp"), ("statement sequencing", "src/lang/statements/code_block_statement.hpp")])

prop("H17", "Scripted data sets and tasks follow their life cycle",
 "Over any sequence of create, execute and print commands, a data set or task exists exactly after it was successfully created; creating one again never alters the stored one, a failed creation leaves nothing usable behind, and using one that does not exist is reported as failure. Executing a created task with given inputs or with a data set produces, for every record, exactly what the stored model predicts for that record, in the expected columns' own units and labels. The outcome does not depend on other tasks or data sets created in between.",
 ["histories"], "all command sequences over a few names, with existing, missing and invalid sources",
 "Tests run one create and execute sequence; re-creation, missing objects, bad files and interleaved tasks are not covered.",
 ["src/util/task_utils.hpp", "src/lang/execution_context.hpp", "src/lang/statements/create_task_statement.hpp", "src/lang/statements/execute_task_statement.hpp", "src/lang/statements/create_dataset_statement.hpp", "src/lang/statements/print_statement.hpp"],
 [("task creation and execution", "src/util/task_utils.hpp"), ("dataset creation", "src/lang/statements/create_dataset_statement.hpp")])

prop("H18", "A network's prediction equals the reference computation",
 "For every network assembled from the supported layers, in any order, width and graph shape the builder accepts (chains, several inputs, several outputs, concatenated branches), its prediction equals the direct mathematical evaluation of those layers with the network's own weights and biases. Predicting does not change the network: repeated predictions for the same input are identical and independent of predictions made in between. A prediction request with the wrong number of inputs is refused. A description can be built any number of times and each network is one of its own; requests the builder refuses leave no trace in the networks built afterwards.",
 ["configurations", "inputs", "histories"], "all buildable architectures, weights, activations and inputs",
 "Tests build no networks beyond trivial ones in examples; concatenation, normalisation, dropout at inference and reduced precision are not compared with a reference.",
 ["src/ml/neural_network_node.hpp", "src/ml/neural_network.hpp", "src/ml/happyml_dsl.hpp", "src/ml/layers/", "src/ml/activators/"],
 [("graph forward", "src/ml/neural_network_node.hpp doForward"), ("builder", "src/ml/happyml_dsl.hpp")])

prop("H19", "Training steps follow the true gradient",
 "For every network, loss and record, the parameter change of a training step with plain gradient descent points along the negative of the numerically measured slope of the loss with respect to every weight and bias, with the documented weight-decay term when enabled, and averages over the records of a batch. Errors passed to earlier layers are the derivative of the loss with respect to those layers' outputs. Consequently a sufficiently small step never increases the loss it was computed from.",
 ["configurations", "inputs"], "all buildable architectures, losses, activations, records and batch sizes",
 "Nothing in the tests compares gradients with finite differences; examples only show that losses fall on XOR and MNIST.",
 ["src/ml/layers/", "src/ml/neural_network_node.hpp", "src/ml/losses/", "src/ml/activators/"],
 [("backpropagation", "src/ml/neural_network_node.hpp backward; src/ml/layers/*.hpp backward/apply")])

prop("H20", "Optimizers follow their published update rules",
 "For every sequence of gradients, each optimizer's weight and bias updates equal the reference recurrence of its rule (gradient descent, momentum, adaptive moments, with and without decay), using the weight learning rate for weights and the bias learning rate for biases. State kept for one parameter tensor never influences another. Restarting from a fresh optimizer reproduces the same updates.",
 ["histories", "configurations"], "all gradient histories, parameter shapes, learning rates, numbers of parameters, epoch boundaries",
 "No test exercises optimizers over several steps or with several parameter tensors.",
 ["src/ml/optimizers/mbgd_optimizer.hpp", "src/ml/optimizers/sgdm_optimizer.hpp", "src/ml/optimizers/adam_optimizer.hpp", "src/ml/optimizer_factory.hpp", "src/ml/optimizer.hpp"],
 [("update rules", "src/ml/optimizers/*.hpp calculateWeightsChange/calculateBiasChange")])

prop("H21", "A saved model loads back identical and intact",
 "For every network the builder accepts, saving it and loading it back yields a network with the same configuration and exactly the same prediction for every input, and loading never changes the saved files. Saving without permission to overwrite leaves an already saved model untouched and stores the new one completely elsewhere; saving with permission replaces it completely. Loading a missing, truncated or foreign model folder is reported as an error, never as a usable model.",
 ["configurations", "histories", "fault_sequences"], "all buildable architectures, precisions, activations and weights; sequences of save/load; damaged files",
 "Examples save and load one chain of dense layers; other layer kinds, graph shapes, precisions, name collisions and damaged folders are not covered.",
 ["src/ml/happyml_dsl.hpp", "src/ml/neural_network.hpp", "src/ml/neural_network_node.hpp", "src/ml/layers/", "src/ml/enums.hpp"],
 [("configuration save/load", "src/ml/happyml_dsl.hpp, src/ml/neural_network.hpp saveAs"), ("knowledge files", "src/ml/layers/*.hpp saveKnowledge/loadKnowledge")])

prop("H22", "Training honours its stopping, batching and retention rules",
 "Training processes every record of the data set once per epoch in batches of the configured size (a final smaller batch included), stops exactly when its exit rule first says so, and reports the loss and epoch counts of what it did. With best-retention the network ends with the parameters of the best epoch; otherwise with those of the last one. Invalid requests (batch larger than the data set, mismatched shapes) are refused before anything is changed.",
 ["configurations", "histories", "inputs"], "all record counts, batch sizes, exit rules, loss histories and retention policies",
 "No test trains with an observable exit rule, partial batches or both retention policies.",
 ["src/ml/neural_network.hpp", "src/ml/exit_strategy.hpp", "src/ml/neural_network_node.hpp"],
 [("training loop", "src/ml/neural_network.hpp train/test"), ("exit rule", "src/ml/exit_strategy.hpp DefaultExitStrategy")])

prop("H23", "Hyperparameter search stays in its space and keeps the best",
 "The declared batch sizes fit the data set (at least one is always left). Every proposed configuration takes each setting from the declared options; while unused configurations remain, none is proposed twice as long as the thousand draws the search allows itself can be expected to find an unused one. The resources allotted to a round are the maximum divided by the factor for each round before (at least two), and bound the patience of its trainings. A round keeps the configurations with the best scores and only those go on. Of all configurations evaluated, the one retained, its score and its model are the best; the search ends when the target is reached, and leaves no temporary models behind. A configuration that cannot be trained loses.",
 ["configurations", "histories"], "all spaces, budgets, reduction factors and evaluation histories",
 "No test covers the search; one example program prints its result.",
 ["src/ml/hyperband/"],
 [("random search", "src/ml/hyperband/hyperband_random_search.hpp"), ("resource allocation", "src/ml/hyperband/resource_allocator.hpp, hyperband.hpp"), ("best tracking", "src/ml/hyperband/configuration_evaluator.hpp")])

prop("H24", "Activation and loss functions and slopes are correct",
 "For every input, each activation function and each loss function returns the value of its mathematical definition, and its derivative is the slope of that function wherever the slope exists (approximations within their documented error). Results stay finite for all inputs of ordinary magnitude, including saturated and exactly zero or one probabilities. Softmax outputs are non-negative and sum to one.",
 ["inputs"], "all tensors of finite values and all valid prediction/truth pairs",
 "Tests check activations at three points and no loss at all.",
 ["src/ml/activators/", "src/ml/losses/", "src/ml/loss.hpp", "src/ml/activation.hpp"],
 [("activations", "src/ml/activators/*.hpp"), ("losses", "src/ml/losses/*.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
