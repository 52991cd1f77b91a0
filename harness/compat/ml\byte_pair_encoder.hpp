#include "/repo/src/ml/byte_pair_encoder.hpp"
