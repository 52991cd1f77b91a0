// A small property-based testing engine: recorded choice sequences, forked workers, crash isolation, generic
// shrinking, replay confirmation. See DESIGN.md. The code under test never runs in the parent process.
#ifndef PBT_HPP
#define PBT_HPP

#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <unistd.h>
#include <tbb/global_control.h>
#include "compat/pbt_env.hpp"

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:"
           "detect_odr_violation=0:symbolize=1:handle_abort=0:strict_string_checks=0:malloc_context_size=6:"
           "quarantine_size_mb=16:max_redzone=64:max_malloc_fill_size=4096:malloc_fill_byte=190";
}
#endif

namespace pbt {
    struct Failure {
        std::string key, msg;
    };
    struct Discard {
    };

    [[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Failure{key, msg}; }

    inline void check(bool ok, const std::string &key, const std::string &msg) {
        if (!ok) fail(key, msg);
    }

    inline void check(bool ok, const char *key) {
        if (!ok) fail(key, key);
    }

    template<typename... A>
    std::string str(const A &... a) {
        std::ostringstream o;
        o.precision(9);
        (o << ... << a);
        return o.str();
    }

    inline std::string quote(const std::string &s) {
        std::ostringstream o;
        o << '"';
        for (unsigned char c: s) {
            if (c == '\n') o << "\\n";
            else if (c == '\r') o << "\\r";
            else if (c == '\t') o << "\\t";
            else if (c == '"') o << "\\\"";
            else if (c == '\\') o << "\\\\";
            else if (c < 32 || c >= 127) {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", c);
                o << b;
            } else o << c;
        }
        o << '"';
        return o.str();
    }

    template<typename T>
    std::string join(const std::vector<T> &v, const std::string &sep = ",") {
        std::ostringstream o;
        o.precision(9);
        for (size_t i = 0; i < v.size(); i++) {
            if (i) o << sep;
            o << v[i];
        }
        return o.str();
    }

    class Gen {
    public:
        std::vector<uint64_t> replayed;   // choices to replay (then zeros)
        bool is_replay = false;
        uint64_t rng_state = 0;
        std::vector<uint64_t> choices;
        std::set<std::string> labels;
        std::string notes;
        bool is_nontrivial = false;
        uint64_t *mirror = nullptr, *mirror_n = nullptr; // shared memory copy: survives a crash

        uint64_t draw(uint64_t n) { // in [0,n); n==0: any 64 bit value. 0 is the simplest choice.
            uint64_t v;
            if (is_replay) {
                v = choices.size() < replayed.size() ? replayed[choices.size()] : 0;
                if (n && v >= n) v %= n;
            } else {
                v = pbt_env::splitmix(rng_state);
                if (n) v = (uint64_t) (((__uint128_t) v * n) >> 64);
            }
            choices.push_back(v);
            if (mirror && *mirror_n < 400000) mirror[(*mirror_n)++] = v;
            if (choices.size() > 4000000) throw Discard{};
            return v;
        }

        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo) + 1); } // shrinks to lo
        bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }                       // shrinks to false
        bool flip() { return draw(2) == 1; }

        template<typename T>
        const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

        template<typename T>
        T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }

        // small-biased size: 0..max
        size_t size(size_t lo, size_t max) {
            switch (draw(4)) {
                case 0:
                    return (size_t) range((int64_t) lo, (int64_t) std::min(max, lo + 3));
                case 1:
                case 2:
                    return (size_t) range((int64_t) lo, (int64_t) std::min(max, lo + (max - lo) / 3 + 1));
                default:
                    return (size_t) range((int64_t) lo, (int64_t) max);
            }
        }

        // an ordinary finite value; mixes small integers, dyadic fractions and wider decimals
        float value(float scale = 10.f) {
            switch (draw(4)) {
                case 0:
                    return (float) ((int64_t) range(0, 2 * (int64_t) scale) - (int64_t) scale) * 1.f;
                case 1:
                    return (float) (range(0, 64) - 32) * scale / 32.f;
                default: {
                    double u = (double) draw(1u << 24) / (double) (1u << 24);
                    return (float) ((u * 2 - 1) * scale);
                }
            }
        }

        double unit() { return (double) draw(1u << 30) / (double) (1u << 30); }

        template<typename T>
        void shuffle(std::vector<T> &v) {
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[draw(i)]);
        }

        void label(const std::string &l) { labels.insert(l); }
        void nontrivial() { is_nontrivial = true; }

        template<typename... A>
        void note(const A &... a) {
            if (notes.size() < 6000) {
                notes += str(a...);
                notes += "\n";
            }
        }
        [[noreturn]] void discard() { throw Discard{}; }
    };

    using Fn = void (*)(Gen &);

    struct Prop {
        std::string name, rule;
        uint64_t quick, thorough;
        Fn fn;
    };

    inline std::vector<Prop> &props() {
        static std::vector<Prop> p;
        return p;
    }

    struct Reg {
        Reg(const char *n, uint64_t q, uint64_t t, const char *rule, Fn f) { props().push_back({n, rule, q, t, f}); }
    };

#define PBT_PROP(NAME, QUICK, THOROUGH, RULE) \
    static void NAME(pbt::Gen &g); \
    static pbt::Reg reg_##NAME(#NAME, QUICK, THOROUGH, RULE, NAME); \
    static void NAME(pbt::Gen &g)

    // ---- scratch -------------------------------------------------------------------------------------------------
    inline std::string &scratch_root() {
        static std::string s;
        return s;
    }

    inline std::string &worker_dir() {
        static std::string s;
        return s;
    }

    inline void remove_tree(const std::string &abs) {
        if (abs.rfind(scratch_root() + "/", 0) != 0 || scratch_root().size() < 8) abort();
        std::error_code ec;
        std::filesystem::remove_all(abs, ec);
    }

    // an empty directory, private to this case; becomes the working directory's sibling "case"
    inline std::string case_dir() {
        std::string d = worker_dir() + "/case";
        remove_tree(d);
        std::filesystem::create_directories(d);
        return d;
    }

    // ---- shared state -----------------------------------------------------------------------------------------------
    constexpr int MAX_KEYS = 24, MAX_LABELS = 96, MAX_PROPS = 48, MAX_SAMPLES = 3, HASHES = 60000;

    struct KeyRec {
        char key[160];
        char msg[1500];
        uint64_t case_index, count;
        bool crash;
    };
    struct LabelRec {
        char name[64];
        uint64_t count;
    };
    struct PropStats {
        uint64_t evaluated, discarded, nontrivial, next_case;
        int nkeys, nlabels, nsamples;
        KeyRec keys[MAX_KEYS];
        LabelRec labels[MAX_LABELS];
        char samples[MAX_SAMPLES][1600];
        uint32_t nhash;
        uint64_t hashes[HASHES];
    };
    struct WorkerShared {
        int current_prop;     // -1 when between cases
        uint64_t current_case;
        bool done;
        int crashes;
        double last_progress;
        PropStats p[MAX_PROPS];
    };
    struct TrialShared { // result of one trial in a child
        int status;      // 0 not finished (crash), 1 pass, 2 fail, 3 discard
        char key[160];
        char msg[8000];
        char notes[8000];
        uint64_t nchoices;
        uint64_t choices[400000];
        char lib_out[4000];
    };

    template<typename T>
    T *shared_alloc(size_t n = 1) {
        void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            _exit(3);
        }
        return (T *) p;
    }

    inline void cpy(char *dst, size_t n, const std::string &s) {
        size_t k = std::min(n - 1, s.size());
        memcpy(dst, s.data(), k);
        dst[k] = 0;
    }

    inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
        for (unsigned char c: s) {
            h ^= c;
            h *= 1099511628211ULL;
        }
        return h;
    }

    inline uint64_t case_seed(uint64_t seed, const std::string &prop, uint64_t index) {
        uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ hash_str(prop) ^ (index * 0xD1B54A32D192ED03ULL);
        uint64_t t = s;
        pbt_env::splitmix(t);
        return pbt_env::splitmix(t) ^ index;
    }

    inline double wall_now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    struct Outcome {
        int status = 0; // 1 pass 2 fail 3 discard
        std::string key, msg;
    };

    inline std::string type_name_of(const std::exception &e) {
        std::string n = typeid(e).name();
        std::string r;
        for (char c: n) if (isalpha((unsigned char) c) || c == '_') r += c;
        return r;
    }

    inline Outcome run_case(const Prop &p, Gen &g, uint64_t env_seed) {
        Outcome o;
        pbt_env::rd_state = env_seed ^ 0xABCDEF;
        pbt_env::clock_ns = 1700000000000000000LL;
        pbt_env::clock_step_ns = 1000;
        std::cout.clear();
        std::cerr.clear();
        if (lseek(1, 0, SEEK_CUR) > 0) {
            (void) !ftruncate(1, 0);
            lseek(1, 0, SEEK_SET);
        }
        if (chdir((worker_dir() + "/bin").c_str()) != 0) {
            std::filesystem::create_directories(worker_dir() + "/bin");
            (void) !chdir((worker_dir() + "/bin").c_str());
        }
        try {
            p.fn(g);
            o.status = 1;
        } catch (const Discard &) {
            o.status = 3;
        } catch (const Failure &f) {
            o.status = 2;
            o.key = p.name + ":" + f.key;
            o.msg = f.msg;
        } catch (const std::exception &e) {
            o.status = 2;
            o.key = p.name + ":exception:" + type_name_of(e);
            o.msg = std::string("uncaught exception: ") + e.what();
        } catch (...) {
            o.status = 2;
            o.key = p.name + ":exception:unknown";
            o.msg = "uncaught exception of unknown type";
        }
        return o;
    }

    // env seed derived from the choices' origin: the same for the original case and all its shrunk forms
    inline void silence(const std::string &dir) {
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        int f = open((dir + "/out.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if (f < 0) _exit(3);
        dup2(f, 1);
        dup2(f, 2);
    }

    constexpr int CASE_CPU_SECONDS = 120;
    constexpr int CASE_WALL_SECONDS = 300;

    inline void on_timer(int) { _exit(97); }

    inline void arm(int cpu_s) {
        signal(SIGPROF, on_timer);
        itimerval t{};
        t.it_value.tv_sec = cpu_s;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    inline void setup_child(const std::string &name) {
        worker_dir() = scratch_root() + "/" + name;
        std::filesystem::create_directories(worker_dir() + "/bin");
        std::filesystem::create_directories(worker_dir() + "/case");
        silence(worker_dir());
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        rl = {2000000000, 2000000000};
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, SIG_IGN);
    }

    inline std::string read_file_text(const std::string &f, size_t max = 200000) {
        std::ifstream i(f, std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        if (s.size() > max) s = s.substr(s.size() - max);
        return s;
    }

    inline std::string crash_key(const std::string &prop, int st, const std::string &out, std::string &msg) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
            msg = "used more than " + str(CASE_CPU_SECONDS) + " s of processor time (does not terminate)";
            return prop + ":hang";
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && out.find("hard rss limit") == std::string::npos) {
            msg = "killed (wall-clock limit or out of memory)";
            return prop + ":killed";
        }
        size_t s = out.rfind("SUMMARY: AddressSanitizer:");
        if (s != std::string::npos) {
            std::string line = out.substr(s + 27, out.find('\n', s) - s - 27);
            msg = "AddressSanitizer: " + line;
            std::string kind = line.substr(0, line.find(' '));
            // first frame inside the code under test
            size_t a = out.rfind("ERROR: AddressSanitizer");
            std::string where;
            if (a != std::string::npos) {
                std::istringstream is(out.substr(a));
                std::string l;
                int n = 0;
                while (std::getline(is, l)) {
                    if (l.find("    #") == 0) {
                        size_t h = l.find(" in happyml::");
                        if (h != std::string::npos) {
                            where = l.substr(h + 13, l.find_first_of("(<", h + 13) - h - 13);
                            if (n < 12) msg += "\n" + l;
                            break;
                        }
                        if (n++ < 12) msg += "\n" + l;
                    } else if (n > 0 && l.empty()) break;
                }
            }
            return prop + ":crash:" + kind + (where.empty() ? "" : ":" + where);
        }
        if (out.find("hard rss limit") != std::string::npos) {
            msg = "exceeded the memory limit";
            return prop + ":crash:memory";
        }
        size_t as = out.rfind("Assertion '");
        if (as != std::string::npos) {
            msg = out.substr(as, std::min<size_t>(200, out.size() - as));
            size_t nl = out.rfind('\n', as);
            msg += " " + out.substr(nl == std::string::npos ? 0 : nl + 1, 200);
            return prop + ":crash:assertion";
        }
        if (WIFSIGNALED(st)) {
            msg = str("terminated by signal ", WTERMSIG(st));
            size_t t = out.rfind("terminate called");
            if (t != std::string::npos) msg += ": " + out.substr(t, 300);
            return prop + ":crash:signal" + str(WTERMSIG(st));
        }
        msg = str("exited with status ", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        return prop + ":crash:exit" + str(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }

    struct Trial {
        int status = 0;
        std::string key, msg, notes;
        std::vector<uint64_t> choices;
        std::string lib_out;
    };

    // runs one case (a choice sequence, or a fresh one from its seed) in a forked child
    inline Trial run_trial(TrialShared *ts, const Prop &p, const std::vector<uint64_t> *choices, uint64_t seed,
                           int cpu_s = CASE_CPU_SECONDS, const std::vector<uint64_t> *prefix_seeds = nullptr) {
        ts->status = 0;
        ts->nchoices = 0;
        ts->key[0] = ts->msg[0] = ts->notes[0] = ts->lib_out[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            setup_child("trial");
            tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 3);
            arm(cpu_s);
            if (prefix_seeds) for (uint64_t s: *prefix_seeds) {
                Gen g;
                g.rng_state = s;
                run_case(p, g, s);
                arm(cpu_s);
            }
            Gen g;
            if (choices) {
                g.is_replay = true;
                g.replayed = *choices;
            } else g.rng_state = seed;
            g.mirror = ts->choices;
            g.mirror_n = &ts->nchoices;
            Outcome o = run_case(p, g, seed);
            cpy(ts->key, sizeof ts->key, o.key);
            cpy(ts->msg, sizeof ts->msg, o.msg);
            cpy(ts->notes, sizeof ts->notes, g.notes);
            fflush(stdout);
            std::cout.flush();
            cpy(ts->lib_out, sizeof ts->lib_out, read_file_text(worker_dir() + "/out.txt", 3900));
            ts->status = o.status;
            _exit(0);
        }
        double t0 = wall_now();
        int st = 0;
        bool timed_out = false;
        while (true) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (wall_now() - t0 > CASE_WALL_SECONDS) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                timed_out = true;
                break;
            }
            usleep(wall_now() - t0 < 0.05 ? 300 : 3000);
        }
        Trial t;
        t.status = ts->status;
        if (t.status == 0) {
            std::string out = read_file_text(scratch_root() + "/trial/out.txt");
            t.status = 2;
            t.key = crash_key(p.name, st, out, t.msg);
            if (timed_out) t.key = p.name + ":killed";
            t.lib_out = out.size() > 3000 ? out.substr(out.size() - 3000) : out;
            t.choices.assign(ts->choices, ts->choices + ts->nchoices);
        } else {
            t.key = ts->key;
            t.msg = ts->msg;
            t.notes = ts->notes;
            t.lib_out = ts->lib_out;
            t.choices.assign(ts->choices, ts->choices + ts->nchoices);
        }
        return t;
    }

    inline bool same_kind(const std::string &a, const std::string &b) { return a == b; }

    inline void worker_main(WorkerShared *ws, int w, int nw, uint64_t seed, bool thorough, double deadline,
                            const std::string &only, double scale) {
        setup_child("w" + str(w));
        tbb::global_control tc(tbb::global_control::max_allowed_parallelism, 2);
        for (size_t pi = 0; pi < props().size(); pi++) {
            const Prop &p = props()[pi];
            if (!only.empty() && p.name != only) continue;
            PropStats &s = ws->p[pi];
            uint64_t total = (uint64_t) std::max(1.0, (double) (thorough ? p.thorough : p.quick) * scale);
            if (s.next_case < (uint64_t) w) s.next_case = w;
            for (; s.next_case < total;) {
                if (wall_now() > deadline) break;
                uint64_t ci = s.next_case;
                s.next_case += nw;
                ws->current_prop = (int) pi;
                ws->current_case = ci;
                ws->last_progress = wall_now();
                uint64_t cs = case_seed(seed, p.name, ci);
                Gen g;
                g.rng_state = cs;
                arm(CASE_CPU_SECONDS);
                Outcome o = run_case(p, g, cs);
                s.evaluated++;
                if (o.status == 3) s.discarded++;
                else {
                    if (g.is_nontrivial || o.status == 2) {
                        s.nontrivial++;
                        if (s.nhash < HASHES) {
                            uint64_t h = 1469598103934665603ULL;
                            for (uint64_t c: g.choices) {
                                h ^= c;
                                h *= 1099511628211ULL;
                                h ^= h >> 29;
                            }
                            s.hashes[s.nhash++] = h;
                        }
                        if (s.nsamples < MAX_SAMPLES && !g.notes.empty() && o.status == 1)
                            cpy(s.samples[s.nsamples++], sizeof s.samples[0], g.notes);
                    }
                    for (auto &l: g.labels) {
                        int i = 0;
                        for (; i < s.nlabels; i++) if (l.compare(0, 63, s.labels[i].name) == 0) break;
                        if (i == s.nlabels) {
                            if (i == MAX_LABELS) continue;
                            cpy(s.labels[i].name, 64, l);
                            s.nlabels++;
                        }
                        s.labels[i].count++;
                    }
                }
                if (o.status == 2) {
                    int i = 0;
                    for (; i < s.nkeys; i++) if (o.key == s.keys[i].key) break;
                    if (i < MAX_KEYS) {
                        if (i == s.nkeys) {
                            s.nkeys++;
                            cpy(s.keys[i].key, sizeof s.keys[i].key, o.key);
                            cpy(s.keys[i].msg, sizeof s.keys[i].msg, o.msg);
                            s.keys[i].case_index = ci;
                            s.keys[i].crash = false;
                        }
                        s.keys[i].count++;
                    }
                }
                ws->current_prop = -1;
            }
        }
        ws->done = true;
    }

    inline std::string jesc(const std::string &s) {
        std::string o;
        for (size_t i = 0; i < s.size();) {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char) c;
            } else if (c == '\n') o += "\\n";
            else if (c < 32 || c >= 127) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c); // bytes as latin-1
                o += b;
            } else o += (char) c;
            i++;
        }
        return o;
    }

    struct Found {
        size_t prop;
        std::string key, msg;
        uint64_t case_index, count;
        int worker;
        bool confirmed = false;
        Trial trial;
        uint64_t seed;
        bool sequence = false;
        uint64_t seq_from = 0, seq_stride = 1;
        int reproduced = 0, attempts = 0;
        uint64_t shrink_trials = 0;
    };

    inline void write_replay(const std::string &path, const Found &f, uint64_t run_seed) {
        std::ofstream o(path);
        const Prop &p = props()[f.prop];
        o << "prop " << p.name << "\n";
        o << "key " << f.key << "\n";
        o << "env_seed " << f.seed << "\n";
        o << "run_seed " << run_seed << " case " << f.case_index << "\n";
        if (f.sequence) o << "sequence_stride " << f.seq_stride << " start " << f.seq_from << "\n";
        o << "choices " << f.trial.choices.size();
        for (uint64_t c: f.trial.choices) o << " " << c;
        o << "\n";
        o << "--- failure\n" << f.trial.msg << "\n--- case\n" << f.trial.notes << "\n--- library output (tail)\n" << f.trial.lib_out << "\n";
    }

    inline Trial shrink(TrialShared *ts, const Prop &p, Trial best, uint64_t seed, double budget_s, uint64_t &trials) {
        double t0 = wall_now();
        auto out_of_time = [&]() { return wall_now() - t0 > budget_s; };
        auto attempt = [&](std::vector<uint64_t> c) {
            if (out_of_time()) return false;
            trials++;
            Trial t = run_trial(ts, p, &c, seed, 30);
            if (t.status == 2 && same_kind(t.key, best.key)) {
                // keep only the choices actually used
                best = t;
                return true;
            }
            return false;
        };
        bool improved = true;
        while (improved && !out_of_time()) {
            improved = false;
            // truncate
            for (size_t cut: {best.choices.size() / 2, best.choices.size() / 4, (size_t) 1}) {
                while (cut > 0 && best.choices.size() > cut && !out_of_time()) {
                    auto c = best.choices;
                    size_t before = c.size();
                    c.resize(c.size() - cut);
                    // trailing zeros are implied
                    if (!attempt(c)) break;
                    while (!best.choices.empty() && best.choices.back() == 0 && best.choices.size() > c.size())
                        best.choices.pop_back();
                    if (best.choices.size() >= before) break;
                    improved = true;
                }
            }
            // delete chunks
            for (size_t k: {64, 32, 16, 8, 4, 3, 2, 1}) {
                for (size_t i = 0; i + k <= best.choices.size() && !out_of_time();) {
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + k);
                    size_t before = best.choices.size();
                    if (attempt(c) && best.choices.size() < before) improved = true;
                    else i += (k > 4 ? k / 2 : 1);
                    if (best.choices.size() > 3000 && i > 3000) break;
                }
            }
            // zero blocks, then lower values
            for (size_t k: {16, 4, 1}) {
                for (size_t i = 0; i + k <= best.choices.size() && !out_of_time(); i += k) {
                    auto c = best.choices;
                    bool any = false;
                    for (size_t j = i; j < i + k; j++) {
                        if (c[j]) any = true;
                        c[j] = 0;
                    }
                    if (any && attempt(c)) improved = true;
                }
            }
            for (size_t i = 0; i < best.choices.size() && !out_of_time(); i++) {
                uint64_t lo = 0;
                while (i < best.choices.size() && best.choices[i] > lo && !out_of_time()) {
                    uint64_t mid = lo + (best.choices[i] - lo) / 2;
                    auto c = best.choices;
                    c[i] = mid;
                    uint64_t before = best.choices[i];
                    if (attempt(c)) {
                        improved = true;
                        if (i >= best.choices.size() || best.choices[i] >= before) break;
                    } else {
                        if (mid == lo && best.choices[i] == lo + 1) break;
                        lo = mid + 1;
                    }
                }
            }
        }
        return best;
    }

    inline int run_main(int argc, char **argv) {
        std::string scratch, result, replay_out, replay_file, only, known;
        uint64_t seed = 1;
        bool thorough = false;
        int nw = 8;
        double budget = 500, scale = 1, shrink_budget = 40;
        long one_case = -1;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(argv[++i]); };
            if (a == "--scratch") scratch = next();
            else if (a == "--result") result = next();
            else if (a == "--replays") replay_out = next();
            else if (a == "--replay") replay_file = next();
            else if (a == "--seed") seed = std::stoull(next());
            else if (a == "--thorough") thorough = true;
            else if (a == "--workers") nw = std::stoi(next());
            else if (a == "--budget") budget = std::stod(next());
            else if (a == "--shrink-budget") shrink_budget = std::stod(next());
            else if (a == "--scale") scale = std::stod(next());
            else if (a == "--prop") only = next();
            else if (a == "--known") known = next();
            else if (a == "--case") one_case = std::stol(next());
        }
        if (scratch.empty()) {
            fprintf(stderr, "need --scratch\n");
            return 2;
        }
        if (geteuid() == 0) { // never run the code under test with privileges
            if (chown(scratch.c_str(), 65534, 65534) != 0 || setgroups(0, nullptr) != 0 || setgid(65534) != 0 ||
                setuid(65534) != 0) {
                perror("dropping privileges");
                return 2;
            }
        }
        scratch_root() = std::filesystem::absolute(scratch).string();
        std::set<std::string> known_keys;
        {
            std::ifstream k(known);
            std::string l;
            while (std::getline(k, l)) if (!l.empty()) known_keys.insert(l);
        }
        TrialShared *ts = shared_alloc<TrialShared>();
        auto find_prop = [&](const std::string &n) -> int {
            for (size_t i = 0; i < props().size(); i++) if (props()[i].name == n) return (int) i;
            return -1;
        };

        if (!replay_file.empty()) {
            std::ifstream in(replay_file);
            std::string word, prop, line, key;
            uint64_t env_seed = 0, rs = 0, rc = 0, stride = 0, start = 0, n = 0;
            std::vector<uint64_t> choices;
            while (in >> word) {
                if (word == "prop") in >> prop;
                else if (word == "key") {
                    std::getline(in, key);
                    if (!key.empty()) key = key.substr(1);
                } else if (word == "env_seed") in >> env_seed;
                else if (word == "run_seed") in >> rs >> word >> rc;
                else if (word == "sequence_stride") in >> stride >> word >> start;
                else if (word == "choices") {
                    in >> n;
                    choices.resize(n);
                    for (auto &c: choices) in >> c;
                    break;
                }
            }
            int pi = find_prop(prop);
            if (pi < 0) {
                printf("no such property function: %s\n", prop.c_str());
                return 2;
            }
            std::vector<uint64_t> prefix;
            if (stride) for (uint64_t c = start; c < rc; c += stride) prefix.push_back(case_seed(rs, prop, c));
            Trial t = stride ? run_trial(ts, props()[pi], nullptr, env_seed, 900, &prefix)
                             : run_trial(ts, props()[pi], &choices, env_seed);
            printf("%s\nkey: %s\n%s\n--- case\n%s\n--- library output\n%s\n", t.status == 2 ? "FAILS" : "passes",
                   t.key.c_str(), t.msg.c_str(), t.notes.c_str(), t.lib_out.c_str());
            return t.status == 2 ? 1 : 0;
        }
        if (one_case >= 0) {
            int pi = find_prop(only);
            Trial t = run_trial(ts, props()[pi], nullptr, case_seed(seed, only, one_case));
            printf("status %d\nkey: %s\n%s\n--- case\n%s\n--- library output\n%s\n", t.status, t.key.c_str(), t.msg.c_str(),
                   t.notes.c_str(), t.lib_out.c_str());
            return 0;
        }

        double t0 = wall_now();
        double deadline = t0 + budget;
        WorkerShared *ws = shared_alloc<WorkerShared>(nw);
        std::vector<pid_t> pids(nw, 0);
        auto start = [&](int w) {
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                worker_main(&ws[w], w, nw, seed, thorough, deadline, only, scale);
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < nw; w++) {
            ws[w].current_prop = -1;
            ws[w].last_progress = wall_now();
            start(w);
        }
        int alive = nw;
        std::vector<std::string> engine_notes;
        while (alive > 0) {
            usleep(5000);
            for (int w = 0; w < nw; w++) {
                if (!pids[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == 0) {
                    if (ws[w].current_prop >= 0 && wall_now() - ws[w].last_progress > CASE_WALL_SECONDS) kill(pids[w], SIGKILL);
                    continue;
                }
                pids[w] = 0;
                if (ws[w].done) {
                    alive--;
                    continue;
                }
                int pi = ws[w].current_prop;
                if (pi < 0) {
                    engine_notes.push_back(str("worker ", w, " ended between cases"));
                    alive--;
                    continue;
                }
                PropStats &s = ws[w].p[pi];
                std::string msg, out = read_file_text(scratch_root() + "/w" + str(w) + "/out.txt");
                std::string key = crash_key(props()[pi].name, st, out, msg);
                s.evaluated++;
                int i = 0;
                for (; i < s.nkeys; i++) if (key == s.keys[i].key) break;
                if (i < MAX_KEYS) {
                    if (i == s.nkeys) {
                        s.nkeys++;
                        cpy(s.keys[i].key, sizeof s.keys[i].key, key);
                        cpy(s.keys[i].msg, sizeof s.keys[i].msg, msg);
                        s.keys[i].case_index = ws[w].current_case;
                        s.keys[i].crash = true;
                    }
                    s.keys[i].count++;
                }
                ws[w].current_prop = -1;
                if (++ws[w].crashes > 40) { // give up on this property function, go on with the next
                    ws[w].crashes = 0;
                    s.next_case = (uint64_t) -1 / 2;
                    engine_notes.push_back(str("worker ", w, ": too many crashes in ", props()[pi].name));
                }
                start(w);
            }
        }
        double t_run = wall_now() - t0;

        // merge
        std::map<std::pair<size_t, std::string>, Found> found;
        for (size_t pi = 0; pi < props().size(); pi++)
            for (int w = 0; w < nw; w++)
                for (int k = 0; k < ws[w].p[pi].nkeys; k++) {
                    KeyRec &r = ws[w].p[pi].keys[k];
                    auto id = std::make_pair(pi, std::string(r.key));
                    auto it = found.find(id);
                    if (it == found.end()) {
                        Found f;
                        f.prop = pi;
                        f.key = r.key;
                        f.msg = r.msg;
                        f.case_index = r.case_index;
                        f.count = r.count;
                        f.worker = w;
                        f.seed = case_seed(seed, props()[pi].name, r.case_index);
                        found[id] = f;
                    } else it->second.count += r.count;
                }
        // confirm and shrink unknown ones
        double shrink_deadline = wall_now() + shrink_budget;
        int nv = 0;
        std::vector<Found *> violations, unconfirmed, knowns;
        for (auto &kv: found) {
            Found &f = kv.second;
            if (known_keys.count(f.key)) {
                knowns.push_back(&f);
                continue;
            }
            const Prop &p = props()[f.prop];
            // original case, from its seed, up to 5 times
            bool got = false;
            for (int a = 0; a < 5 && !got; a++) {
                Trial t = run_trial(ts, p, nullptr, f.seed);
                f.attempts++;
                if (t.status == 2 && !known_keys.count(t.key)) {
                    got = true;
                    f.reproduced++;
                    f.trial = t;
                    f.key = t.key;
                }
            }
            if (!got) {
                // depends on earlier cases of the same worker? run the same sequence again
                std::vector<uint64_t> prefix;
                for (uint64_t c = f.worker; c < f.case_index; c += nw) prefix.push_back(case_seed(seed, p.name, c));
                if (nv < 3) {
                    Trial t = run_trial(ts, p, nullptr, f.seed, 600, &prefix);
                    f.attempts++;
                    if (t.status == 2 && !known_keys.count(t.key)) {
                        got = true;
                        f.sequence = true;
                        f.seq_from = f.worker;
                        f.seq_stride = nw;
                        f.reproduced++;
                        f.trial = t;
                    }
                }
            }
            if (!got) {
                unconfirmed.push_back(&f);
                continue;
            }
            nv++;
            if (!f.sequence && wall_now() < shrink_deadline && nv <= 6) {
                Trial start_trial = f.trial;
                Trial best = shrink(ts, p, start_trial, f.seed, std::min(shrink_budget / 2.0, shrink_deadline - wall_now()),
                                    f.shrink_trials);
                // confirm the shrunk form
                bool ok = false;
                for (int a = 0; a < 3 && !ok; a++) {
                    Trial t = run_trial(ts, p, &best.choices, f.seed);
                    if (t.status == 2 && !known_keys.count(t.key)) {
                        ok = true;
                        best.msg = t.msg;
                        if (!t.notes.empty()) best.notes = t.notes;
                        best.lib_out = t.lib_out;
                    }
                }
                f.trial = ok ? best : start_trial;
            }
            f.confirmed = true;
            violations.push_back(&f);
        }
        if (!replay_out.empty()) std::filesystem::create_directories(replay_out);
        std::ostringstream js;
        js.precision(6);
        js << "{\n \"run_s\": " << t_run << ",\n \"wall_s\": " << wall_now() - t0 << ",\n \"props\": [";
        for (size_t pi = 0; pi < props().size(); pi++) {
            uint64_t ev = 0, di = 0, nt = 0;
            std::set<uint64_t> hs;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            for (int w = 0; w < nw; w++) {
                PropStats &s = ws[w].p[pi];
                ev += s.evaluated;
                di += s.discarded;
                nt += s.nontrivial;
                hs.insert(s.hashes, s.hashes + s.nhash);
                for (int i = 0; i < s.nlabels; i++) labels[s.labels[i].name] += s.labels[i].count;
                for (int i = 0; i < s.nsamples && samples.size() < MAX_SAMPLES; i++) samples.push_back(s.samples[i]);
            }
            uint64_t planned = (uint64_t) std::max(1.0, (double) (thorough ? props()[pi].thorough : props()[pi].quick) * scale);
            js << (pi ? "," : "") << "\n  {\"name\": \"" << props()[pi].name << "\", \"rule\": \"" << jesc(props()[pi].rule)
               << "\", \"planned\": " << planned << ", \"evaluated\": " << ev << ", \"discarded\": " << di
               << ", \"nontrivial\": " << nt << ", \"distinct_nontrivial\": " << hs.size() << ", \"labels\": {";
            bool first = true;
            for (auto &l: labels) {
                js << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second;
                first = false;
            }
            js << "}, \"samples\": [";
            for (size_t i = 0; i < samples.size(); i++) js << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
            js << "]}";
        }
        js << "\n ],\n";
        auto emit = [&](const char *name, std::vector<Found *> &v, bool with_replay) {
            js << " \"" << name << "\": [";
            for (size_t i = 0; i < v.size(); i++) {
                std::string path;
                if (with_replay && !replay_out.empty()) {
                    std::string fn = v[i]->key;
                    for (char &c: fn) if (!isalnum((unsigned char) c) && c != '-' && c != '_') c = '_';
                    path = replay_out + "/" + fn.substr(0, 100) + ".replay";
                    write_replay(path, *v[i], seed);
                }
                js << (i ? "," : "") << "\n  {\"key\": \"" << jesc(v[i]->key) << "\", \"msg\": \""
                   << jesc(v[i]->trial.msg.empty() ? v[i]->msg : v[i]->trial.msg) << "\", \"case\": " << v[i]->case_index
                   << ", \"count\": " << v[i]->count << ", \"sequence\": " << (v[i]->sequence ? "true" : "false")
                   << ", \"shrink_trials\": " << v[i]->shrink_trials << ", \"notes\": \"" << jesc(v[i]->trial.notes.substr(0, 1500))
                   << "\", \"replay\": \"" << jesc(path) << "\"}";
            }
            js << "],\n";
        };
        emit("violations", violations, true);
        emit("known", knowns, false);
        emit("unconfirmed", unconfirmed, false);
        js << " \"engine_notes\": [";
        for (size_t i = 0; i < engine_notes.size(); i++) js << (i ? "," : "") << "\"" << jesc(engine_notes[i]) << "\"";
        js << "]\n}\n";
        if (!result.empty()) {
            std::ofstream o(result);
            o << js.str();
        } else printf("%s", js.str().c_str());
        return violations.empty() ? 0 : 1;
    }

}

int main(int argc, char **argv) { return pbt::run_main(argc, argv); }

#endif
