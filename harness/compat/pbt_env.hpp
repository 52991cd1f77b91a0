// Force-included after msvc_compat.hpp. The harness owns randomness and time, so that every run is a pure function of
// the code under test and of VERIF_SEED: std::random_device and the chrono clocks named by code compiled after this
// point are replaced by deterministic ones which the harness re-seeds at the start of every generated case.
#ifndef PBT_ENV_HPP
#define PBT_ENV_HPP

#include <bits/stdc++.h>
#include <math.h>

namespace pbt_env {
    inline std::atomic<uint64_t> rd_state{0x1234567};
    inline std::atomic<int64_t> clock_ns{1700000000000000000LL};
    inline std::atomic<int64_t> clock_step_ns{1000}; // every reading of a clock advances it
    inline uint64_t splitmix(uint64_t &s) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
}

namespace std {
    class pbt_random_device {
    public:
        using result_type = unsigned int;
        pbt_random_device() = default;
        explicit pbt_random_device(const string &) {}
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xFFFFFFFFu; }
        double entropy() const noexcept { return 0; }
        result_type operator()() {
            uint64_t s = pbt_env::rd_state.fetch_add(0x9E3779B97F4A7C15ULL);
            return (result_type) (pbt_env::splitmix(s) >> 16);
        }
    };
    namespace chrono {
        struct pbt_clock {
            using duration = std::chrono::nanoseconds;
            using rep = duration::rep;
            using period = duration::period;
            using time_point = std::chrono::time_point<pbt_clock, duration>;
            static constexpr bool is_steady = true;
            static time_point now() noexcept {
                return time_point(duration(pbt_env::clock_ns.fetch_add(pbt_env::clock_step_ns.load())));
            }
            static std::time_t to_time_t(const time_point &t) noexcept {
                return (std::time_t) (t.time_since_epoch().count() / 1000000000LL);
            }
            static time_point from_time_t(std::time_t t) noexcept {
                return time_point(duration((int64_t) t * 1000000000LL));
            }
        };
    }
}
// (function templates of libstdc++ that name these are already parsed)
#define random_device pbt_random_device
#define system_clock pbt_clock
#define high_resolution_clock pbt_clock
#define steady_clock pbt_clock

#endif
