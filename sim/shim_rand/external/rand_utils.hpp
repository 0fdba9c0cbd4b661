// Entropy seam: stands in for external/rand_utils.hpp in the harnesses that
// are not about entropy itself.  The seed words come from the simulator and
// depend only on the run and on the label of the asking thread, not on the
// schedule.
#ifndef RANDUTILS_HPP
#define RANDUTILS_HPP 1
#include <algorithm>
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <random>
#include <sim.h>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
namespace randutils {
    using seed_seq_fe128 = std::seed_seq;
    using seed_seq_fe256 = std::seed_seq;
    template <typename S>
    class auto_seeded {
    public:
        auto_seeded() : _s{sim::entropy32(), sim::entropy32(), sim::entropy32(), sim::entropy32()} {}
        const S& base() const { return _s; }
        S& base() { return _s; }
        template <typename It>
        void generate(It b, It e) { _s.generate(b, e); }

    private:
        S _s;
    };
    using auto_seed_128 = auto_seeded<seed_seq_fe128>;
    using auto_seed_256 = auto_seeded<seed_seq_fe256>;
}
#endif
