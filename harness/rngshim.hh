// Forced in with -include: replaces the standard random engines by one whose
// values the harness scripts and logs, so that an observed step can be
// compared with the specification for exactly the draws it used. One raw
// 64-bit draw makes one uniform value.
#ifndef VERIF_RNGSHIM_HH
#define VERIF_RNGSHIM_HH
#include <cstdint>
#include <random>
#include <vector>
#include <deque>
namespace verif
{
struct RngState
{
    std::deque<double> queue;       // uniforms to hand out first
    bool constant = false;          // then: always this value ...
    double value = 0.5;
    uint64_t lcg = 88172645463325252ULL;    // ... or a pseudo-random one
    std::vector<double> log;        // uniforms handed out
    bool logging = false;
};
RngState& Rng();
uint64_t NextRaw();
}
namespace std
{
struct verif_engine
{
    typedef uint64_t result_type;
    verif_engine() {}
    template <class S> explicit verif_engine(S&&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~result_type(0); }
    template <class... A> void seed(A&&...) {}
    void discard(unsigned long long) {}
    result_type operator()() { return verif::NextRaw(); }
};
struct verif_device
{
    typedef unsigned int result_type;
    verif_device() {}
    template <class S> explicit verif_device(S&&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 4294967295u; }
    double entropy() const { return 0; }
    result_type operator()() { return 1; }
};
}
#define mt19937 verif_engine
#define mt19937_64 verif_engine
#define default_random_engine verif_engine
#define minstd_rand verif_engine
#define random_device verif_device
#endif
