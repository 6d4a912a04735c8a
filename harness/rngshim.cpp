#include "rngshim.hh"
#include <cmath>
#include <cstdlib>
#include <mutex>
namespace verif
{
static std::mutex lock;
RngState& Rng() { static RngState s; return s; }
uint64_t NextRaw()
{
    std::lock_guard<std::mutex> g(lock);
    RngState& s = Rng();
    static bool init = false;
    if (!init)
    {
        init = true;
        if (const char* c = std::getenv("VERIF_RNG_CONST")) { s.constant = true; s.value = std::strtod(c, nullptr); }
        if (const char* c = std::getenv("VERIF_RNG_SEED")) s.lcg ^= std::strtoull(c, nullptr, 10) * 0x9E3779B97F4A7C15ULL;
    }
    double u;
    if (!s.queue.empty()) { u = s.queue.front(); s.queue.pop_front(); }
    else if (s.constant) u = s.value;
    else
    {
        s.lcg ^= s.lcg << 13; s.lcg ^= s.lcg >> 7; s.lcg ^= s.lcg << 17;
        u = (double)((s.lcg * 0x2545F4914F6CDD1DULL) >> 11) / 9007199254740992.0;
    }
    if (s.logging) s.log.push_back(u);
    return (uint64_t)std::ldexp(u, 64);
}
}
// for callers from outside, such as the Python module's sessions
extern "C" void verif_rng(int constant, double value, unsigned long long seed)
{
    verif::NextRaw();
    verif::RngState& s = verif::Rng();
    s.constant = constant != 0; s.value = value; s.queue.clear();
    s.lcg = 88172645463325252ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
    if (!s.lcg) s.lcg = 1;
}
