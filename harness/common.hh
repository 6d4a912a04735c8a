// Shared by all harnesses: reads one command per line on stdin, writes one
// JSON observation per line on stdout. Doubles are logged as their two 32-bit
// halves, so TLC sees exactly what the code computed.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "ThreeVector.hh"

inline FILE*& Out() { static FILE* f = nullptr; return f; }

struct J
{
    std::string s;
    J() : s("{") {}
    explicit J(const std::string& op) : s("{") { str("op", op); }
    void key(const std::string& k) { if (s.size() > 1) s += ","; s += "\"" + k + "\":"; }
    static std::string num(double d)
    {
        if (d != d) return "[2146959360,0]";
        if (d == 0) d = 0;
        uint64_t b; std::memcpy(&b, &d, 8);
        char buf[64];
        std::snprintf(buf, sizeof buf, "[%d,%d]", (int)(int32_t)(b >> 32), (int)(int32_t)(uint32_t)b);
        return buf;
    }
    static std::string vec(const ThreeVector& v)
    { return "[" + num(v[0]) + "," + num(v[1]) + "," + num(v[2]) + "]"; }
    J& str(const std::string& k, const std::string& v)
    {
        key(k); s += '"';
        for (char c : v)
        {
            unsigned char u = (unsigned char)c;
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (u < 32 || u > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", u); s += b; }
            else s += c;
        }
        s += '"'; return *this;
    }
    J& r(const std::string& k, double d) { key(k); s += num(d); return *this; }
    J& v(const std::string& k, const ThreeVector& a) { key(k); s += vec(a); return *this; }
    J& i(const std::string& k, long long n)
    {
        key(k);
        if (n > 2147483647LL) n = 2147483647LL;
        if (n < -2147483647LL) n = -2147483647LL;
        s += std::to_string(n); return *this;
    }
    J& b(const std::string& k, bool x) { key(k); s += x ? "true" : "false"; return *this; }
    J& raw(const std::string& k, const std::string& x) { key(k); s += x; return *this; }
    template <class C> J& rs(const std::string& k, const C& c)
    {
        key(k); s += "["; bool first = true;
        for (double d : c) { if (!first) s += ","; first = false; s += num(d); }
        s += "]"; return *this;
    }
    template <class C> J& vs(const std::string& k, const C& c)
    {
        key(k); s += "["; bool first = true;
        for (const ThreeVector& d : c) { if (!first) s += ","; first = false; s += vec(d); }
        s += "]"; return *this;
    }
    void emit() { std::fprintf(Out(), "%s}\n", s.c_str()); std::fflush(Out()); }
};

struct Args
{
    std::istringstream in;
    explicit Args(const std::string& l) : in(l) {}
    std::string s() { std::string t; if (!(in >> t)) { std::fprintf(stderr, "harness: missing argument\n"); std::_Exit(90); } return t; }
    double d() { return std::strtod(s().c_str(), nullptr); }
    long long i() { return std::strtoll(s().c_str(), nullptr, 10); }
    ThreeVector v() { double x = d(), y = d(), z = d(); return ThreeVector(x, y, z); }
    std::vector<double> ds(size_t n) { std::vector<double> r(n); for (auto& x : r) x = d(); return r; }
    bool more() { in >> std::ws; return !in.eof(); }
    std::string rest() { in >> std::ws; std::string t; std::getline(in, t); return t; }
};

typedef std::map<std::string, std::function<void(Args&)>> Ops;

// Observations go to the real stdout; what the code under test prints to
// std::cout is moved to stderr so that it cannot be taken for one.
inline int Serve(const Ops& ops)
{
    int fd = dup(1);
    Out() = fdopen(fd, "w");
    dup2(2, 1);
    std::string line;
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        Args a(line);
        std::string op = a.s();
        auto it = ops.find(op);
        if (it == ops.end()) { std::fprintf(stderr, "harness: unknown op %s\n", op.c_str()); return 91; }
        it->second(a);
    }
    std::fflush(Out());
    return 0;
}
#endif
