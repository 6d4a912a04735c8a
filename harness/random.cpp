#include "common.hh"
#include "MCTools.hh"
#include "Photon.hh"
#include <thread>

// one sampling call; values appended
static void Call(const std::string& k, Args& a, std::vector<double>& out)
{
    if (k == "uniform") { double l = a.d(), h = a.d(); out.push_back(MCTools::RandDouble(l, h)); }
    else if (k == "normal") { double m = a.d(), s = a.d(); out.push_back(MCTools::RandNorm(m, s)); }
    else if (k == "poisson") out.push_back(MCTools::RandPoisson(a.d()));
    else if (k == "discrete") { int n = a.i(); out.push_back(MCTools::RandDiscrete(a.ds(n))); }
    else if (k == "normals") { double m = a.d(), s = a.d(); int n = a.i(); for (double x : MCTools::SampleNorm(m, s, n)) out.push_back(x); }
    else if (k == "uniforms") { double l = a.d(), h = a.d(); int n = a.i(); for (double x : MCTools::SampleUniform(l, h, n)) out.push_back(x); }
    else if (k == "depth") { Photon p(1.0, ThreeVector(), ThreeVector(0, 0, 1)); out.push_back(p.GetOpticalDepth()); }
    else std::_Exit(90);
}
static std::string Ints(const std::vector<double>& v)
{
    std::string s = "[";
    for (double x : v) s += (s.size() > 1 ? "," : "") + std::to_string((long long)x);
    return s + "]";
}
int main()
{
    Ops ops;
#ifdef VERIF_SHIM
    // edge u... -- weights: the index for each scripted uniform
    ops["edge"] = [](Args& a) {
        int m = a.i(); std::vector<double> us = a.ds(m); int n = a.i(); std::vector<double> w = a.ds(n), got;
        for (double u : us) { verif::Rng().queue.clear(); verif::Rng().queue.push_back(u); got.push_back(MCTools::RandDiscrete(w)); }
        J("discrete").rs("w", w).raw("s", Ints(got)).emit();
    };
    // range low high u...
    ops["range"] = [](Args& a) {
        double l = a.d(), h = a.d(); std::vector<double> got;
        while (a.more()) { verif::Rng().queue.clear(); verif::Rng().queue.push_back(a.d()); got.push_back(MCTools::RandDouble(l, h)); }
        J("bounds").r("lo", l).r("hi", h).rs("s", got).emit();
    };
    ops["depths"] = [](Args& a) {
        std::vector<double> got;
        while (a.more()) { verif::Rng().queue.clear(); verif::Rng().queue.push_back(a.d()); Call("depth", a, got); }
        J("depthbounds").rs("s", got).emit();
    };
#else
    ops["sample"] = [](Args& a) {
        int seed = a.i(), n = a.i(); std::string rest = a.rest(), k; std::vector<double> out;
        MCTools::SetSeed(seed);
        for (int i = 0; i < n; i++) { Args b(rest); k = b.s(); Call(k, b, out); }
        Args b(rest); k = b.s();
        J o(k == "poisson" || k == "discrete" ? k : k == "depth" ? "depth" : k[0] == 'n' ? "normal" : "uniform");
        o.i("seed", seed);
        if (k == "discrete") { int m = b.i(); o.rs("w", b.ds(m)); }
        else if (k == "poisson") o.r("mean", b.d());
        else if (k != "depth") { double x = b.d(), y = b.d(); o.r("a", x).r("b", y); }
        if (k == "poisson" || k == "discrete") o.raw("s", Ints(out)); else o.rs("s", out);
        o.emit();
    };
    // history ; seed <n> ; <call> ; ...
    ops["history"] = [](Args& a) {
        std::istringstream in(a.rest()); std::string item, ev = "[";
        while (std::getline(in, item, ';'))
        {
            item.erase(0, item.find_first_not_of(' ')); item.erase(item.find_last_not_of(' ') + 1);
            Args b(item); std::string k = b.s();
            J o;
            if (k == "seed") { int s = b.i(); MCTools::SetSeed(s); o.str("k", "seed").i("s", s).str("call", "").rs("v", std::vector<double>()); }
            else { std::vector<double> v; Call(k, b, v); o.str("k", "call").i("s", 0).str("call", item).rs("v", v); }
            ev += (ev.size() > 1 ? "," : "") + o.s + "}";
        }
        J("history").raw("ev", ev + "]").emit();
    };
    // threads n k: n threads draw k values each without a seed
    ops["threads"] = [](Args& a) {
        int n = a.i(), k = a.i(); std::vector<std::vector<double>> r(n);
        std::vector<std::thread> t;
        for (int i = 0; i < n; i++) t.emplace_back([&r, i, k] { for (int j = 0; j < k; j++) r[i].push_back(MCTools::RandDouble(0, 1)); });
        for (auto& x : t) x.join();
        std::string s = "[";
        for (auto& x : r) s += (s.size() > 1 ? "," : "") + J().rs("v", x).s.substr(5);
        J("streams").raw("s", s + "]").emit();
    };
#endif
    return Serve(ops);
}
