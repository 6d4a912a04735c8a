#include "common.hh"
#include <sys/wait.h>
#include "Numerics.hh"

int main()
{
    Ops ops;
    ops["interp"] = [](Args& a) {
        size_t n = a.i(); auto x = a.ds(n), y = a.ds(n);
        std::vector<double> q, r;
        while (a.more()) { q.push_back(a.d()); r.push_back(Numerics::Interpolate1D(x.data(), y.data(), n, q.back())); }
        J("interp").rs("xs", x).rs("ys", y).rs("q", q).rs("r", r).emit();
    };
    ops["index"] = [](Args& a) {
        size_t n = a.i(); auto x = a.ds(n);
        std::vector<double> q; std::string r = "[";
        while (a.more()) { q.push_back(a.d()); r += (r.size() > 1 ? "," : "") + std::to_string(Numerics::ArrayIndex(x.data(), n, q.back())); }
        J("index").rs("xs", x).rs("q", q).raw("r", r + "]").emit();
    };
    ops["closest"] = [](Args& a) {
        size_t n = a.i(); auto x = a.ds(n); double q = a.d();
        int p[2]; if (pipe(p)) std::abort();
        pid_t c = fork();
        if (c == 0)
        {
            struct { int low; double frac; } r;
            Numerics::ClosestPoints(x.data(), n, q, r.low, r.frac);
            if (write(p[1], &r, sizeof r) != sizeof r) _exit(80);
            _exit(0);
        }
        close(p[1]);
        struct { int low; double frac; } r = {0, 0};
        bool ok = read(p[0], &r, sizeof r) == (ssize_t)sizeof r;
        close(p[0]);
        int st; waitpid(c, &st, 0);
        J("closest").rs("xs", x).r("q", q).b("ok", ok).i("low", r.low).r("frac", r.frac)
            .i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : 0).emit();
    };
    ops["simpson"] = [](Args& a) {
        size_t n = a.i(); auto x = a.ds(n), y = a.ds(n);
        J("simpson").rs("xs", x).rs("ys", y).r("r", Numerics::SimpsonsRule(x, y)).emit();
    };
    return Serve(ops);
}
