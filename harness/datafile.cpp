// Sessions with the HDF5 output class itself: files opened as new or to append
// to, groups and arrays added, files closed, and spoilt or removed in between.
#include "common.hh"
#include "HDF5Output.hh"
#include <fstream>
#include <memory>
#include <sys/wait.h>

static double Number(unsigned long long& s)
{
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    unsigned k = (s >> 33) % 12;
    double u = (double)(s >> 11) / 9007199254740992.0 - 0.5;
    return k == 0 ? u * 1e300 : k == 1 ? u * 1e-310 : k == 2 ? (double)(long)(u * 1e6) : k == 3 ? INFINITY * (u < 0 ? -1 : 1) : u;
}

template <class F> static bool Try(F f) { try { f(); return true; } catch (const H5::Exception&) { return false; } }

int main()
{
    H5::Exception::dontPrint();
    Ops ops;
    // session PATH PREFIX { new|append|garbage N|gone { group P | sub P | array P rank d.. seed } close }
    ops["session"] = [](Args& a) {
        std::string path = a.s(), line = a.rest();
        int fd[2]; if (pipe(fd)) std::_Exit(90);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]); alarm(60);
            Args b(line);
            std::string out = "[";
            int k = 0;
            while (b.more())
            {
                J o; std::string mode = b.s(), calls = "[";
                o.str("mode", mode);
                bool ok = true;
                if (mode == "garbage")
                {
                    long n = b.i(); unsigned long long s = n + 1;
                    std::ofstream g(path); for (long i = 0; i < n; i++) { Number(s); g.put((char)(s >> 40)); }
                } else if (mode == "gone") unlink(path.c_str());
                std::unique_ptr<HDF5Output> h;
                if (mode == "new") ok = Try([&] { if (path.size() % 2) h.reset(new HDF5Output(path)); else h.reset(new HDF5Output(path, false)); });
                if (mode == "append") ok = Try([&] { h.reset(new HDF5Output(path, true)); });
                for (std::string w = b.s(); w != "close"; w = b.s())
                {
                    std::string p = b.s();
                    std::vector<double> data; std::vector<long> d;
                    if (w == "array")
                    {
                        long rank = b.i(), n = 1; for (long i = 0; i < rank; i++) { d.push_back(b.i()); n *= d.back(); }
                        unsigned long long s = b.i();
                        for (long i = 0; i < n; i++) data.push_back(Number(s));
                    }
                    if (!h) continue;
                    std::vector<double> copy(data);
                    bool done = Try([&] {
                        if (w == "group") h->AddGroup(p);
                        else if (w == "sub") h->AddSubGroup(p);
                        else if (d.size() == 1) h->AddArray1D(copy.data(), d[0], p);
                        else if (d.size() == 2) h->AddArray2D(copy.data(), d[0], d[1], p);
                        else h->AddArray3D(copy.data(), d[0], d[1], d[2], p); });
                    // the caller's numbers may change after the call
                    for (auto& x : copy) x = -x;
                    J c; c.str("o", w).str("path", p).b("ok", done).rs("data", data);
                    std::string ds = "["; for (long x : d) ds += (ds.size() > 1 ? "," : "") + std::to_string(x);
                    c.raw("dims", ds + "]");
                    calls += (calls.size() > 1 ? "," : "") + c.s + "}";
                }
                h.reset();
                std::ifstream from(path, std::ios::binary);
                if (from) { std::ofstream to(path + "." + std::to_string(k), std::ios::binary); if (from.peek() != EOF) to << from.rdbuf(); }
                k++;
                o.b("ok", ok).raw("calls", calls + "]");
                out += (out.size() > 1 ? "," : "") + o.s + "}";
            }
            out += "]";
            for (size_t i = 0; i < out.size();) { ssize_t n = write(fd[1], out.data() + i, out.size() - i); if (n <= 0) _exit(91); i += n; }
            _exit(0);
        }
        close(fd[1]);
        std::string got; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        int status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        J o("session"); o.str("path", path).raw("opens", status ? "[]" : got).i("status", status).emit();
    };
    return Serve(ops);
}
