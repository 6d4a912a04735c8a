// Reads input files with the real parser, each in a child of its own.
#include "common.hh"
#include "FileParser.hh"
#include <sys/wait.h>
#include <fcntl.h>
#include <fstream>

static std::string Settings(FileParser& in)
{
    GeneralParameters g = in.GetGeneral();
    FieldParameters f = in.GetField();
    PhysicsParameters p = in.GetPhysics();
    J o;
    J jg; jg.str("units", g.units).r("dt", g.timeStep).r("end", g.timeEnd).str("file", g.fileName).b("track", g.tracking);
    o.raw("general", jg.s + "}");
    J jf; jf.str("kind", f.Type);
    if (f.Type == "static") jf.v("e", f.E).v("b", f.B);
    else if (f.Type == "plane") jf.r("max", f.MaxE).r("lam", f.Wavelength).r("pol", f.Polerisation).v("dir", f.Direction);
    else if (f.Type != "") jf.r("max", f.MaxE).r("lam", f.Wavelength).r("pol", f.Polerisation).r("tau", f.Duration).r("waist", f.Waist)
        .v("start", f.Start).v("focus", f.Focus);
    o.raw("field", jf.s + "}");
    J jp; jp.str("model", p.Physics).r("emin", p.MinEnergy).r("frac", p.SampleFraction).b("pair", p.PairProduction);
    o.raw("physics", jp.s + "}");
    std::string s = "[";
    for (const ParticleParameters& q : in.GetParticle())
    {
        J j; j.i("num", (int)q.Number).str("name", q.Name).str("who", q.Type).str("distro", q.Distro).v("x", q.Position).v("dir", q.Direction)
            .r("e", q.Energy1).r("esig", q.Energy2).r("radius", q.Radius).r("div", q.Divergence).r("tau", q.Duration).b("out", q.Output);
        s += (s.size() > 1 ? "," : "") + j.s + "}";
    }
    o.raw("src", s + "]");
    s = "[";
    for (const HistogramParameters& h : in.GetHistograms())
    {
        J j; j.str("name", h.Name).str("who", h.Particle).str("what", h.Type).r("time", h.Time).i("bins", (int)h.Bins).r("lo", h.MinBin).r("hi", h.MaxBin);
        s += (s.size() > 1 ? "," : "") + j.s + "}";
    }
    o.raw("hist", s + "]");
    return o.s + "}";
}

// the lines of a file, none if there is no such file
static std::string Lines(std::string file)
{
    std::ifstream f(file); std::string line, ls = "[";
    while (std::getline(f, line)) { J j; j.s = ""; j.str("l", line); ls += (ls.size() > 1 ? "," : "") + j.s.substr(4); }
    return ls + "]";
}

static void Drain(int fd, std::string& to)
{
    char b[65536]; ssize_t m;
    while ((m = read(fd, b, sizeof b)) > 0) to.append(b, m);
    close(fd);
}

int main()
{
    Ops ops;
    // parse FILE DIR: the lines of the file and the settings read from it, by a child working in DIR
    ops["parse"] = [](Args& a) {
        std::string file = a.s(), dir = a.s();
        char errs[] = "/tmp/verif-input-XXXXXX";
        int ef = mkstemp(errs); unlink(errs);
        int fd[2]; if (pipe(fd)) std::_Exit(90);
        pid_t c = fork();
        if (c == 0)
        {
            alarm(20); dup2(ef, 1); dup2(ef, 2);
            if (chdir(dir.c_str())) _exit(90);
            FileParser* in = new FileParser(file, true);
            std::string s = Settings(*in);
            delete in;
            size_t k = 0;
            while (k < s.size()) { ssize_t m = write(fd[1], s.data() + k, s.size() - k); if (m <= 0) _exit(90); k += m; }
            _exit(0);
        }
        close(fd[1]);
        std::string got; Drain(fd[0], got);
        int st; waitpid(c, &st, 0);
        off_t said = lseek(ef, 0, SEEK_END); close(ef);
        J o("parse");
        o.raw("lines", Lines(file)).i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).b("said", said > 0)
            .b("read", !got.empty());
        o.raw("got", got.empty() ? "{}" : got);
        o.emit();
    };
    // report FILE DIR: the report that reading the file leaves in DIR
    ops["report"] = [](Args& a) {
        std::string file = a.s(), dir = a.s();
        pid_t c = fork();
        if (c == 0)
        {
            alarm(20);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
            if (chdir(dir.c_str())) _exit(90);
            { FileParser* in = new FileParser(file, true); delete in; }
            _exit(0);
        }
        int st; waitpid(c, &st, 0);
        J o("report");
        o.raw("lines", Lines(file)).raw("report", Lines(dir + "/input-check.txt")).i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        o.emit();
    };
    return Serve(ops);
}
