// Sessions with an OutputManager: the calls are read first, described, and made
// in a child process, so that one that ends the process is an observation.
#include "physics.hh"
#include "OutputManager.hh"
#include <sys/resource.h>
#include <sys/wait.h>

// part [tracked rows: n, then time step, position, momentum]
static Particle* ReadTracked(Args& a)
{
    Particle* p = ReadPart(a);
    for (long n = a.i(); n > 0; n--)
    {
        double dt = a.d(); ThreeVector x = a.v(), m = a.v();
        p->UpdateTime(dt); p->UpdateTrack(x, m);
    }
    return p;
}
static std::string Describe(Particle* p)
{
    J o;
    o.str("who", p->GetName()).r("e", p->GetEnergy()).v("p", p->GetMomentum()).v("x", p->GetPosition()).b("alive", p->IsAlive())
        .b("trk", p->GetTracking()).raw("h", Hist(p));
    return o.s + "}";
}

extern "C" unsigned long long verif_heap_left() __attribute__((weak));

int main()
{
    Ops ops;
    ops["session"] = [](Args& a) {
        std::string file = a.s(), units = a.s();
        J o("session");
        o.str("units", units);
        UnitsSystem* u = units == "none" ? nullptr : new UnitsSystem(units);
        o.r("length", u ? u->RefLength() : 1).r("momentum", u ? u->RefMomentum() : 1).r("time", u ? u->RefTime() : 1);
        std::vector<ParticleList*> lists;
        std::vector<std::function<void(OutputManager&)>> calls;
        std::string ls = "[", os = "[";
        for (std::string w = a.s(); w != "end"; w = a.s())
        {
            J c; c.str("o", w);
            if (w == "deflist")
            {
                std::string name = a.s(); long n = a.i();
                ParticleList* l = new ParticleList(name, n + 3);
                J d; d.str("name", name);
                std::string ps = "[";
                for (long i = 0; i < n; i++)
                {
                    Particle* p = ReadTracked(a);
                    l->AddParticle(p);
                    ps += (i ? "," : "") + Describe(p);
                }
                d.raw("parts", ps + "]");
                ls += (lists.empty() ? "" : ",") + d.s + "}";
                lists.push_back(l);
                continue;
            }
            if (w == "begin") { long n = a.i(); c.i("k", n); calls.push_back([=](OutputManager& m) { m.InitSource(n); }); }
            else if (w == "prim" || w == "final")
            {
                long k = a.i(), l = a.i(); bool pr = w == "prim"; c.i("k", k).i("l", l + 1);
                calls.push_back([=](OutputManager& m) { m.StoreSource(lists[l], k, pr); });
            } else if (w == "track") { long k = a.i(), l = a.i(); c.i("k", k).i("l", l + 1); calls.push_back([=](OutputManager& m) { m.StoreTrack(lists[l], k); }); }
            else if (w == "flush") { bool s = a.i(), t = a.i(); c.b("s", s).b("t", t); calls.push_back([=](OutputManager& m) { m.OutputEvents(s, t); }); }
            else if (w == "single")
            {
                std::string n = a.s(); long l = a.i(), i = a.i(); c.str("name", n).i("l", l + 1).i("i", i + 1);
                calls.push_back([=](OutputManager& m) { m.SingleParticle(lists[l]->GetParticle(i), n); });
            } else if (w == "list") { std::string n = a.s(); long l = a.i(); c.str("name", n).i("l", l + 1); calls.push_back([=](OutputManager& m) { m.ListTracks(lists[l], n); }); }
            else if (w == "props") { std::string n = a.s(); long l = a.i(); c.str("name", n).i("l", l + 1); calls.push_back([=](OutputManager& m) { m.ListProperties(lists[l], n); }); }
            else if (w == "field")
            {
                EMField* f = ReadField(a, c);
                std::vector<double> ax[4];
                const char* nm[] = {"ts", "xs", "ys", "zs"};
                for (int i = 0; i < 4; i++) { ax[i] = a.ds(a.i()); c.rs(nm[i], ax[i]); }
                calls.push_back([=](OutputManager& m) { m.OutEMField(f, ax[0], ax[1], ax[2], ax[3]); });
            } else if (w == "hist")
            {
                std::string n = a.s(), who = a.s(), type = a.s(); double time = a.d(), lo = a.d(), hi = a.d(); long bins = a.i();
                c.str("name", n).str("what", type).r("lo", lo).r("hi", hi).i("bins", bins);
                std::vector<std::function<void(Histogram&)>> hs;
                std::string acts = "[";
                for (std::string h = a.s(); h != "out"; h = a.s())
                {
                    J d; d.str("o", h);
                    if (h == "app") { long l = a.i(), i = a.i(); d.i("l", l + 1).i("i", i + 1); hs.push_back([=](Histogram& x) { x.AppParticle(lists[l]->GetParticle(i)); }); }
                    else if (h == "fill") { long l = a.i(); d.i("l", l + 1); hs.push_back([=](Histogram& x) { x.Fill(lists[l]); }); }
                    else if (h == "merge")
                    {
                        double l2 = a.d(), h2 = a.d(); long b2 = a.i(), l = a.i();
                        d.r("lo", l2).r("hi", h2).i("bins", b2).i("l", l + 1);
                        hs.push_back([=](Histogram& x) {
                            Histogram* y = new Histogram("other", who, type, time, l2, h2, b2);
                            for (unsigned i = 0; i < lists[l]->GetNPart(); i++) y->AppParticle(lists[l]->GetParticle(i));
                            x.Merge(y); });
                    }
                    acts += (acts.size() > 1 ? "," : "") + d.s + "}";
                }
                c.raw("acts", acts + "]");
                calls.push_back([=](OutputManager& m) {
                    Histogram x(n, who, type, time, lo, hi, bins);
                    if (x.GetName() != n || x.GetParticle() != who || x.GetTime() != time || (long)x.GetNBins() != bins) _exit(77);
                    for (auto& h : hs) h(x);
                    m.OutputHist(&x); });
            }
            else { std::fprintf(stderr, "harness: unknown call %s\n", w.c_str()); std::_Exit(90); }
            os += (os.size() > 1 ? "," : "") + c.s + "}";
        }
        int ed[2]; if (pipe(ed)) std::_Exit(90);
        pid_t pid = fork();
        if (pid == 0)
        {
            // as on machines, and in threads, with small stacks: what is written is data, however much of it
            rlimit stack{1 << 20, 1 << 20}; setrlimit(RLIMIT_STACK, &stack);
            alarm(60); close(ed[0]); dup2(ed[1], 1); dup2(ed[1], 2);
            auto play = [&](std::string name) {
                OutputManager m = u ? OutputManager(name, u) : OutputManager(name);
                for (auto& f : calls) f(m);
            };
            play(file);
            // where storage is recorded, the session again leaves no more than once
            if (verif_heap_left)
            {
                auto before = verif_heap_left();
                play(file + ".again");
                if (verif_heap_left() != before) _exit(78);
            }
            _exit(0);
        }
        close(ed[1]);
        bool said = false; char b[512]; while (read(ed[0], b, sizeof b) > 0) said = true;
        close(ed[0]);
        int st; waitpid(pid, &st, 0);
        o.str("path", file).raw("lists", ls + "]").raw("calls", os + "]").b("said", said)
            .i("status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)).emit();
    };
    return Serve(ops);
}
