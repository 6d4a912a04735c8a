#include "physics.hh"
#include "StochasticEmission.hh"
#include "ContinuousEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "SourceGenerator.hh"
#include "MCTools.hh"
#include "UnitsSystem.hh"
#include <sys/wait.h>

int main()
{
    Ops ops;
    // field <field> (t x y z)*
    ops["field"] = [](Args& a) {
        J o("field");
        EMField* f = ReadField(a, o);
        std::string pts = "[";
        while (a.more())
        {
            double t = a.d(); ThreeVector x = a.v(), e(7, 8, 9), b(9, 8, 7);
            f->GetField(t, x, e, b);
            J p; p.r("t", t).v("x", x).v("e", e).v("b", b);
            pts += (pts.size() > 1 ? "," : "") + p.s + "}";
        }
        o.raw("pts", pts + "]").emit();
        delete f;
    };
    // push <model> dt steps <field> <particle>
    ops["push"] = [](Args& a) {
        J o("push");
        std::string m = a.s(); double dt = a.d(); int n = a.i();
        EMField* f = ReadField(a, o);
        Particle* p = ReadPart(a);
        ParticlePusher* q = MakePusher(m, f, dt);
        o.str("model", m).r("dt", dt);
        std::string st = "[" + Part(p);
        for (int i = 0; i < n; i++) { q->PushParticle(p); st += "," + Part(p); }
        o.raw("st", st + "]").raw("h", Hist(p)).emit();
        delete q; delete p; delete f;
    };
    // pushlist <model> dt <field> count particles...
    ops["pushlist"] = [](Args& a) {
        J o("pushlist");
        std::string m = a.s(); double dt = a.d();
        EMField* f = ReadField(a, o);
        int n = a.i();
        ParticleList* l = new ParticleList("l", 64);
        std::string b = "[", c = "[";
        for (int i = 0; i < n; i++) { Particle* p = ReadPart(a); b += (i ? "," : "") + Part(p); l->AddParticle(p); }
        ParticlePusher* q = MakePusher(m, f, dt);
        q->PushParticleList(l);
        for (int i = 0; i < n; i++) c += (i ? "," : "") + Part(l->GetParticle(i));
        o.str("model", m).r("dt", dt).raw("pre", b + "]").raw("post", c + "]").emit();
        delete q; delete l; delete f;
    };
    // proc stoch|cont|classic|pair dt frac emin track od <field> <particle> u...
    // runs one interaction with the scripted draws u
    ops["proc"] = [](Args& a) {
        J o("proc");
        std::string k = a.s(); double dt = a.d(), fr = a.d(), em = a.d(); bool tr = a.i(); double od = a.d();
        EMField* f = ReadField(a, o);
        verif::Rng().logging = false; verif::Rng().queue.clear();
        Particle* p = ReadPart(a);
        p->UpdateOpticalDepth(p->GetOpticalDepth() - od);
        Process* q = nullptr;
        if (k == "stoch") q = new StochasticEmission(f, dt, fr, em, tr);
        else if (k == "cont") q = new ContinuousEmission(f, dt, false, fr, em, tr);
        else if (k == "classic") q = new ContinuousEmission(f, dt, true, fr, em, tr);
        else if (k == "pair") q = new NonLinearBreitWheeler(f, dt, tr);
        else std::_Exit(90);
        ParticleList* l = new ParticleList("l", 64);
        l->AddParticle(p);
        o.str("proc", k).r("dt", dt).r("frac", fr).r("emin", em).b("track", tr).raw("pre", Part(p));
        while (a.more()) verif::Rng().queue.push_back(a.d());
        verif::Rng().log.clear(); verif::Rng().logging = true;
        q->Interact(p, l);
        verif::Rng().logging = false;
        o.raw("post", Part(p)).rs("u", verif::Rng().log);
        std::string nw = "[";
        for (unsigned i = 1; i < l->GetNPart(); i++) nw += (i > 1 ? "," : "") + Part(l->GetParticle(i));
        o.raw("new", nw + "]").emit();
        delete l; delete q; delete f;
    };
    // source type distro n e1 e2 dpos dtau ddir pos dir track [extra calls]
    ops["source"] = [](Args& a) {
        J o("source");
        std::string ty = a.s(), di = a.s(); int n = a.i();
        double e1 = a.d(), e2 = a.d(), dp = a.d(), dt = a.d(), dd = a.d();
        ThreeVector pos = a.v(), dir = a.v(); bool tr = a.i(); int take = a.i();
        verif::Rng().queue.clear(); verif::Rng().constant = false;
        o.str("type", ty).str("distro", di).i("num", n).r("e1", e1).r("e2", e2).r("dpos", dp).r("dtau", dt)
            .r("ddir", dd).v("pos", pos).v("dir", dir).b("track", tr).i("take", take);
        SourceGenerator g(ty, di, n, e1, e2, dp, dt, dd, pos, dir, tr);
        o.i("count", g.GetSourceNumber());
        std::vector<ThreeVector> xs, ps; std::vector<double> en, w, tm, q, m; std::string who = "[", alive = "[", hist = "[";
        bool one = true;
        for (int i = 0; i < take && i < n; i++)
        {
            ParticleList* l = g.GenerateList();
            one = one && l->GetNPart() == 1;
            for (unsigned j = 0; j < l->GetNPart(); j++)
            {
                Particle* p = l->GetParticle(j);
                xs.push_back(p->GetPosition()); ps.push_back(p->GetMomentum()); en.push_back(p->GetEnergy());
                w.push_back(p->GetWeight()); tm.push_back(p->GetTime()); q.push_back(p->GetCharge()); m.push_back(p->GetMass());
                who += (who.size() > 1 ? ",\"" : "\"") + p->GetName() + "\"";
                alive += std::string(alive.size() > 1 ? "," : "") + (p->IsAlive() && p->GetTracking() == tr ? "true" : "false");
                hist += (hist.size() > 1 ? "," : "") + std::to_string(p->GetPosHist().size());
            }
            g.FreeSources(l);
        }
        o.b("single", one).vs("x", xs).vs("p", ps).rs("en", en).rs("w", w).rs("t", tm).rs("q", q).rs("m", m)
            .raw("who", who + "]").raw("alive", alive + "]").raw("hist", hist + "]");
        o.emit();
    };
    // deplete type n take: in a child, how asking for more than n ends
    ops["deplete"] = [](Args& a) {
        std::string ty = a.s(); int n = a.i(), take = a.i();
        int fd[2]; if (pipe(fd)) std::_Exit(90);
        pid_t c = fork();
        if (c == 0)
        {
            alarm(20);
            SourceGenerator g(ty, "mono", n, 10, 0, 0, 0, 0, ThreeVector(), ThreeVector(0, 0, 1));
            for (int i = 0; i < take; i++) { ParticleList* l = g.GenerateList(); char k = (char)l->GetNPart(); if (write(fd[1], &k, 1) != 1) _exit(80); g.FreeSources(l); }
            _exit(0);
        }
        close(fd[1]);
        int got = 0; bool one = true; char k;
        while (read(fd[0], &k, 1) == 1) { got++; one = one && k == 1; }
        close(fd[0]);
        int st; waitpid(c, &st, 0);
        J("deplete").str("type", ty).i("num", n).i("take", take).i("got", got).b("single", one)
            .i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).emit();
    };
    // lepton energy constructor and photon energy constructor
    ops["make"] = [](Args& a) {
        std::string k = a.s(); double q = a.d(), en = a.d(); ThreeVector x = a.v(), d = a.v(); double w = a.d(), t = a.d(); bool tr = a.i(); double u = a.d();
        verif::Rng().queue.clear(); verif::Rng().queue.push_back(u);
        Particle* p = k == "photon" ? (Particle*)new Photon(en, x, d, w, t, tr) : (Particle*)new Lepton(1.0, q, en, x, d, w, t, tr);
        J("make").str("kind", k).r("q", q).r("e", en).v("x", x).v("d", d).r("w", w).r("t", t).b("track", tr).r("u", u).raw("p", Part(p)).emit();
        delete p;
    };
    // how a process that needs its tables starts without one of them
    ops["notable"] = [](Args& a) {
        std::string k = a.s(), path = a.s();
        int fd[2]; if (pipe(fd)) std::_Exit(90);
        pid_t c = fork();
        if (c == 0)
        {
            alarm(20); dup2(fd[1], 2); dup2(fd[1], 1);
            setenv("QED_TABLES_PATH", path.c_str(), 1);
            StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
            if (k == "stoch") new StochasticEmission(&f, 1); else if (k == "cont") new ContinuousEmission(&f, 1); else new NonLinearBreitWheeler(&f, 1);
            _exit(0);
        }
        close(fd[1]);
        std::string msg; char b[512]; ssize_t m;
        while ((m = read(fd[0], b, sizeof b)) > 0) msg.append(b, m);
        close(fd[0]);
        int st; waitpid(c, &st, 0);
        J("notable").str("proc", k).str("msg", msg).i("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1).i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).emit();
    };
    return Serve(ops);
}
