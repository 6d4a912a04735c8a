// Builds fields, pushers, processes and particles from command tokens and
// writes them as JSON.
#ifndef VERIF_PHYSICS_HH
#define VERIF_PHYSICS_HH
#include "common.hh"
#include "EMField.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "ParticlePusher.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "ParticleList.hh"
#include "Photon.hh"
#include "PhotonEmission.hh"  // brings Lepton.hh, which has no include guard

// A field linear in time and along one direction, so that the places and times
// at which the code looks at it show in the result.
struct ProbeField : EMField
{
    ThreeVector e0, e1, e2, b0, b1, b2, g;
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    {
        double s = g.Dot(x);
        e = e0 + t * e1 + s * e2;
        b = b0 + t * b1 + s * b2;
    }
};

// Reads a field; appends its description to o under key "f"
inline EMField* ReadField(Args& a, J& o)
{
    std::string k = a.s();
    J f; f.str("kind", k);
    EMField* r = nullptr;
    if (k == "static")
    {
        ThreeVector e = a.v(), b = a.v();
        f.v("e", e).v("b", b);
        r = new StaticEMField(e, b);
    } else if (k == "plane")
    {
        double m = a.d(), l = a.d(), p = a.d(); ThreeVector d = a.v();
        f.r("max", m).r("lam", l).r("pol", p).v("dir", d);
        r = new PlaneEMField(m, l, p, d);
    } else if (k == "gaussian" || k == "focusing")
    {
        double m = a.d(), l = a.d(), t = a.d(), w = a.d(), p = a.d(); ThreeVector s = a.v(), c = a.v();
        f.r("max", m).r("lam", l).r("tau", t).r("waist", w).r("pol", p).v("start", s).v("focus", c);
        if (k == "gaussian") r = new GaussianEMField(m, l, t, w, p, s, c);
        else r = new FocusingField(m, l, t, w, p, s, c);
    } else if (k == "probe")
    {
        ProbeField* q = new ProbeField;
        q->e0 = a.v(); q->e1 = a.v(); q->e2 = a.v(); q->b0 = a.v(); q->b1 = a.v(); q->b2 = a.v(); q->g = a.v();
        f.v("e0", q->e0).v("e1", q->e1).v("e2", q->e2).v("b0", q->b0).v("b1", q->b1).v("b2", q->b2).v("g", q->g);
        r = q;
    } else { std::fprintf(stderr, "harness: unknown field %s\n", k.c_str()); std::_Exit(90); }
    o.raw("f", f.s + "}");
    return r;
}

inline ParticlePusher* MakePusher(const std::string& m, EMField* f, double dt)
{
    if (m == "lorentz") return new LorentzPusher(f, dt);
    if (m == "landau") return new LandauPusher(f, dt);
    if (m == "modified") return new ModifiedLandauPusher(f, dt);
    std::fprintf(stderr, "harness: unknown pusher %s\n", m.c_str()); std::_Exit(90);
}

inline std::string Part(Particle* p)
{
    J o;
    o.str("name", p->GetName()).str("type", p->GetType()).r("m", p->GetMass()).r("q", p->GetCharge())
        .r("w", p->GetWeight()).r("t", p->GetTime()).r("od", p->GetOpticalDepth()).b("alive", p->IsAlive())
        .v("x", p->GetPosition()).v("p", p->GetMomentum()).v("dir", p->GetDirection())
        .r("gamma", p->GetGamma()).r("beta", p->GetBeta()).r("en", p->GetEnergy()).b("trk", p->GetTracking());
    o.i("nx", p->GetPosHist().size()).i("np", p->GetMomHist().size())
        .i("nt", p->GetTimeHist().size()).i("ng", p->GetGammaHist().size());
    return o.s + "}";
}
inline std::string Hist(Particle* p)
{
    return (J().vs("x", p->GetPosHist()).vs("p", p->GetMomHist()).rs("t", p->GetTimeHist()).rs("g", p->GetGammaHist())).s + "}";
}

// photon|electron|positron|lepton(mass charge) position momentum weight time tracking alive
inline Particle* ReadPart(Args& a)
{
    std::string k = a.s();
    double m = 1, q = -1;
    if (k == "lepton") { m = a.d(); q = a.d(); }
    if (k == "positron") q = 1;
    ThreeVector x = a.v(), p = a.v(); double w = a.d(), t = a.d(); bool trk = a.i(), alive = a.i();
    Particle* r = k == "photon" ? (Particle*)new Photon(x, p, w, t, trk) : (Particle*)new Lepton(m, q, x, p, w, t, trk);
    if (!alive) r->Kill();
    return r;
}
#endif
