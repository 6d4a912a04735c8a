#include "common.hh"

static std::string mat(const ThreeMatrix& m)
{
    std::string s = "[";
    for (int i = 0; i < 3; i++) s += (i ? "," : "") + J::vec(ThreeVector(m[i][0], m[i][1], m[i][2]));
    return s + "]";
}
static ThreeMatrix rdmat(Args& a)
{
    ThreeMatrix m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = a.d();
    return m;
}

int main()
{
    Ops ops;
    ops["vec"] = [](Args& g) {
        ThreeVector a = g.v(), b = g.v(); double s = g.d();
        const ThreeVector a0 = a, b0 = b;
        J o("vec"); o.v("a", a).v("b", b).r("s", s);
        o.v("add", a + b).v("sub", a - b).v("mul", a * b).v("div", a / b);
        o.v("sadd", s + a).v("adds", a + s).v("ssub", s - a).v("subs", a - s);
        o.v("smul", s * a).v("muls", a * s).v("sdiv", s / a).v("divs", a / s);
        o.r("dot", a.Dot(b)).v("cross", a.Cross(b)).r("mag", a.Mag()).r("mag2", a.Mag2());
        o.v("norm", a.Norm()).v("dir", a.Direction(b));
        o.v("a1", a).v("b1", b);
        ThreeVector c; o.v("zero", c);
        c = a; c = *&c; o.v("asg", c);
        c[0] = b[0]; c[2] = b[2]; o.v("mix", c).v("a2", a);
        ThreeVector d(a); d[1] = s; o.v("cpy", d).v("a3", a);
        o.emit();
    };
    ops["mat"] = [](Args& g) {
        ThreeMatrix m = rdmat(g), n = rdmat(g); double s = g.d(); ThreeVector v = g.v();
        J o("mat"); o.raw("m", mat(m)).raw("k", mat(n)).r("s", s).v("v", v);
        o.raw("add", mat(m + n)).raw("mul", mat(m * n)).raw("scale", mat(m * s)).v("mv", m * v);
        o.r("det", m.Determinant()).raw("inv", mat(m.Inverse()));
        o.raw("m1", mat(m)).raw("n1", mat(n));
        ThreeMatrix c(m); c[1][2] = s; o.raw("cpy", mat(c)).raw("m2", mat(m));
        c = n; o.raw("asg", mat(c));
        c.Ideneity(); o.raw("id", mat(c)); c = n; c.Zeros(); o.raw("zero", mat(c));
        ThreeMatrix f; o.raw("fresh", mat(f));
        o.emit();
    };
    ops["rot"] = [](Args& g) {
        ThreeVector a = g.v(), b = g.v(), v = g.v();
        ThreeMatrix r = a.RotateToAxis(b);
        J("rot").v("a", a).v("b", b).v("v", v).raw("r", mat(r)).v("rv", r * v)
            .raw("inv", mat(r.Inverse())).v("a1", a).v("b1", b).emit();
    };
    return Serve(ops);
}
