import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluation of the operators of spec/Real64.tla: IEEE doubles carried as
 *  <<high 32 bits, low 32 bits>> so that no digit is lost between C++ and TLC. */
public class Real64 implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { Real64.class }; }

    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    private static Value r(double x) {
        if (x == 0.0) x = 0.0;
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static final String M = "Real64";

    @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
    public static Value RNeg(Value a) { return r(-d(a)); }
    @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
    public static Value RExp(Value a) { return r(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "RLn", module = M, warn = false)
    public static Value RLn(Value a) { return r(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "RLog10", module = M, warn = false)
    public static Value RLog10(Value a) { return r(Math.log10(d(a))); }
    @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
    public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RSin", module = M, warn = false)
    public static Value RSin(Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "RCos", module = M, warn = false)
    public static Value RCos(Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "RAtan", module = M, warn = false)
    public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
    @TLAPlusOperator(identifier = "RFloor", module = M, warn = false)
    public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    @TLAPlusOperator(identifier = "REq", module = M, warn = false)
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    @TLAPlusOperator(identifier = "RFinite", module = M, warn = false)
    public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "RSame", module = M, warn = false)
    public static Value RSame(Value a, Value c) { return b(Double.compare(d(a) + 0.0, d(c) + 0.0) == 0); }
    @TLAPlusOperator(identifier = "RDec", module = M, warn = false)
    public static Value RDec(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
    @TLAPlusOperator(identifier = "RStr", module = M, warn = false)
    public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
    @TLAPlusOperator(identifier = "RClose", module = M, warn = false)
    public static Value RClose(Value a, Value c, Value rel, Value abs) {
        double x = d(a), y = d(c);
        if (Double.isNaN(x) || Double.isNaN(y)) return BoolValue.ValFalse;
        if (x == y) return BoolValue.ValTrue;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        return b(Math.abs(x - y) <= d(abs) + d(rel) * Math.max(Math.abs(x), Math.abs(y)));
    }
    @TLAPlusOperator(identifier = "RSum", module = M, warn = false)
    public static Value RSum(Value s) {
        double t = 0;
        for (Value v : ((TupleValue) s.toTuple()).elems) t += d(v);
        return r(t);
    }
    @TLAPlusOperator(identifier = "RDot", module = M, warn = false)
    public static Value RDot(Value s, Value u) {
        Value[] a = ((TupleValue) s.toTuple()).elems, c = ((TupleValue) u.toTuple()).elems;
        double t = 0;
        for (int i = 0; i < a.length; i++) t += d(a[i]) * d(c[i]);
        return r(t);
    }
    /** integral of exp(-x cosh t) cosh(nu t) / cosh(t)^m over t from 0 (trapezoids, which converge exponentially here) */
    private static double cosh(double x, double nu, int m) {
        if (!(x > 0)) return Double.POSITIVE_INFINITY;
        double top = 1 + 745 / x, T = Math.log(top + Math.sqrt(top * top - 1));
        int n = Math.max(60, (int) (T / 0.05));
        double s = 0.5 * Math.exp(-x);
        for (int i = 1; i <= n; i++) {
            double t = T * i / n, c = Math.cosh(t);
            s += Math.exp(-x * c) * Math.cosh(nu * t) / (m == 0 ? 1 : c);
        }
        return s * T / n;
    }
    @TLAPlusOperator(identifier = "RBesselK", module = M, warn = false)
    public static Value RBesselK(Value nu, Value x) { return r(cosh(d(x), d(nu), 0)); }
    @TLAPlusOperator(identifier = "RBesselKTail", module = M, warn = false)
    public static Value RBesselKTail(Value nu, Value x) { return r(cosh(d(x), d(nu), 1)); }
}
