// TLC operator overrides for module Reals64: IEEE-754 doubles represented in
// TLA+ as pairs <<hi, lo>> of the two signed 32-bit halves of the bit pattern.
// Everything here is generic arithmetic; no weac-specific knowledge.
import java.util.concurrent.ConcurrentHashMap;

import tlc2.tool.impl.TLARegistry;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Reals64 {
    public static final long serialVersionUID = 20260101L;

    static {
        TLARegistry.put("RAdd", "\\oplus");
        TLARegistry.put("RSub", "\\ominus");
        TLARegistry.put("RMul", "\\otimes");
        TLARegistry.put("RDiv", "\\oslash");
    }

    private static final ConcurrentHashMap<String, Value> LITS = new ConcurrentHashMap<>();

    private static Value mk(double d) {
        long b = Double.doubleToLongBits(d);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }

    private static TupleValue tup(Value v) {
        if (v instanceof TupleValue) {
            return (TupleValue) v;
        }
        Value t = (Value) v.toTuple();
        if (t == null) {
            throw new RuntimeException("Reals64: not a tuple: " + v);
        }
        return (TupleValue) t;
    }

    private static double d(Value v) {
        Value[] e = tup(v).elems;
        if (e.length != 2) {
            throw new RuntimeException("Reals64: not a real: " + v);
        }
        long hi = ((IntValue) e[0]).val;
        long lo = ((IntValue) e[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }

    private static BoolValue bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // ---- literals and conversions
    public static Value R(Value s) {
        String k = ((StringValue) s).val.toString();
        return LITS.computeIfAbsent(k, x -> mk(Double.parseDouble(x)));
    }

    public static Value RInt(Value n) {
        return mk(((IntValue) n).val);
    }

    public static Value RCeil(Value a) {
        return IntValue.gen((int) Math.ceil(d(a)));
    }

    public static Value RFloor(Value a) {
        return IntValue.gen((int) Math.floor(d(a)));
    }

    public static Value RStr(Value a) {
        return new StringValue(Double.toString(d(a)));
    }

    // ---- scalar arithmetic
    public static Value RAdd(Value a, Value b) { return mk(d(a) + d(b)); }
    public static Value RSub(Value a, Value b) { return mk(d(a) - d(b)); }
    public static Value RMul(Value a, Value b) { return mk(d(a) * d(b)); }
    public static Value RDiv(Value a, Value b) { return mk(d(a) / d(b)); }
    public static Value RNeg(Value a) { return mk(-d(a)); }
    public static Value RAbs(Value a) { return mk(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { return mk(Math.sqrt(d(a))); }
    public static Value RPow(Value a, Value b) { return mk(Math.pow(d(a), d(b))); }
    public static Value RExp(Value a) { return mk(Math.exp(d(a))); }
    public static Value RSin(Value a) { return mk(Math.sin(d(a))); }
    public static Value RCos(Value a) { return mk(Math.cos(d(a))); }
    public static Value RTan(Value a) { return mk(Math.tan(d(a))); }
    public static Value RRad(Value a) { return mk(d(a) * Math.PI / 180.0); }
    public static Value RMax(Value a, Value b) { return mk(Math.max(d(a), d(b))); }
    public static Value RMin(Value a, Value b) { return mk(Math.min(d(a), d(b))); }

    // ---- predicates (all false on NaN)
    public static Value RLt(Value a, Value b) { return bool(d(a) < d(b)); }
    public static Value RLe(Value a, Value b) { return bool(d(a) <= d(b)); }
    public static Value REq(Value a, Value b) { return bool(d(a) == d(b)); }
    public static Value RIsNaN(Value a) { return bool(Double.isNaN(d(a))); }
    public static Value RIsFinite(Value a) {
        double x = d(a);
        return bool(!Double.isNaN(x) && !Double.isInfinite(x));
    }
    public static Value RNear(Value a, Value b, Value tol) {
        return bool(Math.abs(d(a) - d(b)) <= d(tol));
    }

    // ---- vectors (TLA+ sequences of reals)
    private static double[] vec(Value v) {
        Value[] e = tup(v).elems;
        double[] r = new double[e.length];
        for (int i = 0; i < e.length; i++) {
            r[i] = d(e[i]);
        }
        return r;
    }

    private static Value mkv(double[] r) {
        Value[] e = new Value[r.length];
        for (int i = 0; i < r.length; i++) {
            e[i] = mk(r[i]);
        }
        return new TupleValue(e);
    }

    public static Value RSum(Value v) {
        double s = 0;
        for (double x : vec(v)) { s += x; }
        return mk(s);
    }

    public static Value RDot(Value u, Value v) {
        double[] a = vec(u), b = vec(v);
        if (a.length != b.length) { throw new RuntimeException("RDot: length mismatch"); }
        double s = 0;
        for (int i = 0; i < a.length; i++) { s += a[i] * b[i]; }
        return mk(s);
    }

    public static Value RMaxAbs(Value v) {
        double s = 0;
        for (double x : vec(v)) {
            if (Double.isNaN(x)) { return mk(Double.NaN); }
            s = Math.max(s, Math.abs(x));
        }
        return mk(s);
    }

    public static Value RVAdd(Value u, Value v) {
        double[] a = vec(u), b = vec(v);
        if (a.length != b.length) { throw new RuntimeException("RVAdd: length mismatch"); }
        for (int i = 0; i < a.length; i++) { a[i] += b[i]; }
        return mkv(a);
    }

    public static Value RVSub(Value u, Value v) {
        double[] a = vec(u), b = vec(v);
        if (a.length != b.length) { throw new RuntimeException("RVSub: length mismatch"); }
        for (int i = 0; i < a.length; i++) { a[i] -= b[i]; }
        return mkv(a);
    }

    public static Value RVScale(Value s, Value v) {
        double c = d(s);
        double[] a = vec(v);
        for (int i = 0; i < a.length; i++) { a[i] *= c; }
        return mkv(a);
    }

    public static Value RVMul(Value u, Value v) {
        double[] a = vec(u), b = vec(v);
        if (a.length != b.length) { throw new RuntimeException("RVMul: length mismatch"); }
        for (int i = 0; i < a.length; i++) { a[i] *= b[i]; }
        return mkv(a);
    }

    public static Value RVAbs(Value v) {
        double[] a = vec(v);
        for (int i = 0; i < a.length; i++) { a[i] = Math.abs(a[i]); }
        return mkv(a);
    }

    // Same length and every pair within tol (absolute); false on NaN.
    public static Value RVNear(Value u, Value v, Value tol) {
        double[] a = vec(u), b = vec(v);
        double t = d(tol);
        if (a.length != b.length) { return BoolValue.ValFalse; }
        for (int i = 0; i < a.length; i++) {
            if (!(Math.abs(a[i] - b[i]) <= t)) { return BoolValue.ValFalse; }
        }
        return BoolValue.ValTrue;
    }

    public static Value RVFinite(Value v) {
        for (double x : vec(v)) {
            if (Double.isNaN(x) || Double.isInfinite(x)) { return BoolValue.ValFalse; }
        }
        return BoolValue.ValTrue;
    }
}
