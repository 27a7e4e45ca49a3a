import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for Dec.tla: decimal reals as strings, 50 significant
 * digits.  "inf", "-inf" and "nan" are legal values, any other text counts as nan: comparisons involving nan
 * are false and arithmetic on non-finite values gives "nan", so that a trace
 * verdict over such values is always defined.
 */
public class Dec {
    public static final long serialVersionUID = 1L;
    static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
    static final MathContext W = new MathContext(70, RoundingMode.HALF_EVEN);
    static final BigDecimal ONE = BigDecimal.ONE, TWO = new BigDecimal(2), HALF = new BigDecimal("0.5");
    static final BigDecimal PI = pi(new MathContext(120)), LN2 = ln2(new MathContext(90));

    static final StringValue NAN = new StringValue("nan"), INF = new StringValue("inf"), NINF = new StringValue("-inf");

    static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        return "nan";
    }
    /** null if not finite */
    static BigDecimal num(Value v) {
        String s = str(v);
        try { return new BigDecimal(s); } catch (NumberFormatException e) { return null; }
    }
    static Value out(BigDecimal d) {
        if (d == null) return NAN;
        d = d.round(MC);
        if (d.signum() == 0) return new StringValue("0");
        return new StringValue(d.stripTrailingZeros().toString());
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /** -2 for nan, else sign of a-b as -1,0,1 */
    static int cmp(Value a, Value b) {
        String x = str(a), y = str(b);
        if (x.equals("nan") || y.equals("nan")) return -2;
        if (x.equals(y)) return num(a) == null && !x.endsWith("inf") ? -2 : 0;
        BigDecimal p = num(a), q = num(b);
        if (x.equals("inf") || y.equals("-inf")) return q == null && !y.equals("inf") && !y.equals("-inf") ? -2 : 1;
        if (x.equals("-inf") || y.equals("inf")) return p == null && !x.equals("inf") && !x.equals("-inf") ? -2 : -1;
        return p == null || q == null ? -2 : Integer.signum(p.compareTo(q));
    }
    public static Value DLt(Value a, Value b) { return bool(cmp(a, b) == -1); }
    public static Value DLe(Value a, Value b) { int c = cmp(a, b); return bool(c == -1 || c == 0); }
    public static Value DEq(Value a, Value b) { return bool(cmp(a, b) == 0); }
    public static Value DFinite(Value a) { return bool(num(a) != null); }

    public static Value DAdd(Value a, Value b) { BigDecimal x = num(a), y = num(b); return out(x == null || y == null ? null : x.add(y, MC)); }
    public static Value DSub(Value a, Value b) { BigDecimal x = num(a), y = num(b); return out(x == null || y == null ? null : x.subtract(y, MC)); }
    public static Value DMul(Value a, Value b) { BigDecimal x = num(a), y = num(b); return out(x == null || y == null ? null : x.multiply(y, MC)); }
    public static Value DDiv(Value a, Value b) {
        BigDecimal x = num(a), y = num(b);
        return out(x == null || y == null || y.signum() == 0 ? null : x.divide(y, MC));
    }
    public static Value DSqrt(Value a) { BigDecimal x = num(a); return out(x == null || x.signum() < 0 ? null : x.sqrt(MC)); }
    // values of exp and ln already computed (the functions are pure; bounded memory)
    static final ConcurrentHashMap<String, Value> EXPS = new ConcurrentHashMap<>(), LNS = new ConcurrentHashMap<>();
    static void keep(ConcurrentHashMap<String, Value> m, String k, Value v) { if (m.size() > 300000) m.clear(); m.put(k, v); }
    static final MathContext EXPC = new MathContext(56, RoundingMode.HALF_EVEN);
    public static Value DExp(Value a) {
        String k = str(a); Value v = EXPS.get(k);
        if (v == null) { BigDecimal x = num(a); v = out(x == null ? null : exp(x, EXPC)); keep(EXPS, k, v); }
        return v;
    }
    public static Value DLn(Value a) {
        String k = str(a); Value v = LNS.get(k);
        if (v == null) { BigDecimal x = num(a); v = out(x == null || x.signum() <= 0 ? null : ln(x)); keep(LNS, k, v); }
        return v;
    }
    public static Value DSin(Value a) { BigDecimal x = num(a); return out(x == null ? null : sin(x)); }
    public static Value DCos(Value a) { BigDecimal x = num(a); return out(x == null ? null : sin(x.add(PI.divide(TWO)))); }
    public static Value DPhi(Value a) { BigDecimal x = num(a); return out(x == null ? null : cdf(x)); }
    public static Value DPi() { return out(PI); }

    public static Value DSum(Value s) {
        Value[] v = ((TupleValue) s.toTuple()).elems;
        BigDecimal r = BigDecimal.ZERO;
        for (Value e : v) { BigDecimal x = num(e); if (x == null) return NAN; r = r.add(x, W); }
        return out(r);
    }
    public static Value DDot(Value s, Value t) {
        Value[] v = ((TupleValue) s.toTuple()).elems, w = ((TupleValue) t.toTuple()).elems;
        if (v.length != w.length) throw new RuntimeException("DDot: lengths " + v.length + " " + w.length);
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 0; i < v.length; i++) {
            BigDecimal x = num(v[i]), y = num(w[i]);
            if (x == null || y == null) return NAN;
            r = r.add(x.multiply(y, W), W);
        }
        return out(r);
    }
    /** floor as a TLC integer, clipped to +-2^30 (nan: -2^30) */
    public static Value DFloor(Value a) {
        BigDecimal x = num(a);
        int lim = 1 << 30;
        if (x == null) return IntValue.gen(str(a).equals("inf") ? lim : -lim);
        BigDecimal f = x.setScale(0, RoundingMode.FLOOR);
        if (f.compareTo(new BigDecimal(lim)) > 0) return IntValue.gen(lim);
        if (f.compareTo(new BigDecimal(-lim)) < 0) return IntValue.gen(-lim);
        return IntValue.gen(f.intValue());
    }
    /** solves the linear system A x = b (Gaussian elimination, partial pivoting); Dec.tla states what a solution is */
    /** the same value, evaluated now and once */
    public static Value DFix(Value v) {
        if (v instanceof StringValue || v instanceof IntValue) return v;
        Value t = v.toTuple();
        if (t == null) return v;
        Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
        for (int i = 0; i < e.length; i++) r[i] = DFix(e[i]);
        return new TupleValue(r);
    }
    public static Value DSolve(Value A, Value b) {
        Value[] rows = ((TupleValue) A.toTuple()).elems, bv = ((TupleValue) b.toTuple()).elems;
        int n = rows.length;
        MathContext mc = new MathContext(90);
        BigDecimal[][] m = new BigDecimal[n][n + 1];
        for (int i = 0; i < n; i++) {
            Value[] r = ((TupleValue) rows[i].toTuple()).elems;
            for (int j = 0; j < n; j++) { m[i][j] = num(r[j]); if (m[i][j] == null) return nans(n); }
            m[i][n] = num(bv[i]); if (m[i][n] == null) return nans(n);
        }
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[p][k].abs()) > 0) p = i;
            if (m[p][k].signum() == 0) return nans(n);
            BigDecimal[] t = m[k]; m[k] = m[p]; m[p] = t;
            for (int i = k + 1; i < n; i++) {
                if (m[i][k].signum() == 0) continue;
                BigDecimal f = m[i][k].divide(m[k][k], mc);
                for (int j = k; j <= n; j++) m[i][j] = m[i][j].subtract(f.multiply(m[k][j], mc), mc);
            }
        }
        Value[] x = new Value[n];
        BigDecimal[] xs = new BigDecimal[n];
        for (int i = n - 1; i >= 0; i--) {
            BigDecimal s = m[i][n];
            for (int j = i + 1; j < n; j++) s = s.subtract(m[i][j].multiply(xs[j], mc), mc);
            xs[i] = s.divide(m[i][i], mc);
            x[i] = out(xs[i]);
        }
        return new TupleValue(x);
    }
    /** determinant (Gaussian elimination, partial pivoting) */
    public static Value DDet(Value A) {
        Value[] rows = ((TupleValue) A.toTuple()).elems;
        int n = rows.length;
        MathContext mc = new MathContext(90);
        BigDecimal[][] m = new BigDecimal[n][n];
        for (int i = 0; i < n; i++) {
            Value[] r = ((TupleValue) rows[i].toTuple()).elems;
            for (int j = 0; j < n; j++) { m[i][j] = num(r[j]); if (m[i][j] == null) return NAN; }
        }
        BigDecimal det = ONE;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[p][k].abs()) > 0) p = i;
            if (m[p][k].signum() == 0) return out(BigDecimal.ZERO);
            if (p != k) { BigDecimal[] t = m[k]; m[k] = m[p]; m[p] = t; det = det.negate(); }
            det = det.multiply(m[k][k], mc);
            for (int i = k + 1; i < n; i++) {
                BigDecimal f = m[i][k].divide(m[k][k], mc);
                for (int j = k; j < n; j++) m[i][j] = m[i][j].subtract(f.multiply(m[k][j], mc), mc);
            }
        }
        return out(det);
    }
    static Value nans(int n) { Value[] x = new Value[n]; for (int i = 0; i < n; i++) x[i] = NAN; return new TupleValue(x); }

    // ---------------------------------------------------------------- functions
    static BigDecimal pi(MathContext mc) { // Machin
        MathContext m = new MathContext(mc.getPrecision() + 10);
        return atanInv(5, m).multiply(new BigDecimal(16)).subtract(atanInv(239, m).multiply(new BigDecimal(4)), mc);
    }
    static BigDecimal atanInv(int n, MathContext m) {
        BigDecimal x = ONE.divide(new BigDecimal(n), m), x2 = x.multiply(x, m), t = x, s = x;
        BigDecimal eps = BigDecimal.TEN.pow(-m.getPrecision() - 2, m);
        for (int k = 1; t.abs().compareTo(eps) > 0; k++) {
            t = t.multiply(x2, m).negate();
            s = s.add(t.divide(new BigDecimal(2 * k + 1), m), m);
        }
        return s;
    }
    static BigDecimal ln2(MathContext m) { // 2 atanh(1/3)
        BigDecimal x = ONE.divide(new BigDecimal(3), m), x2 = x.multiply(x, m), t = x, s = x;
        BigDecimal eps = BigDecimal.TEN.pow(-m.getPrecision() - 2, m);
        for (int k = 1; t.compareTo(eps) > 0; k++) { t = t.multiply(x2, m); s = s.add(t.divide(new BigDecimal(2 * k + 1), m), m); }
        return s.multiply(TWO, m);
    }
    static BigDecimal exp(BigDecimal x, MathContext mc) {
        if (x.compareTo(new BigDecimal(-200000)) < 0) return BigDecimal.ZERO;
        if (x.compareTo(new BigDecimal(200000)) > 0) return null;
        MathContext m = new MathContext(mc.getPrecision() + 12);
        int k = x.divide(LN2, m).setScale(0, RoundingMode.HALF_EVEN).intValue();
        BigDecimal r = x.subtract(LN2.multiply(new BigDecimal(k)), m);
        BigDecimal y = r.divide(new BigDecimal(64), m), t = ONE, s = ONE;
        BigDecimal eps = BigDecimal.TEN.pow(-m.getPrecision() - 2, m);
        for (int i = 1; t.abs().compareTo(eps) > 0; i++) { t = t.multiply(y, m).divide(new BigDecimal(i), m); s = s.add(t, m); if (t.signum() == 0) break; }
        for (int i = 0; i < 6; i++) s = s.multiply(s, m);
        BigDecimal p = TWO.pow(Math.abs(k), m);
        return k >= 0 ? s.multiply(p, mc) : s.divide(p, mc);
    }
    static BigDecimal ln(BigDecimal x) {
        // x = m * 10^e, Newton on exp starting from double precision
        int e = x.precision() - x.scale();
        BigDecimal mant = x.scaleByPowerOfTen(-e);
        BigDecimal y = new BigDecimal(Math.log(mant.doubleValue()) + e * Math.log(10.0));
        for (int i = 0; i < 4; i++) y = y.add(x.divide(exp(y, W), W), W).subtract(ONE, W);
        // Newton for ln: y + x/exp(y) - 1 converges quadratically
        return y;
    }
    static BigDecimal sin(BigDecimal x) {
        MathContext m = new MathContext(100);
        BigDecimal tp = PI.multiply(TWO);
        BigDecimal k = x.divide(tp, m).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal y = x.subtract(k.multiply(tp), m), y2 = y.multiply(y, m), t = y, s = y;
        BigDecimal eps = new BigDecimal("1e-80");
        for (int i = 1; t.abs().compareTo(eps) > 0; i++) {
            t = t.multiply(y2, m).divide(new BigDecimal((2 * i) * (2 * i + 1)), m).negate();
            s = s.add(t, m);
        }
        return s.abs().compareTo(new BigDecimal("1e-75")) < 0 ? BigDecimal.ZERO : s;
    }
    static BigDecimal pdf(BigDecimal x, MathContext m) {
        BigDecimal e = exp(x.multiply(x, m).multiply(HALF).negate(), m);
        return e.divide(PI.multiply(TWO).sqrt(m), m);
    }
    static BigDecimal cdf(BigDecimal x) {
        BigDecimal a = x.abs();
        if (a.compareTo(new BigDecimal(600)) > 0) return x.signum() > 0 ? ONE : BigDecimal.ZERO;
        if (a.compareTo(new BigDecimal(12)) <= 0) {
            MathContext m = new MathContext(140);
            BigDecimal x2 = x.multiply(x, m), t = x, s = x, eps = new BigDecimal("1e-135");
            for (int k = 1; t.abs().compareTo(eps) > 0; k++) { t = t.multiply(x2, m).divide(new BigDecimal(2 * k + 1), m); s = s.add(t, m); }
            return HALF.add(pdf(x, m).multiply(s, m), m);
        }
        // continued fraction for the upper tail Q(a) = pdf(a)/(a+1/(a+2/(a+3/...)))
        MathContext m = W;
        BigDecimal f = a;
        for (int k = 400; k >= 1; k--) f = a.add(new BigDecimal(k).divide(f, m), m);
        BigDecimal q = pdf(a, m).divide(f, m);
        return x.signum() < 0 ? q : ONE.subtract(q, new MathContext(200));
    }
}
