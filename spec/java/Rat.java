import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC value overrides for module Rat (spec/Rat.tla).
 * A rational is the string "n" or "n/d" in lowest terms (d > 1); a TLC integer is accepted as an argument.
 * Everything that is not a rational behaves as "nan": it absorbs arithmetic and makes every comparison FALSE,
 * so that a verdict is total on whatever the implementation returned.
 */
public class Rat {
    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
    static final StringValue SNAN = new StringValue("nan");
    private static final ConcurrentHashMap<String, Q> CACHE = new ConcurrentHashMap<>();

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }

    static Q parse(String s) {
        Q c = CACHE.get(s);
        if (c != null) return c;
        Q q;
        try {
            int k = s.indexOf('/');
            if (k < 0) q = new Q(new BigInteger(s), BigInteger.ONE);
            else q = mk(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        } catch (RuntimeException e) {
            q = NAN;
        }
        if (CACHE.size() > 400000) CACHE.clear();
        CACHE.put(s, q);
        return q;
    }

    static Q of(Value v) {
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        return NAN;
    }

    static StringValue str(Q q) {
        if (q.d.signum() == 0) return SNAN;
        String s = q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n + "/" + q.d;
        return new StringValue(s);
    }

    static boolean nan(Q a) { return a.d.signum() == 0; }

    static Q add(Q a, Q b) {
        if (nan(a) || nan(b)) return NAN;
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return nan(a) ? NAN : new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (nan(a) || nan(b)) return NAN;
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (nan(a) || nan(b) || b.n.signum() == 0) return NAN;
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    static Q abs(Q a) { return nan(a) ? NAN : new Q(a.n.abs(), a.d); }
    static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

    public static Value RAdd(Value a, Value b) { return str(add(of(a), of(b))); }
    public static Value RSub(Value a, Value b) { return str(add(of(a), neg(of(b)))); }
    public static Value RMul(Value a, Value b) { return str(mul(of(a), of(b))); }
    public static Value RDiv(Value a, Value b) { return str(div(of(a), of(b))); }
    public static Value RNeg(Value a) { return str(neg(of(a))); }
    public static Value RAbs(Value a) { return str(abs(of(a))); }
    public static Value R(Value a) { return str(of(a)); }
    public static Value IsRat(Value a) { return b(!nan(of(a))); }
    public static Value RLeq(Value x, Value y) { Q a = of(x), c = of(y); return b(!nan(a) && !nan(c) && cmp(a, c) <= 0); }
    public static Value RLt(Value x, Value y) { Q a = of(x), c = of(y); return b(!nan(a) && !nan(c) && cmp(a, c) < 0); }
    public static Value REq(Value x, Value y) { Q a = of(x), c = of(y); return b(!nan(a) && !nan(c) && cmp(a, c) == 0); }
    public static Value RFloor(Value x) {
        Q a = of(x);
        if (nan(a)) return IntValue.gen(0);
        return IntValue.gen(a.n.subtract(a.n.mod(a.d)).divide(a.d).intValue());
    }
    /** Round to 2^-k (keeps the size of derived numbers bounded; error at most 2^-(k+1)). */
    public static Value RRound(Value x, Value k) {
        Q a = of(x);
        if (nan(a)) return SNAN;
        int kk = ((IntValue) k).val;
        BigInteger two = BigInteger.ONE.shiftLeft(kk);
        BigInteger num = a.n.multiply(two).shiftLeft(1).add(a.d);
        BigInteger den = a.d.shiftLeft(1);
        BigInteger fl = num.subtract(num.mod(den)).divide(den);
        return str(mk(fl, two));
    }

    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /** The elements of a sequence or of a function, in domain order; null if the value is neither. */
    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        if (v instanceof FcnLambdaValue) {
            Value f = (Value) v.toFcnRcd();
            if (f == null) return null;
            v = f;
        }
        if (v instanceof FcnRcdValue) {
            FcnRcdValue f = (FcnRcdValue) v;
            f.normalize();
            return f.values;
        }
        if (v instanceof RecordValue) return ((RecordValue) v).values;
        return null;
    }

    public static Value RSum(Value s) {
        Value[] e = elems(s);
        if (e == null) return SNAN;
        Q t = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value x : e) t = add(t, of(x));
        return str(t);
    }
    public static Value RSumAbs(Value s) {
        Value[] e = elems(s);
        if (e == null) return SNAN;
        Q t = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value x : e) t = add(t, abs(of(x)));
        return str(t);
    }
    public static Value RMaxOf(Value s) {
        Value[] e = elems(s);
        if (e == null || e.length == 0) return SNAN;
        Q t = of(e[0]);
        for (Value x : e) { Q q = of(x); if (nan(q) || nan(t)) return SNAN; if (cmp(q, t) > 0) t = q; }
        return str(t);
    }
    public static Value RMinOf(Value s) {
        Value[] e = elems(s);
        if (e == null || e.length == 0) return SNAN;
        Q t = of(e[0]);
        for (Value x : e) { Q q = of(x); if (nan(q) || nan(t)) return SNAN; if (cmp(q, t) < 0) t = q; }
        return str(t);
    }
    public static Value RDot(Value s, Value u) {
        Value[] e = elems(s), f = elems(u);
        if (e == null || f == null || e.length != f.length) return SNAN;
        Q t = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int i = 0; i < e.length; i++) t = add(t, mul(of(e[i]), of(f[i])));
        return str(t);
    }
    public static Value RDotAbs(Value s, Value u) {
        Value[] e = elems(s), f = elems(u);
        if (e == null || f == null || e.length != f.length) return SNAN;
        Q t = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int i = 0; i < e.length; i++) t = add(t, abs(mul(of(e[i]), of(f[i]))));
        return str(t);
    }

    // ---- total accessors, 0-based -------------------------------------------------------------
    static Value at(Value v, int i) {
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            return i >= 0 && i < e.length ? e[i] : SNAN;
        }
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
            Value[] e = elems(v);
            return e != null && i >= 0 && i < e.length ? e[i] : SNAN;
        }
        return SNAN;
    }
    static int ix(Value i) { return i instanceof IntValue ? ((IntValue) i).val : -1; }
    public static Value At(Value v, Value i) { return at(v, ix(i)); }
    public static Value At2(Value v, Value i, Value j) { return at(at(v, ix(i)), ix(j)); }
    public static Value At3(Value v, Value i, Value j, Value k) { return at(at(at(v, ix(i)), ix(j)), ix(k)); }
    public static Value At4(Value v, Value i, Value j, Value k, Value l) { return at(at(at(at(v, ix(i)), ix(j)), ix(k)), ix(l)); }
    /** Length of a sequence, -1 for anything else. */
    public static Value Size(Value v) {
        if (v instanceof TupleValue) return IntValue.gen(((TupleValue) v).elems.length);
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) { Value[] e = elems(v); return IntValue.gen(e == null ? -1 : e.length); }
        return IntValue.gen(-1);
    }
    static boolean shapeIs(Value v, Value[] dims, int k) {
        if (k == dims.length) return !nan(of(v));
        Value[] e = (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? elems(v) : null;
        if (e == null || e.length != ix(dims[k])) return false;
        for (Value x : e) if (!shapeIs(x, dims, k + 1)) return false;
        return true;
    }
    /** v is a rectangular nested sequence of finite rationals with exactly these dimensions. */
    public static Value HasShape(Value v, Value dims) {
        Value[] d = elems(dims);
        return b(d != null && shapeIs(v, d, 0));
    }
    static Q maxabs(Value v) {
        Value[] e = (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? elems(v) : null;
        if (e == null) return abs(of(v));
        Q t = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value x : e) { Q q = maxabs(x); if (nan(q)) return NAN; if (cmp(q, t) > 0) t = q; }
        return t;
    }
    /** Largest absolute value in a nested sequence. */
    public static Value MaxAbs(Value v) { return str(maxabs(v)); }
    static boolean close(Value a, Value c, Q tol) {
        Value[] e = (a instanceof TupleValue || a instanceof FcnLambdaValue || a instanceof FcnRcdValue) ? elems(a) : null;
        Value[] f = (c instanceof TupleValue || c instanceof FcnLambdaValue || c instanceof FcnRcdValue) ? elems(c) : null;
        if (e == null && f == null) {
            Q x = of(a), y = of(c);
            if (nan(x) || nan(y)) return false;
            return cmp(abs(add(x, neg(y))), tol) <= 0;
        }
        if (e == null || f == null || e.length != f.length) return false;
        for (int i = 0; i < e.length; i++) if (!close(e[i], f[i], tol)) return false;
        return true;
    }
    /** Same nesting, and every pair of entries differs by at most tol. */
    public static Value Close(Value a, Value c, Value tol) {
        Q t = of(tol);
        return b(!nan(t) && close(a, c, t));
    }

    // ---- small dense matrices (sequences of rows) -----------------------------------------------
    static Q[][] mat(Value v) {
        Value[] r = (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? elems(v) : null;
        if (r == null) return null;
        Q[][] m = new Q[r.length][];
        for (int i = 0; i < r.length; i++) {
            Value[] c = (r[i] instanceof TupleValue || r[i] instanceof FcnLambdaValue || r[i] instanceof FcnRcdValue) ? elems(r[i]) : null;
            if (c == null || (i > 0 && c.length != m[0].length)) return null;
            m[i] = new Q[c.length];
            for (int j = 0; j < c.length; j++) m[i][j] = of(c[j]);
        }
        return m;
    }
    static Value val(Q[][] m) {
        if (m == null) return SNAN;
        Value[] r = new Value[m.length];
        for (int i = 0; i < m.length; i++) {
            Value[] c = new Value[m[i].length];
            for (int j = 0; j < c.length; j++) c[j] = str(m[i][j]);
            r[i] = new TupleValue(c);
        }
        return new TupleValue(r);
    }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static Q[][] times(Q[][] p, Q[][] q, boolean ab) {
        if (p == null || q == null || p.length == 0 || q.length == 0 || p[0].length != q.length) return null;
        Q[][] m = new Q[p.length][q[0].length];
        for (int i = 0; i < p.length; i++)
            for (int j = 0; j < q[0].length; j++) {
                Q t = ZERO;
                for (int k = 0; k < q.length; k++) { Q x = mul(p[i][k], q[k][j]); t = add(t, ab ? abs(x) : x); }
                m[i][j] = t;
            }
        return m;
    }
    public static Value MMul(Value p, Value q) { return val(times(mat(p), mat(q), false)); }
    static Value wconv(Value w, Value bs, Value ks, boolean ab) {
        Value[] ww = elems(w), b = elems(bs), k = elems(ks);
        if (ww == null || b == null || k == null || ww.length != b.length || b.length != k.length || b.length == 0) return SNAN;
        Q[][] t = null;
        for (int i = 0; i < b.length; i++) {
            Q[][] x = times(mat(b[i]), mat(k[i]), ab);
            if (x == null) return SNAN;
            Q c = ab ? abs(of(ww[i])) : of(ww[i]);
            if (t == null) { t = new Q[x.length][x[0].length]; for (Q[] r : t) java.util.Arrays.fill(r, ZERO); }
            if (t.length != x.length || t[0].length != x[0].length) return SNAN;
            for (int r = 0; r < x.length; r++) for (int s = 0; s < x[0].length; s++) t[r][s] = add(t[r][s], mul(c, x[r][s]));
        }
        return val(t);
    }
    /** sum of w[i] * bs[i] * ks[i], matrices */
    public static Value WConv(Value w, Value bs, Value ks) { return wconv(w, bs, ks, false); }
    public static Value WConvAbs(Value w, Value bs, Value ks) { return wconv(w, bs, ks, true); }
    /** a * P + b * Q entrywise */
    public static Value MLin(Value a, Value p, Value c, Value q) {
        Q[][] x = mat(p), y = mat(q);
        if (x == null || y == null || x.length != y.length || x.length == 0 || x[0].length != y[0].length) return SNAN;
        Q u = of(a), v = of(c);
        Q[][] m = new Q[x.length][x[0].length];
        for (int i = 0; i < m.length; i++) for (int j = 0; j < m[0].length; j++) m[i][j] = add(mul(u, x[i][j]), mul(v, y[i][j]));
        return val(m);
    }
    /** the X with M X = B, exact; "nan" when M is singular or the shapes do not fit */
    public static Value MSolve(Value mm, Value bb) {
        Q[][] a = mat(mm), b = mat(bb);
        if (a == null || b == null || a.length == 0 || a.length != a[0].length || b.length != a.length) return SNAN;
        int n = a.length, m = b[0].length;
        Q[][] w = new Q[n][n + m];
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) { w[i][j] = a[i][j]; if (nan(w[i][j])) return SNAN; }
            for (int j = 0; j < m; j++) { w[i][n + j] = b[i][j]; if (nan(w[i][n + j])) return SNAN; }
        }
        for (int c = 0; c < n; c++) {
            int p = -1;
            for (int i = c; i < n; i++) if (w[i][c].n.signum() != 0) { p = i; break; }
            if (p < 0) return SNAN;
            Q[] tmp = w[c]; w[c] = w[p]; w[p] = tmp;
            Q inv = div(new Q(BigInteger.ONE, BigInteger.ONE), w[c][c]);
            for (int j = c; j < n + m; j++) w[c][j] = mul(w[c][j], inv);
            for (int i = 0; i < n; i++) {
                if (i == c || w[i][c].n.signum() == 0) continue;
                Q f = neg(w[i][c]);
                for (int j = c; j < n + m; j++) w[i][j] = add(w[i][j], mul(f, w[c][j]));
            }
        }
        Q[][] x = new Q[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) x[i][j] = w[i][n + j];
        return val(x);
    }
    static Q rnd(Q a, int kk) {
        if (nan(a)) return NAN;
        BigInteger two = BigInteger.ONE.shiftLeft(kk);
        BigInteger num = a.n.multiply(two).shiftLeft(1).add(a.d);
        BigInteger den = a.d.shiftLeft(1);
        return mk(num.subtract(num.mod(den)).divide(den), two);
    }
    static Value mround(Value v, int k) {
        Value[] e = (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? elems(v) : null;
        if (e == null) return str(rnd(of(v), k));
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = mround(e[i], k);
        return new TupleValue(r);
    }
    /** every entry of a nested array to the nearest multiple of 2^-k */
    public static Value MRound(Value v, Value k) { return mround(v, ix(k)); }
    static Value eager(Value v) {
        Value[] e = (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? elems(v) : null;
        if (e == null) return v;
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = eager(e[i]);
        return new TupleValue(r);
    }
    /** the same nested array, evaluated once */
    public static Value Eager(Value v) { return eager(v); }
}
