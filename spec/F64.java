import tlc2.value.impl.*;

/** IEEE-754 double arithmetic for TLC; see F64.tla. */
public class F64 {
    private static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    private static Value f(double x) {
        final long b = Double.doubleToLongBits(x == 0.0 ? 0.0 : x);   // one zero, one NaN
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FAdd(final Value a, final Value b) { return f(d(a) + d(b)); }
    public static Value FSub(final Value a, final Value b) { return f(d(a) - d(b)); }
    public static Value FMul(final Value a, final Value b) { return f(d(a) * d(b)); }
    public static Value FDiv(final Value a, final Value b) { return f(d(a) / d(b)); }
    public static Value FNeg(final Value a) { return f(-d(a)); }
    public static Value FAbs(final Value a) { return f(Math.abs(d(a))); }
    public static Value FSqrt(final Value a) { return f(Math.sqrt(d(a))); }
    public static Value FExp(final Value a) { return f(Math.exp(d(a))); }
    public static Value FLn(final Value a) { return f(Math.log(d(a))); }
    public static Value FPow(final Value a, final Value b) { return f(Math.pow(d(a), d(b))); }
    public static Value FFloor(final Value a) { return f(Math.floor(d(a))); }
    public static Value FCos(final Value a) { return f(Math.cos(d(a))); }
    public static Value FPhi(final Value a) {
        final double x = d(a), z = Math.abs(x);
        if (Double.isNaN(x)) return f(x);
        final double e = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI);
        double up;                                              // upper tail of z
        if (z < 4) {
            double t = z, s = z;
            for (int k = 1; k < 400; k++) { t *= z * z / (2 * k + 1); s += t; }
            up = 0.5 - e * s;
        } else {
            double c = 0;
            for (int k = 200; k > 0; k--) c = k / (z + c);
            up = e / (z + c);
        }
        return f(x > 0 ? 1 - up : up);
    }
    public static Value FSort(final Value u) {
        final double[] x = vec(u);
        java.util.Arrays.sort(x);
        final Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = f(x[i]);
        return new TupleValue(r);
    }
    public static Value FLt(final Value a, final Value b) { return b(d(a) < d(b)); }
    public static Value FLe(final Value a, final Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(final Value a, final Value b) { return b(d(a) == d(b)); }
    public static Value FIsNaN(final Value a) { return b(Double.isNaN(d(a))); }
    public static Value FIsInf(final Value a) { return b(Double.isInfinite(d(a))); }
    public static Value FInt(final Value n) { return f(((IntValue) n).val); }
    public static Value FToInt(final Value a) { return IntValue.gen((int) d(a)); }
    public static Value FLit(final Value s) {
        return f(Double.parseDouble(((StringValue) s).val.toString()));
    }
    public static Value FStr(final Value a) { return new StringValue(Double.toString(d(a))); }
    private static double[] vec(final Value u) {
        final TupleValue t = (TupleValue) u.toTuple();
        final double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }
    public static Value FDot(final Value u, final Value v) {
        final double[] x = vec(u), y = vec(v);
        if (x.length != y.length) throw new RuntimeException("FDot: lengths differ");
        double s = 0;
        for (int i = 0; i < x.length; i++) s += x[i] * y[i];
        return f(s);
    }
    public static Value FSum(final Value u) {
        double s = 0;
        for (final double x : vec(u)) s += x;
        return f(s);
    }
    public static Value FNear(final Value a, final Value b, final Value tol, final Value scale) {
        final double x = d(a), y = d(b), t = d(tol), s = Math.abs(d(scale));
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        if (x == y) return b(true);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
        return b(Math.abs(x - y) <= t * Math.max(s, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value FChol(final Value A) {
        final TupleValue t = (TupleValue) A.toTuple();
        final int n = t.elems.length;
        final double[][] a = new double[n][], r = new double[n][n];
        for (int i = 0; i < n; i++) a[i] = vec(t.elems[i]);
        for (int i = 0; i < n; i++) {
            double s = a[i][i];
            for (int k = 0; k < i; k++) s -= r[k][i] * r[k][i];
            if (!(s > 0) || Double.isInfinite(s)) return new TupleValue(new Value[0]);
            r[i][i] = Math.sqrt(s);
            for (int j = i + 1; j < n; j++) {
                s = a[i][j];
                for (int k = 0; k < i; k++) s -= r[k][i] * r[k][j];
                r[i][j] = s / r[i][i];
            }
        }
        final Value[] rows = new Value[n];
        for (int i = 0; i < n; i++) {
            final Value[] e = new Value[n];
            for (int j = 0; j < n; j++) e[j] = f(r[i][j]);
            rows[i] = new TupleValue(e);
        }
        return new TupleValue(rows);
    }
    public static Value FRSolve(final Value v, final Value R) {
        final double[] y = vec(v);
        final int n = y.length;
        final TupleValue t = (TupleValue) R.toTuple();
        final double[][] m = new double[n][n + 1];            // transpose(R) w = v
        for (int i = 0; i < n; i++) {
            final double[] row = vec(t.elems[i]);
            for (int j = 0; j < n; j++) m[j][i] = row[j];
            m[i][n] = y[i];
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
            if (!(Math.abs(m[p][c]) > 0)) return new TupleValue(new Value[0]);
            final double[] h = m[p]; m[p] = m[c]; m[c] = h;
            for (int i = 0; i < n; i++) if (i != c) {
                final double k = m[i][c] / m[c][c];
                if (k != 0) for (int j = c; j <= n; j++) m[i][j] -= k * m[c][j];
            }
        }
        final Value[] w = new Value[n];
        for (int i = 0; i < n; i++) w[i] = f(m[i][n] / m[i][i]);
        return new TupleValue(w);
    }
}
