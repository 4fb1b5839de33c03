// TLC module override for RealNum.tla: IEEE double arithmetic on TLA+ values
// and a JSON trace loader that keeps every double the implementation produced.
// The operators are those declared (and, where they are not primitive, defined)
// in RealNum.tla.
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.impl.*;
import util.UniqueString;

public class RealNum {
    static double d(Value v) {
        if (v instanceof RealVal) return ((RealVal) v).x;
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new RuntimeException("RealNum: not a number: " + v);
    }
    static double[] vec(Value v) {
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems;
            double[] r = new double[e.length];
            for (int i = 0; i < e.length; i++) r[i] = d(e[i]);
            return r;
        }
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("RealNum: not a vector: " + v);
        return vec(t);
    }
    static Value r(double x) { return new RealVal(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value tup(double[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
        return new TupleValue(e);
    }

    public static Value R(Value s) {
        if (s instanceof StringValue) return r(parse(((StringValue) s).val.toString()));
        return r(d(s));
    }
    public static Value IsReal(Value v) { return b(v instanceof RealVal || v instanceof IntValue); }
    public static Value IsFiniteReal(Value v) {
        return b((v instanceof RealVal || v instanceof IntValue) && !Double.isNaN(d(v)) && !Double.isInfinite(d(v)));
    }
    public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
    public static Value RNeg(Value a) { return r(-d(a)); }
    public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
    public static Value RSin(Value a) { return r(StrictMath.sin(d(a))); }
    public static Value RCos(Value a) { return r(StrictMath.cos(d(a))); }
    public static Value RAcos(Value a) { return r(StrictMath.acos(Math.max(-1, Math.min(1, d(a))))); }
    public static Value RAtan2(Value a, Value c) { return r(StrictMath.atan2(d(a), d(c))); }
    public static Value RPow(Value a, Value c) { return r(StrictMath.pow(d(a), d(c))); }
    public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
    public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
    public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RNaN(Value a) { return b(Double.isNaN(d(a))); }

    public static Value RSum(Value s) { double t = 0; for (double x : vec(s)) t += x; return r(t); }
    public static Value RMaxSeq(Value s) {
        double t = Double.NEGATIVE_INFINITY; for (double x : vec(s)) t = Math.max(t, x); return r(t);
    }
    public static Value RMinSeq(Value s) {
        double t = Double.POSITIVE_INFINITY; for (double x : vec(s)) t = Math.min(t, x); return r(t);
    }
    public static Value RSort(Value s) {
        double[] x = vec(s).clone(); java.util.Arrays.sort(x); return tup(x);
    }
    public static Value VAdd(Value a, Value c) {
        double[] x = vec(a), y = vec(c), z = new double[x.length];
        for (int i = 0; i < x.length; i++) z[i] = x[i] + y[i];
        return tup(z);
    }
    public static Value VSub(Value a, Value c) {
        double[] x = vec(a), y = vec(c), z = new double[x.length];
        for (int i = 0; i < x.length; i++) z[i] = x[i] - y[i];
        return tup(z);
    }
    public static Value VScale(Value s, Value c) {
        double t = d(s); double[] y = vec(c), z = new double[y.length];
        for (int i = 0; i < y.length; i++) z[i] = t * y[i];
        return tup(z);
    }
    public static Value Dot(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double t = 0;
        if (x.length != y.length) throw new RuntimeException("Dot: length");
        for (int i = 0; i < x.length; i++) t += x[i] * y[i];
        return r(t);
    }
    public static Value Norm(Value a) {
        double t = 0; for (double x : vec(a)) t += x * x; return r(Math.sqrt(t));
    }
    public static Value Dist(Value a, Value c) {
        double[] x = vec(a), y = vec(c); double t = 0;
        if (x.length != y.length) throw new RuntimeException("Dist: length");
        for (int i = 0; i < x.length; i++) t += (x[i] - y[i]) * (x[i] - y[i]);
        return r(Math.sqrt(t));
    }
    public static Value Cross(Value a, Value c) {
        double[] x = vec(a), y = vec(c);
        return tup(new double[] {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]});
    }
    // rotate vector v by quaternion q = <<w,x,y,z>>
    static double[] qrot(double[] q, double[] v) {
        double n = q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3];
        double w=q[0],x=q[1],y=q[2],z=q[3];
        double[] t = {2*(y*v[2]-z*v[1])/n, 2*(z*v[0]-x*v[2])/n, 2*(x*v[1]-y*v[0])/n};
        return new double[] {v[0]+w*t[0]+y*t[2]-z*t[1], v[1]+w*t[1]+z*t[0]-x*t[2], v[2]+w*t[2]+x*t[1]-y*t[0]};
    }
    public static Value QRot(Value q, Value v) { return tup(qrot(vec(q), vec(v))); }
    public static Value QMul(Value a, Value c) {
        double[] p = vec(a), q = vec(c);
        return tup(new double[] {
            p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
            p[0]*q[2]-p[1]*q[3]+p[2]*q[0]+p[3]*q[1], p[0]*q[3]+p[1]*q[2]-p[2]*q[1]+p[3]*q[0]});
    }

    // ---- line and triangle mesh (definition in RealNum.tla) ----
    public static Value MeshSection(Value line, Value vv, Value ff, Value slackv) {
        double[] l = vec(line); double slack = d(slackv);
        Value[] V = ((TupleValue) vv.toTuple()).elems, F = ((TupleValue) ff.toTuple()).elems;
        double[][] P = new double[V.length][];
        for (int i = 0; i < V.length; i++) P[i] = vec(V[i]);
        double lo = Double.POSITIVE_INFINITY, hi = Double.NEGATIVE_INFINITY;
        double dn = Math.sqrt(l[3]*l[3]+l[4]*l[4]+l[5]*l[5]);
        for (Value fv : F) {
            double[] f = vec(fv);
            double[] a = P[(int) f[0]], b = P[(int) f[1]], c = P[(int) f[2]];
            double[] u = {b[0]-a[0], b[1]-a[1], b[2]-a[2]}, v = {c[0]-a[0], c[1]-a[1], c[2]-a[2]};
            double[] w = {l[0]-a[0], l[1]-a[1], l[2]-a[2]};
            double[] n = {u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]};
            double nn = Math.sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]);
            double den = n[0]*l[3]+n[1]*l[4]+n[2]*l[5];
            double e0 = u[0]*u[0]+u[1]*u[1]+u[2]*u[2], e1 = v[0]*v[0]+v[1]*v[1]+v[2]*v[2];
            double e2 = (u[0]-v[0])*(u[0]-v[0])+(u[1]-v[1])*(u[1]-v[1])+(u[2]-v[2])*(u[2]-v[2]);
            if (!(nn > 1e-6 * Math.max(e0, Math.max(e1, e2))) || Math.abs(den) <= 1e-12 * nn * dn) continue;
            double t = -(n[0]*w[0]+n[1]*w[1]+n[2]*w[2]) / den;
            double[] p = {w[0]+t*l[3], w[1]+t*l[4], w[2]+t*l[5]};
            double[] pv = {p[1]*v[2]-p[2]*v[1], p[2]*v[0]-p[0]*v[2], p[0]*v[1]-p[1]*v[0]};
            double[] up = {u[1]*p[2]-u[2]*p[1], u[2]*p[0]-u[0]*p[2], u[0]*p[1]-u[1]*p[0]};
            double s = (n[0]*pv[0]+n[1]*pv[1]+n[2]*pv[2]) / (nn*nn), r = (n[0]*up[0]+n[1]*up[1]+n[2]*up[2]) / (nn*nn);
            if (s < -slack || r < -slack || s + r > 1 + slack) continue;
            if (t < lo) lo = t;
            if (t > hi) hi = t;
        }
        return lo > hi ? tup(new double[0]) : tup(new double[] {lo, hi});
    }

    // ---- support functions (see Shapes.tla for the definitions) ----
    static double lp(double a, double c, double q) {
        a = Math.abs(a); c = Math.abs(c);
        double m = Math.max(a, c);
        if (m == 0) return 0;
        if (q > 400) return m;
        return m * Math.pow(Math.pow(a / m, q) + Math.pow(c / m, q), 1 / q);
    }
    static double conj(double eps) { return 2.0 / (2.0 - eps); }
    // shape2 = <<a, b, eps, x, y, angle>>
    static double sup2(double[] s, double nx, double ny) {
        double co = Math.cos(s[5]), si = Math.sin(s[5]);
        double u = co * nx + si * ny, v = -si * nx + co * ny;
        return lp(s[0] * u, s[1] * v, conj(s[2])) + nx * s[3] + ny * s[4];
    }
    // shape3 = <<a, b, c, e1, e2, x, y, z, qw, qx, qy, qz>>
    static double sup3(double[] s, double[] n) {
        double[] qi = {s[8], -s[9], -s[10], -s[11]};
        double[] u = qrot(qi, n);
        double xy = lp(s[0] * u[0], s[1] * u[1], conj(s[4]));
        return lp(xy, s[2] * u[2], conj(s[3])) + n[0] * s[5] + n[1] * s[6] + n[2] * s[7];
    }
    public static Value Sup2(Value s, Value n) { double[] m = vec(n); return r(sup2(vec(s), m[0], m[1])); }
    public static Value Sup3(Value s, Value n) { return r(sup3(vec(s), vec(n))); }

    // largest separation of two planar shapes over the directions 2 pi k / N,
    // refined by golden section around the best one
    static double gap2(double[] s, double[] t, double th) {
        double nx = Math.cos(th), ny = Math.sin(th);
        // n.x over t is at least -sup2(t,-n); over s at most sup2(s,n)
        return -sup2(t, -nx, -ny) - sup2(s, nx, ny);
    }
    interface F1 { double at(double th); }
    // largest value of a periodic function: dense scan, then golden section around the three best
    static double max1(F1 f, int N) {
        double[] g = new double[N];
        for (int k = 0; k < N; k++) g[k] = f.at(2 * Math.PI * k / N);
        double best = Double.NEGATIVE_INFINITY;
        boolean[] used = new boolean[N];
        double ph = (Math.sqrt(5) - 1) / 2, w = 2 * Math.PI / N;
        for (int t = 0; t < 3; t++) {
            int b = -1;
            for (int k = 0; k < N; k++) if (!used[k] && (b < 0 || g[k] > g[b])) b = k;
            used[b] = used[(b + 1) % N] = used[(b + N - 1) % N] = true;
            double bt = 2 * Math.PI * b / N, lo = bt - w, hi = bt + w;
            for (int k = 0; k < 60; k++) {
                double m1 = hi - ph * (hi - lo), m2 = lo + ph * (hi - lo);
                if (f.at(m1) > f.at(m2)) hi = m2; else lo = m1;
            }
            best = Math.max(best, Math.max(g[b], f.at((lo + hi) / 2)));
        }
        return best;
    }
    public static Value Gap2(Value a, Value c) {
        final double[] s = vec(a), t = vec(c);
        double best = max1(th -> gap2(s, t, th), 180);
        double dx = t[3] - s[3], dy = t[4] - s[4];
        if (dx != 0 || dy != 0) best = Math.max(best, gap2(s, t, Math.atan2(dy, dx)));
        return r(best);
    }
    // how far the inner shape may grow in the direction where it is tightest: least outer - inner support
    public static Value Room2(Value a, Value c) {
        final double[] s = vec(a), t = vec(c);
        return r(-max1(th -> sup2(t, Math.cos(th), Math.sin(th)) - sup2(s, Math.cos(th), Math.sin(th)), 360));
    }
    public static Value Room3(Value a, Value c) {
        final double[] s = vec(a), t = vec(c);
        return r(-max3(n -> sup3(t, n) - sup3(s, n), null, s, t));
    }
    static double suph(double[][] P, double[] n) {
        double m = Double.NEGATIVE_INFINITY;
        for (double[] p : P) m = Math.max(m, n[0]*p[0] + n[1]*p[1] + n[2]*p[2]);
        return m;
    }
    static double[][] pts(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        double[][] P = new double[e.length][];
        for (int i = 0; i < e.length; i++) P[i] = vec(e[i]);
        return P;
    }
    // separation of a shape and the convex hull of points
    public static Value GapHull3(Value a, Value c) {
        final double[] s = vec(a); final double[][] P = pts(c);
        double[] m = new double[3];
        for (double[] p : P) for (int k = 0; k < 3; k++) m[k] += p[k] / P.length;
        double[] cc = {m[0]-s[5], m[1]-s[6], m[2]-s[7]};
        return r(max3(n -> -suph(P, new double[] {-n[0], -n[1], -n[2]}) - sup3(s, n),
                      cc[0]*cc[0]+cc[1]*cc[1]+cc[2]*cc[2] > 1e-12 ? unit(cc) : null, s));
    }
    // lengths of shortest walks (see Graphs.tla), by Bellman-Ford
    public static Value ShortestFrom(Value nv, Value ev, Value wv, Value sv) {
        int n = (int) d(nv), src = (int) d(sv);
        Value[] e = ((TupleValue) ev.toTuple()).elems;
        double[] w = vec(wv), D = new double[n];
        int[][] p = new int[e.length][];
        for (int k = 0; k < e.length; k++) { double[] x = vec(e[k]); p[k] = new int[] {(int) x[0], (int) x[1]}; }
        java.util.Arrays.fill(D, 1e300);
        D[src] = 0;
        for (boolean more = true; more; ) {
            more = false;
            for (int k = 0; k < e.length; k++) {
                int a = p[k][0], b = p[k][1];
                if (D[a] + w[k] < D[b]) { D[b] = D[a] + w[k]; more = true; }
                if (D[b] + w[k] < D[a]) { D[a] = D[b] + w[k]; more = true; }
            }
        }
        return tup(D);
    }
    // support function of the hull of points
    public static Value SupPts(Value c, Value n) {
        Value[] e = ((TupleValue) c.toTuple()).elems; double[] m = vec(n);
        double b = Double.NEGATIVE_INFINITY;
        for (Value p : e) { double[] x = vec(p); double t = 0; for (int k = 0; k < m.length; k++) t += x[k]*m[k]; b = Math.max(b, t); }
        return r(b);
    }
    static double gap3(double[] s, double[] t, double[] n) {
        return -sup3(t, new double[] {-n[0], -n[1], -n[2]}) - sup3(s, n);
    }
    static double[] unit(double[] n) {
        double l = Math.sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]);
        return new double[] {n[0]/l, n[1]/l, n[2]/l};
    }
    static final double[][] DIRS = new double[400][];
    static {
        double ga = Math.PI * (3 - Math.sqrt(5));
        for (int k = 0; k < DIRS.length; k++) {
            double z = 1 - 2 * (k + 0.5) / DIRS.length, rr = Math.sqrt(1 - z * z);
            DIRS[k] = new double[] {rr * Math.cos(ga * k), rr * Math.sin(ga * k), z};
        }
    }
    interface F3 { double at(double[] n); }
    // the axes of a body: its support function has ridges across the planes normal to them
    static double[][] axes(double[]... bodies) {
        double[][] A = new double[3 * bodies.length][];
        for (int b = 0; b < bodies.length; b++) {
            double[] s = bodies[b], q = {s[8], s[9], s[10], s[11]};
            A[3*b] = unit(qrot(q, new double[] {1, 0, 0}));
            A[3*b+1] = unit(qrot(q, new double[] {0, 1, 0}));
            A[3*b+2] = unit(qrot(q, new double[] {0, 0, 1}));
        }
        return A;
    }
    static double climb3(F3 f, double[] n0, double step, double[][] A) {
        double[] n = n0, from = n0; double best = f.at(n);
        java.util.Random rnd = new java.util.Random(7);
        for (int round = 0; step > 1e-9 && round < 20000; round++) {
            boolean up = false;
            double[] e = Math.abs(n[0]) < 0.8 ? new double[] {1, 0, 0} : new double[] {0, 1, 0};
            double dd = e[0]*n[0]+e[1]*n[1]+e[2]*n[2];
            double[] u = unit(new double[] {e[0]-dd*n[0], e[1]-dd*n[1], e[2]-dd*n[2]});
            double[] v = {n[1]*u[2]-n[2]*u[1], n[2]*u[0]-n[0]*u[2], n[0]*u[1]-n[1]*u[0]};
            double off = rnd.nextDouble() * Math.PI / 4;
            double bg = best + 1e-14 * (1 + Math.abs(best)); double[] bm = null;   // not climbing on rounding noise
            for (int k = 0; k < 8; k++) {
                double a = off + k * Math.PI / 4, ca = Math.cos(a) * step, sa = Math.sin(a) * step;
                double[] m = unit(new double[] {n[0]+ca*u[0]+sa*v[0], n[1]+ca*u[1]+sa*v[1], n[2]+ca*u[2]+sa*v[2]});
                double g = f.at(m);
                if (g > bg) { bg = g; bm = m; up = true; }
            }
            for (double[] a : A) {
                double c = a[0]*n[0]+a[1]*n[1]+a[2]*n[2];
                if (Math.abs(c) > 1 - 1e-12) continue;
                double[] p = unit(new double[] {n[0]-c*a[0], n[1]-c*a[1], n[2]-c*a[2]});
                double[] w = {a[1]*p[2]-a[2]*p[1], a[2]*p[0]-a[0]*p[2], a[0]*p[1]-a[1]*p[0]};
                double[] o = Math.abs(c) < 3 * step ? p : n;      // onto the ridge when it is near
                for (int k = -1; k <= 1; k++) {
                    double[] m = unit(new double[] {o[0]+k*step*w[0], o[1]+k*step*w[1], o[2]+k*step*w[2]});
                    double g = f.at(m);
                    if (g > bg) { bg = g; bm = m; up = true; }
                }
            }
            if (!up) { step *= 0.5; continue; }
            best = bg; n = bm; step = Math.min(0.15, step * 1.25);
            if (round % 6 == 5) {                                 // along a ridge: leap ahead in the direction of the last steps
                double[] d = {n[0]-from[0], n[1]-from[1], n[2]-from[2]};
                for (double lam = 1; lam < 1e6; lam *= 2) {
                    double[] m = unit(new double[] {n[0]+lam*d[0], n[1]+lam*d[1], n[2]+lam*d[2]});
                    double g = f.at(m);
                    if (!(g > best)) break;
                    best = g; n = m;
                }
                from = n;
            }
        }
        return best;
    }
    // largest value over the sphere: dense scan, climbs from the best separate directions and a hint
    static double max3(F3 f, double[] hint, double[]... bodies) {
        double[][] A = axes(bodies);
        int N = DIRS.length;
        double[] g = new double[N];
        for (int k = 0; k < N; k++) g[k] = f.at(DIRS[k]);
        boolean[] used = new boolean[N];
        double best = Double.NEGATIVE_INFINITY;
        for (int t = 0; t < 4; t++) {
            int b = -1;
            for (int k = 0; k < N; k++) if (!used[k] && (b < 0 || g[k] > g[b])) b = k;
            if (b < 0) break;
            for (int k = 0; k < N; k++) {
                double c = DIRS[k][0]*DIRS[b][0]+DIRS[k][1]*DIRS[b][1]+DIRS[k][2]*DIRS[b][2];
                if (c > 0.9) used[k] = true;
            }
            best = Math.max(best, climb3(f, DIRS[b], 0.15, A));
        }
        if (hint != null) best = Math.max(best, climb3(f, hint, 0.15, A));
        return best;
    }
    public static Value Gap3(Value a, Value c) {
        final double[] s = vec(a), t = vec(c);
        double[] cc = {t[5]-s[5], t[6]-s[6], t[7]-s[7]};
        return r(max3(n -> gap3(s, t, n), cc[0]*cc[0]+cc[1]*cc[1]+cc[2]*cc[2] > 1e-12 ? unit(cc) : null, s, t));
    }

    // ---- trace loading ----
    static double parse(String s) {
        switch (s) {
            case "nan": case "-nan": return Double.NaN;
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }
    static final Map<String, Value> cache = new HashMap<>();
    public static synchronized Value LoadTrace(Value f) throws Exception {
        String file = ((StringValue) f).val.toString();
        Value v = cache.get(file);
        if (v != null) return v;
        ArrayList<Value> recs = new ArrayList<>();
        for (String line : Files.readAllLines(Paths.get(file), StandardCharsets.UTF_8)) {
            if (line.isEmpty()) continue;
            recs.add(new P(line).top());
        }
        v = new TupleValue(recs.toArray(new Value[0]));
        v.deepNormalize();
        cache.put(file, v);
        return v;
    }
    public static Value TraceFile() {
        String s = System.getProperty("trace");
        return new StringValue(s == null ? "" : s);
    }
    public static Value Param(Value name, Value dflt) {
        String s = System.getProperty("p." + ((StringValue) name).val.toString());
        return s == null ? dflt : dflt instanceof StringValue ? new StringValue(s) : IntValue.gen(Integer.parseInt(s));
    }

    static class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        Value top() { Value v = val(); ws(); if (i != s.length()) throw new RuntimeException("JSON tail: " + s.substring(i)); return v; }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                LinkedHashMap<String, Value> m = new LinkedHashMap<>();
                i++; ws();
                if (s.charAt(i) == '}') { i++; }
                else while (true) {
                    ws(); String k = str(); ws(); i++; // ':'
                    m.put(k, val()); ws();
                    if (s.charAt(i++) == '}') break;
                }
                UniqueString[] names = new UniqueString[m.size()];
                Value[] vals = new Value[m.size()];
                int j = 0;
                for (Map.Entry<String, Value> e : m.entrySet()) { names[j] = UniqueString.uniqueStringOf(e.getKey()); vals[j++] = e.getValue(); }
                return new RecordValue(names, vals, false);
            }
            if (c == '[') {
                ArrayList<Value> a = new ArrayList<>();
                i++; ws();
                if (s.charAt(i) == ']') { i++; }
                else while (true) { a.add(val()); ws(); if (s.charAt(i++) == ']') break; }
                return new TupleValue(a.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(str());
            int j = i;
            while (i < s.length() && "+-.0123456789eEnaifxtrulsfNAI".indexOf(s.charAt(i)) >= 0) i++;
            String t = s.substring(j, i);
            if (t.equals("true")) return BoolValue.ValTrue;
            if (t.equals("false")) return BoolValue.ValFalse;
            if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('n') < 0) {
                long l = Long.parseLong(t);
                if (l <= Integer.MAX_VALUE && l >= Integer.MIN_VALUE) return IntValue.gen((int) l);
                return r((double) l);
            }
            return r(parse(t));
        }
        String str() {
            if (s.charAt(i) != '"') throw new RuntimeException("JSON key at " + i + ": " + s);
            StringBuilder sb = new StringBuilder(); i++;
            while (s.charAt(i) != '"') {
                char c = s.charAt(i++);
                if (c == '\\') { c = s.charAt(i++); if (c == 'n') c = '\n'; else if (c == 't') c = '\t';
                    else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; } }
                sb.append(c);
            }
            i++;
            return sb.toString();
        }
    }
}
