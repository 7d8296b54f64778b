// Accelerators for spec/Lin.tla (same results as the TLA+ definitions there).
import tlc2.value.impl.*;

public class Lin {
  static double[] a(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Flt.d(e[i]);
    return r;
  }
  static double[][] m(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = a(e[i]);
    return r;
  }
  static Value v(final double... x) {
    final Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = Flt.v(x[i]);
    return new TupleValue(e);
  }
  static Value v(final double[][] x) {
    final Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  static void same(final double[] x, final double[] y) {
    if (x.length != y.length) throw new RuntimeException("vector lengths differ: " + x.length + " " + y.length);
  }
  public static Value VAdd(final Value p, final Value q) { final double[] x = a(p), y = a(q); same(x, y); for (int i = 0; i < x.length; i++) x[i] += y[i]; return v(x); }
  public static Value VSub(final Value p, final Value q) { final double[] x = a(p), y = a(q); same(x, y); for (int i = 0; i < x.length; i++) x[i] -= y[i]; return v(x); }
  public static Value VMul(final Value p, final Value q) { final double[] x = a(p), y = a(q); same(x, y); for (int i = 0; i < x.length; i++) x[i] *= y[i]; return v(x); }
  public static Value VScale(final Value s, final Value p) { final double k = Flt.d(s); final double[] x = a(p); for (int i = 0; i < x.length; i++) x[i] = k * x[i]; return v(x); }
  public static Value VNeg(final Value p) { final double[] x = a(p); for (int i = 0; i < x.length; i++) x[i] = -x[i]; return v(x); }
  static double dot(final double[] x, final double[] y) { same(x, y); double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return s; }
  static double maxabs(final double[] x) { double s = 0; for (double e : x) s = Math.max(s, Math.abs(e)); return s; }
  public static Value VSum(final Value p) { double s = 0; for (double e : a(p)) s += e; return Flt.v(s); }
  public static Value VDot(final Value p, final Value q) { return Flt.v(dot(a(p), a(q))); }
  public static Value VNorm(final Value p) { final double[] x = a(p); return Flt.v(Math.sqrt(dot(x, x))); }
  public static Value VMaxAbs(final Value p) { return Flt.v(maxabs(a(p))); }
  public static Value VClamp(final Value p, final Value l, final Value h) {
    final double[] x = a(p), lo = a(l), hi = a(h); same(x, lo); same(x, hi);
    for (int i = 0; i < x.length; i++) x[i] = hi[i] < x[i] ? hi[i] : x[i] < lo[i] ? lo[i] : x[i];
    return v(x);
  }
  public static Value VSqSign(final Value p) { final double[] x = a(p); for (int i = 0; i < x.length; i++) x[i] = x[i] * Math.abs(x[i]); return v(x); }
  public static Value VFin(final Value p) { for (double e : a(p)) if (Double.isNaN(e) || Double.isInfinite(e)) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value VIsZero(final Value p) { for (double e : a(p)) if (e != 0) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value VSame(final Value p, final Value q) {
    final double[] x = a(p), y = a(q);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++)
      if (!(x[i] == y[i] || Double.doubleToRawLongBits(x[i]) == Double.doubleToRawLongBits(y[i]))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  static double[] cross(final double[] x, final double[] y) {
    return new double[] {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]};
  }
  public static Value Cross(final Value p, final Value q) { return v(cross(a(p), a(q))); }
  public static Value VUnit(final Value p) {
    final double[] x = a(p); final double n = Math.sqrt(dot(x, x));
    if (!(0 < n)) return v(x);
    for (int i = 0; i < x.length; i++) x[i] /= n;
    return v(x);
  }
  public static Value VNear(final Value p, final Value q, final Value r) {
    final double[] x = a(p), y = a(q);
    if (x.length != y.length) return BoolValue.ValFalse;
    final double tol = Flt.d(r) * (1 + (maxabs(x) + maxabs(y)));
    for (int i = 0; i < x.length; i++)
      if (!(Double.doubleToRawLongBits(x[i]) == Double.doubleToRawLongBits(y[i]) || Math.abs(x[i] - y[i]) <= tol)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MVec(final Value M, final Value p) {
    final double[][] A = m(M); final double[] x = a(p), r = new double[A.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(A[i], x);
    return v(r);
  }
  static double[][] t(final double[][] A) {
    final double[][] r = new double[A[0].length][A.length];
    for (int i = 0; i < A.length; i++) for (int j = 0; j < A[0].length; j++) r[j][i] = A[i][j];
    return r;
  }
  public static Value MT(final Value M) { return v(t(m(M))); }
  public static Value MMul(final Value P, final Value Q) {
    final double[][] A = m(P), B = t(m(Q)), r = new double[A.length][B.length];
    for (int i = 0; i < A.length; i++) for (int j = 0; j < B.length; j++) r[i][j] = dot(A[i], B[j]);
    return v(r);
  }
  public static Value Det3(final Value M) { final double[][] A = m(M); return Flt.v(dot(A[0], cross(A[1], A[2]))); }
  public static Value Inv3(final Value M) {
    final double[][] A = m(M);
    final double[] c1 = cross(A[1], A[2]), c2 = cross(A[2], A[0]), c3 = cross(A[0], A[1]);
    final double det = dot(A[0], c1);
    final double[][] r = new double[3][3];
    for (int i = 0; i < 3; i++) { r[i][0] = c1[i] / det; r[i][1] = c2[i] / det; r[i][2] = c3[i] / det; }
    return v(r);
  }
  public static Value QMul(final Value P, final Value Q) {
    final double[] p = a(P), q = a(Q);
    return v(p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
             p[0]*q[2]+p[2]*q[0]+p[3]*q[1]-p[1]*q[3], p[0]*q[3]+p[3]*q[0]+p[1]*q[2]-p[2]*q[1]);
  }
  public static Value QInv(final Value Q) { final double[] q = a(Q); final double n = dot(q, q); return v(q[0]/n, -q[1]/n, -q[2]/n, -q[3]/n); }
  static double[] qrot(final double[] q, final double[] x) {
    final double[] u = {q[1], q[2], q[3]}, t = cross(u, x);
    for (int i = 0; i < 3; i++) t[i] = 2 * t[i];
    final double[] c = cross(u, t), r = new double[3];
    for (int i = 0; i < 3; i++) r[i] = (x[i] + q[0] * t[i]) + c[i];
    return r;
  }
  public static Value QRot(final Value Q, final Value X) { return v(qrot(a(Q), a(X))); }
  public static Value QMat(final Value Q) {
    final double[] q = a(Q);
    return v(t(new double[][] {qrot(q, new double[] {1,0,0}), qrot(q, new double[] {0,1,0}), qrot(q, new double[] {0,0,1})}));
  }
}
