// IEEE-754 primitives for spec/Flt.tla.  A double is the tuple <<hi, lo>>.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

public class Flt {
  static double d(final Value v) {
    final TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value v(final double x) {
    final long b = Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value FInt(final IntValue n) { return v(n.val); }
  public static Value FRat(final IntValue n, final IntValue m) { return v((double) n.val / (double) m.val); }
  public static Value FAdd(final Value a, final Value b) { return v(d(a) + d(b)); }
  public static Value FSub(final Value a, final Value b) { return v(d(a) - d(b)); }
  public static Value FMul(final Value a, final Value b) { return v(d(a) * d(b)); }
  public static Value FDiv(final Value a, final Value b) { return v(d(a) / d(b)); }
  public static Value FNeg(final Value a) { return v(-d(a)); }
  public static Value FAbs(final Value a) { return v(Math.abs(d(a))); }
  public static Value FSqrt(final Value a) { return v(Math.sqrt(d(a))); }
  public static Value FSin(final Value a) { return v(Math.sin(d(a))); }
  public static Value FCos(final Value a) { return v(Math.cos(d(a))); }
  public static Value FAsin(final Value a) { return v(Math.asin(d(a))); }
  public static Value FAtan2(final Value a, final Value b) { return v(Math.atan2(d(a), d(b))); }
  public static Value FPi() { return v(Math.PI); }
  public static Value FMin(final Value a, final Value b) { return v(Math.min(d(a), d(b))); }
  public static Value FMax(final Value a, final Value b) { return v(Math.max(d(a), d(b))); }
  public static Value FLt(final Value a, final Value b) { return b(d(a) < d(b)); }
  public static Value FLe(final Value a, final Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(final Value a, final Value b) { return b(d(a) == d(b)); }
  public static Value FFin(final Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FSignBit(final Value a) { return b(Double.doubleToRawLongBits(d(a)) < 0); }
  public static Value FCeil(final Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
  public static Value FFloat(final Value a) { return v((double) (float) d(a)); }
  public static Value FStr(final Value a) { return new StringValue(Double.toString(d(a))); }
}
