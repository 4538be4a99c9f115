import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.HashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC evaluation of the operators declared in spec/Num.tla: arithmetic on reals carried as strings
 * (decimal, or the C "%a" hexadecimal form that the drivers print, which is exact for doubles).
 * Sums, differences and products are exact up to 50 significant digits; quotients, square roots are
 * rounded to 50 digits.  Nothing here knows anything about scisim.
 */
public class Num {
  private static final MathContext MC = new MathContext(50);
  private static final HashMap<String, BigDecimal> CACHE = new HashMap<>();

  static synchronized BigDecimal parse(String s) {
    BigDecimal b = CACHE.get(s);
    if (b != null) return b;
    char c = s.charAt(s.length() - 1);
    if (c == 'n' || c == 'N' || c == 'f' && s.indexOf('x') < 0 || c == 'y') throw new NotANumber();
    if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) {
      b = new BigDecimal(Double.parseDouble(s.indexOf('p') >= 0 ? s : s + "p0"));
    } else {
      b = new BigDecimal(s);
    }
    if (CACHE.size() > 200000) CACHE.clear();
    CACHE.put(s, b);
    return b;
  }

  /** NaN and the infinities are not numbers: results involving them are "nan", comparisons FALSE. */
  static final class NotANumber extends RuntimeException {
    NotANumber() { super("not a number", null, false, false); }
  }

  static BigDecimal get(Value v) {
    if (v instanceof NumValue) return ((NumValue) v).n;
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("Num: not a number: " + v);
  }

  static Value put(BigDecimal b) {
    return new NumValue(b.round(MC));
  }

  static boolean zeroFree(Value b) {
    try { return get(b).signum() != 0; } catch (NotANumber e) { return false; }
  }

  static Value hex(double d) { return new NumValue(new BigDecimal(d)); }

  static final Value NAN = new StringValue("nan");

  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) {
    try { return put(get(a).add(get(b))); } catch (NotANumber e) { return NAN; }
  }
  public static Value RSub(Value a, Value b) {
    try { return put(get(a).subtract(get(b))); } catch (NotANumber e) { return NAN; }
  }
  public static Value RMul(Value a, Value b) {
    try { return put(get(a).multiply(get(b))); } catch (NotANumber e) { return NAN; }
  }
  public static Value RDiv(Value a, Value b) {
    if (!zeroFree(b)) return NAN;
    try { return put(get(a).divide(get(b), MC)); } catch (NotANumber e) { return NAN; }
  }
  public static Value RNeg(Value a) {
    try { return put(get(a).negate()); } catch (NotANumber e) { return NAN; }
  }
  public static Value RAbs(Value a) {
    try { return put(get(a).abs()); } catch (NotANumber e) { return NAN; }
  }
  public static Value RSqrt(Value a) {
    try {
    BigDecimal x = get(a);
    if (x.signum() <= 0) return put(BigDecimal.ZERO);
    return put(x.sqrt(MC));
    } catch (NotANumber e) { return NAN; }
  }
  public static Value RMin(Value a, Value b) {
    try { return put(get(a).min(get(b))); } catch (NotANumber e) { return NAN; }
  }
  public static Value RMax(Value a, Value b) {
    try { return put(get(a).max(get(b))); } catch (NotANumber e) { return NAN; }
  }
  public static Value RLt(Value a, Value b) {
    try { return bool(get(a).compareTo(get(b)) < 0); } catch (NotANumber e) { return BoolValue.ValFalse; }
  }
  public static Value RLe(Value a, Value b) {
    try { return bool(get(a).compareTo(get(b)) <= 0); } catch (NotANumber e) { return BoolValue.ValFalse; }
  }
  public static Value REq(Value a, Value b) {
    try { return bool(get(a).compareTo(get(b)) == 0); } catch (NotANumber e) { return BoolValue.ValFalse; }
  }
  public static Value RSign(Value a) {
    try { return IntValue.gen(get(a).signum()); } catch (NotANumber e) { return NAN; }
  }
  /** Largest integer not above a, as a number. */
  public static Value RFloor(Value a) {
    try { return put(get(a).setScale(0, java.math.RoundingMode.FLOOR)); } catch (NotANumber e) { return NAN; }
  }
  /** The integer nearest to zero on the way from a, as a number. */
  public static Value RTrunc(Value a) {
    try { return put(get(a).setScale(0, java.math.RoundingMode.DOWN)); } catch (NotANumber e) { return NAN; }
  }
  /** An integral number as a TLA+ integer. */
  public static Value RToInt(Value a) {
    try { return IntValue.gen(get(a).intValueExact()); } catch (NotANumber e) { return NAN; }
  }
  /** The double nearest to a, as an exact number. */
  public static Value RRound64(Value a) {
    try { return hex(get(a).doubleValue()); } catch (NotANumber e) { return NAN; }
  }
  /** cos and sin to double accuracy. */
  public static Value RCos(Value a) {
    try { return hex(StrictMath.cos(get(a).doubleValue())); } catch (NotANumber e) { return NAN; }
  }
  public static Value RSin(Value a) {
    try { return hex(StrictMath.sin(get(a).doubleValue())); } catch (NotANumber e) { return NAN; }
  }
  /** Is the string a finite number at all? */
  public static Value RFinite(Value a) {
    if (a instanceof IntValue || a instanceof NumValue) return BoolValue.ValTrue;
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    String s = ((StringValue) a).val.toString().toLowerCase();
    return bool(!(s.contains("nan") || s.contains("inf")));
  }
  public static Value RDot(Value a, Value b) {
    try {
    TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
    if (x.elems.length != y.elems.length) throw new RuntimeException("RDot: lengths differ");
    BigDecimal s = BigDecimal.ZERO;
    for (int i = 0; i < x.elems.length; i++) s = s.add(get(x.elems[i]).multiply(get(y.elems[i])));
    return put(s);
    } catch (NotANumber e) { return NAN; }
  }
  public static Value RSumSeq(Value a) {
    try {
    TupleValue x = (TupleValue) a.toTuple();
    BigDecimal s = BigDecimal.ZERO;
    for (int i = 0; i < x.elems.length; i++) s = s.add(get(x.elems[i]));
    return put(s);
    } catch (NotANumber e) { return NAN; }
  }
  public static Value VAdd(Value a, Value b) {
    TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
    if (x.elems.length != y.elems.length) throw new RuntimeException("VAdd: lengths differ");
    Value[] r = new Value[x.elems.length];
    for (int i = 0; i < r.length; i++) { try { r[i] = put(get(x.elems[i]).add(get(y.elems[i]))); } catch (NotANumber e) { r[i] = NAN; } }
    return new TupleValue(r);
  }
  public static Value VSub(Value a, Value b) {
    TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
    if (x.elems.length != y.elems.length) throw new RuntimeException("VSub: lengths differ");
    Value[] r = new Value[x.elems.length];
    for (int i = 0; i < r.length; i++) { try { r[i] = put(get(x.elems[i]).subtract(get(y.elems[i]))); } catch (NotANumber e) { r[i] = NAN; } }
    return new TupleValue(r);
  }
  public static Value VScale(Value k, Value a) {
    TupleValue x = (TupleValue) a.toTuple();
    BigDecimal s; try { s = get(k); } catch (NotANumber e) { return NAN; }
    Value[] r = new Value[x.elems.length];
    for (int i = 0; i < r.length; i++) { try { r[i] = put(s.multiply(get(x.elems[i]))); } catch (NotANumber e) { r[i] = NAN; } }
    return new TupleValue(r);
  }
  /** max_i |a_i|, 0 for the empty sequence. */
  public static Value VInf(Value a) {
    try {
    TupleValue x = (TupleValue) a.toTuple();
    BigDecimal m = BigDecimal.ZERO;
    for (int i = 0; i < x.elems.length; i++) m = m.max(get(x.elems[i]).abs());
    return put(m);
    } catch (NotANumber e) { return NAN; }
  }
}
