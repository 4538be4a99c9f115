import java.math.BigDecimal;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** The result of an operator of Num: a real number, equal to another by value. */
public class NumValue extends Value {
  final BigDecimal n;

  NumValue(BigDecimal n) { this.n = n; }

  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(Object o) { return n.compareTo(Num.get((Value) o)); }
  @Override public boolean equals(Object o) {
    try { return o instanceof Value && n.compareTo(Num.get((Value) o)) == 0; } catch (Num.NotANumber e) { return false; }
  }
  @Override public boolean member(Value v) { Assert.fail("a number has no members"); return false; }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) Assert.fail("EXCEPT on a number"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { return exs.length == 0 ? this : takeExcept(exs[exs.length - 1]); }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isFinite() { Assert.fail("a number is not a set"); return false; }
  @Override public int size() { Assert.fail("a number has no size"); return 0; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public long fingerPrint(long fp) {
    return tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(fp, USERVALUE), n.signum() == 0 ? "0" : n.stripTrailingZeros().toString());
  }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append('"').append(n.signum() == 0 ? "0" : n.stripTrailingZeros().toString()).append('"');
  }
}
