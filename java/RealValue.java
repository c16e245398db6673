import java.io.IOException;
import tlc2.tool.FingerprintException;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** An IEEE-754 double as a TLC value (see spec/Reals.tla). Immutable. */
public final class RealValue extends Value {
  public final double val;

  public RealValue(double v) { this.val = v; }

  @Override public byte getKind() { return DUMMYVALUE; }
  @Override public String getKindString() { return "a real number"; }
  @Override public int compareTo(Object o) {
    if (o instanceof RealValue) return Double.compare(val, ((RealValue) o).val);
    throw new RuntimeException("Attempted to compare the real " + val + " with " + o);
  }
  @Override public boolean equals(Object o) {
    return o instanceof RealValue && Double.compare(val, ((RealValue) o).val) == 0;
  }
  @Override public boolean member(Value v) { throw new RuntimeException("a real is not a set"); }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a real");
    return ex.value;
  }
  @Override public Value takeExcept(ValueExcept[] ex) {
    Value res = this;
    for (ValueExcept e : ex) res = res.takeExcept(e);
    return res;
  }
  @Override public int size() { throw new RuntimeException("size of a real"); }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("reals must not be stored in spec variables");
  }
  @Override public long fingerPrint(long fp) {
    long b = Double.doubleToLongBits(val);
    fp = FP64.Extend(fp, (int) (b >>> 32));
    return FP64.Extend(fp, (int) b);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(Double.toString(val));
  }
}
