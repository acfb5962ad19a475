// Replacement for TLC's IntValue: identical for 32-bit values, and additionally
// able to hold arbitrary-precision integers (canonical: a value that fits an int
// is always held in `val`, never in `big`).  Shadowed on the class path, see run.py.
package tlc2.value.impl;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import util.Assert;

public class IntValue extends Value {
  private static final IntValue[] cache = new IntValue[512];
  static {
    for (int i = 0; i < cache.length; i++) cache[i] = new IntValue(i);
  }
  public static final IntValue ValNegOne = gen(-1);
  public static final IntValue ValOne = gen(1);
  public static final IntValue ValZero = gen(0);

  /** Value when it fits 32 bits.  Integer.MIN_VALUE together with big != null otherwise. */
  public final int val;
  private final BigInteger big;

  private IntValue(int v) { this.val = v; this.big = null; }
  private IntValue(BigInteger b) { this.val = Integer.MIN_VALUE; this.big = b; }

  public static IntValue gen(int i) {
    return (i >= 0 && i < cache.length) ? cache[i] : new IntValue(i);
  }
  public static IntValue gen(long l) {
    return ((int) l) == l ? gen((int) l) : new IntValue(BigInteger.valueOf(l));
  }
  public static IntValue gen(BigInteger b) {
    return b.bitLength() < 32 ? gen(b.intValue()) : new IntValue(b);
  }
  public final boolean isBig() { return big != null; }
  public final BigInteger bigInteger() { return big != null ? big : BigInteger.valueOf(val); }
  public final int signum() { return big != null ? big.signum() : Integer.signum(val); }

  public static final int nbits(int tmp) {
    int nb = 0;
    while (tmp != 0 && tmp != -1) { nb++; tmp >>= 1; }
    return nb + 1;
  }
  public static IntValue sum(IntValue a, IntValue b) { return add(a, b); }
  public static IntValue add(IntValue a, IntValue b) {
    if (a.big == null && b.big == null) return gen((long) a.val + (long) b.val);
    return gen(a.bigInteger().add(b.bigInteger()));
  }
  public static IntValue subtract(IntValue a, IntValue b) {
    if (a.big == null && b.big == null) return gen((long) a.val - (long) b.val);
    return gen(a.bigInteger().subtract(b.bigInteger()));
  }
  public static IntValue multiply(IntValue a, IntValue b) {
    if (a.big == null && b.big == null) return gen((long) a.val * (long) b.val);
    return gen(a.bigInteger().multiply(b.bigInteger()));
  }
  public static int cmp(IntValue a, IntValue b) {
    if (a.big == null && b.big == null) return Integer.compare(a.val, b.val);
    return a.bigInteger().compareTo(b.bigInteger());
  }

  public final byte getKind() { return INTVALUE; }
  public final int nbits() { return nbits(this.val); }

  public final int compareTo(Object obj) {
    if (obj instanceof IntValue) return cmp(this, (IntValue) obj);
    if (!(obj instanceof ModelValue))
      Assert.fail("Attempted to compare integer " + Values.ppr(this.toString()) + " with non-integer:\n"
          + Values.ppr(obj.toString()), getSource());
    return ((ModelValue) obj).modelValueCompareTo(this);
  }
  public final boolean equals(Object obj) {
    if (obj instanceof IntValue) {
      IntValue o = (IntValue) obj;
      return val == o.val && (big == null ? o.big == null : big.equals(o.big));
    }
    if (!(obj instanceof ModelValue))
      Assert.fail("Attempted to check equality of integer " + Values.ppr(this.toString()) + " with non-integer:\n"
          + Values.ppr(obj.toString()), getSource());
    return ((ModelValue) obj).modelValueEquals(this);
  }
  public final boolean member(Value elem) {
    Assert.fail("Attempted to check if the value:\n" + Values.ppr(elem.toString())
        + "\nis an element of the integer " + Values.ppr(this.toString()), getSource());
    return false;
  }
  public final boolean isFinite() {
    Assert.fail("Attempted to check if the integer " + Values.ppr(this.toString()) + " is a finite set.", getSource());
    return false;
  }
  public final Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length)
      Assert.fail("Attempted to appy EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".", getSource());
    return ex.value;
  }
  public final Value takeExcept(ValueExcept[] exs) {
    if (exs.length != 0)
      Assert.fail("Attempted to apply EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".", getSource());
    return this;
  }
  public final int size() {
    Assert.fail("Attempted to compute the number of elements in the integer " + Values.ppr(this.toString()) + ".", getSource());
    return 0;
  }
  public boolean mutates() { return false; }
  public final boolean isNormalized() { return true; }
  public final Value normalize() { return this; }
  public final boolean isDefined() { return true; }
  public final IValue deepCopy() { return this; }

  public void write(IValueOutputStream vos) throws IOException {
    if (big != null) throw new IOException("big integers cannot be spilled to disk");
    vos.writeByte(INTVALUE);
    vos.writeInt(val);
  }
  public final long fingerPrint(long fp) {
    long f = FP64.Extend(FP64.Extend(fp, INTVALUE), this.val);
    if (big != null) for (byte b : big.toByteArray()) f = FP64.Extend(f, b);
    return f;
  }
  public final IValue permute(IMVPerm perm) { return this; }
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return big == null ? sb.append(val) : sb.append(big.toString());
  }
  public static Value narrowToIntValue(long v) {
    return ((int) v) != v ? ValNegOne : gen((int) v);
  }
}
