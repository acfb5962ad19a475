// Replacement for TLC's Naturals module class with arbitrary-precision arithmetic.
package tlc2.module;

import java.math.BigInteger;
import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.Values;
import tlc2.value.impl.*;
import util.Assert;

public class Naturals extends UserObj implements ValueConstants {
  public static final long serialVersionUID = 20160822L;
  static {
    tlc2.tool.impl.TLARegistry.put("Plus", "+");
    tlc2.tool.impl.TLARegistry.put("Minus", "-");
    tlc2.tool.impl.TLARegistry.put("Times", "*");
    tlc2.tool.impl.TLARegistry.put("LT", "<");
    tlc2.tool.impl.TLARegistry.put("LE", "\\leq");
    tlc2.tool.impl.TLARegistry.put("GT", ">");
    tlc2.tool.impl.TLARegistry.put("GEQ", "\\geq");
    tlc2.tool.impl.TLARegistry.put("DotDot", "..");
    tlc2.tool.impl.TLARegistry.put("Neg", "-.");
    tlc2.tool.impl.TLARegistry.put("Divide", "\\div");
    tlc2.tool.impl.TLARegistry.put("Mod", "%");
    tlc2.tool.impl.TLARegistry.put("Expt", "^");
  }
  private static final UserValue SET = new UserValue(new Naturals());
  public static Value Nat() { return SET; }
  private static IntValue num(Object x, String op) {
    if (!(x instanceof IntValue)) Assert.fail("Operand of " + op + " is not an integer: " + Values.ppr(x.toString()));
    return (IntValue) x;
  }
  public static IntValue Plus(IntValue x, IntValue y) { return IntValue.add(x, y); }
  public static IntValue Minus(IntValue x, IntValue y) { return IntValue.subtract(x, y); }
  public static IntValue Times(IntValue x, IntValue y) { return IntValue.multiply(x, y); }
  public static IBoolValue LT(Value x, Value y) { return IntValue.cmp(num(x, "<"), num(y, "<")) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IBoolValue LE(Value x, Value y) { return IntValue.cmp(num(x, "<="), num(y, "<=")) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static BoolValue GT(Value x, Value y) { return IntValue.cmp(num(x, ">"), num(y, ">")) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IBoolValue GEQ(Value x, Value y) { return IntValue.cmp(num(x, ">="), num(y, ">=")) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static IntervalValue DotDot(IntValue x, IntValue y) {
    if (x.isBig() || y.isBig()) Assert.fail("Interval bound too large");
    return new IntervalValue(x.val, y.val);
  }
  public static IntValue Divide(IntValue x, IntValue y) {
    if (y.signum() == 0) Assert.fail("The second argument of \\div is 0.");
    BigInteger[] qr = x.bigInteger().divideAndRemainder(y.bigInteger());
    BigInteger q = qr[0];
    if (qr[1].signum() != 0 && (qr[1].signum() != y.signum())) q = q.subtract(BigInteger.ONE);
    return IntValue.gen(q);
  }
  public static IntValue Mod(IntValue x, IntValue y) {
    if (y.signum() <= 0) Assert.fail("The second argument of % is not positive.");
    return IntValue.gen(x.bigInteger().mod(y.bigInteger()));
  }
  public static IntValue Expt(IntValue x, IntValue y) {
    if (y.isBig() || y.val < 0) Assert.fail("Exponent out of range.");
    return IntValue.gen(x.bigInteger().pow(y.val));
  }
  public final int compareTo(Value s) {
    return (s instanceof UserValue && ((UserValue) s).userObj instanceof Naturals) ? 0 : -1;
  }
  public final boolean member(Value v) { return v instanceof IntValue && ((IntValue) v).signum() >= 0; }
  public final boolean isFinite() { return false; }
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("Nat"); }
  public String getNonEnumerableErrorMsg(tla2sany.semantic.ExprNode e) {
    return "TLC encountered the non-enumerable quantifier bound\n" + this + ".\n" + e;
  }
}
