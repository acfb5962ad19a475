// Native evaluation of the operators of spec/BigMath.tla (same definitions,
// checked against the TLA+ ones by spec/BigMathTest.tla).
package tlc2.module;

import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import java.io.BufferedReader;
import java.math.BigInteger;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.Map;
import tlc2.tool.impl.Tool;
import tlc2.value.Values;
import tlc2.value.impl.*;
import util.Assert;
import util.UniqueString;

public class BigMath {
  private static IntValue num(Value x) {
    if (!(x instanceof IntValue)) Assert.fail("not an integer: " + Values.ppr(x.toString()));
    return (IntValue) x;
  }
  private static BigInteger big(Value x) { return num(x).bigInteger(); }
  private static int small(Value x) {
    IntValue v = num(x);
    if (v.isBig()) Assert.fail("integer too large: " + v);
    return v.val;
  }
  private static byte[] bytes(Value x) {
    TupleValue t = (TupleValue) x.toTuple();
    if (t == null) Assert.fail("not a byte string: " + Values.ppr(x.toString()));
    byte[] r = new byte[t.elems.length];
    for (int i = 0; i < r.length; i++) {
      int v = small(t.elems[i]);
      if (v < 0 || v > 255) Assert.fail("not a byte: " + v);
      r[i] = (byte) v;
    }
    return r;
  }
  private static Value tuple(byte[] b, int n, boolean rev) {
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = IntValue.gen(b[rev ? n - 1 - i : i] & 0xff);
    return new TupleValue(e);
  }
  public static Value PowMod(Value a, Value e, Value m) { return IntValue.gen(big(a).modPow(big(e), big(m))); }
  public static Value BitOf(Value n, Value i) {
    return big(n).testBit(small(i)) ? IntValue.ValOne : IntValue.ValZero;
  }
  public static Value BitLen(Value n) { return IntValue.gen(big(n).bitLength()); }
  private static BigInteger be(byte[] b) { return new BigInteger(1, b); }
  private static void rev(byte[] b) {
    for (int i = 0, j = b.length - 1; i < j; i++, j--) { byte t = b[i]; b[i] = b[j]; b[j] = t; }
  }
  public static Value LeInt(Value b) { byte[] x = bytes(b); rev(x); return IntValue.gen(be(x)); }
  public static Value BeInt(Value b) { return IntValue.gen(be(bytes(b))); }
  private static byte[] fixed(Value v, Value n) { // big endian, exactly n bytes, v mod 256^n
    int k = small(n);
    byte[] r = big(v).mod(BigInteger.ONE.shiftLeft(8 * k)).toByteArray();
    byte[] o = new byte[k];
    for (int i = 0; i < k && i < r.length; i++) o[k - 1 - i] = r[r.length - 1 - i];
    return o;
  }
  public static Value Enc(Value v, Value n) { return tuple(fixed(v, n), small(n), true); }
  public static Value EncBE(Value v, Value n) { return tuple(fixed(v, n), small(n), false); }
  public static Value Xor(Value a, Value b) { return IntValue.gen(big(a).xor(big(b))); }
  public static Value And(Value a, Value b) { return IntValue.gen(big(a).and(big(b))); }
  private static final BigInteger M64 = BigInteger.ONE.shiftLeft(64).subtract(BigInteger.ONE);
  private static long w64(Value a) { return big(a).longValue(); }
  private static Value u64(long x) {
    return IntValue.gen(x >= 0 ? BigInteger.valueOf(x) : BigInteger.valueOf(x).and(M64));
  }
  public static Value Not64(Value a) { return u64(~w64(a)); }
  public static Value RotR64(Value a, Value n) { return u64(Long.rotateRight(w64(a), small(n))); }
  public static Value RotL64(Value a, Value n) { return u64(Long.rotateLeft(w64(a), small(n))); }
  private static String str(Value s) { return ((StringValue) s).getVal().toString(); }
  public static Value Hex(Value s) { return IntValue.gen(new BigInteger(str(s), 16)); }
  private static Value hex(String h) {
    int n = h.length() / 2;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = IntValue.gen(Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16));
    return new TupleValue(e);
  }
  public static Value HexBytes(Value s) { return hex(str(s)); }
  public static Value Ascii(Value s) {
    String t = str(s);
    Value[] e = new Value[t.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen((int) t.charAt(i));
    return new TupleValue(e);
  }
  // a function with domain 1..n as an evaluated sequence
  public static Value Tup(Value f) {
    TupleValue t = (TupleValue) f.toTuple();
    if (t == null) Assert.fail("not a sequence: " + Values.ppr(f.toString()));
    t.deepNormalize();
    return t;
  }
  private static final Map<String, Value> traces = new HashMap<>();
  private static Value conv(JsonElement j) {
    if (j.isJsonArray()) {
      JsonArray a = j.getAsJsonArray();
      Value[] e = new Value[a.size()];
      for (int i = 0; i < e.length; i++) e[i] = conv(a.get(i));
      return new TupleValue(e);
    }
    if (j.isJsonObject()) {
      JsonObject o = j.getAsJsonObject();
      int n = o.size(), i = 0;
      UniqueString[] names = new UniqueString[n];
      Value[] vals = new Value[n];
      for (Map.Entry<String, JsonElement> m : o.entrySet()) {
        names[i] = UniqueString.uniqueStringOf(m.getKey());
        vals[i++] = conv(m.getValue());
      }
      return new RecordValue(names, vals, false);
    }
    if (j.getAsJsonPrimitive().isBoolean()) return j.getAsBoolean() ? BoolValue.ValTrue : BoolValue.ValFalse;
    if (j.getAsJsonPrimitive().isNumber()) return IntValue.gen(new BigInteger(j.getAsString()));
    String s = j.getAsString();
    if (s.startsWith("x:")) return hex(s.substring(2));
    if (s.startsWith("w:")) {
      String[] t = s.substring(2).split("\\.");
      Value[] e = new Value[t.length];
      for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(new BigInteger(t[i], 16));
      return new TupleValue(e);
    }
    return new StringValue(UniqueString.uniqueStringOf(s));
  }
  public static synchronized Value LoadTrace(Value file) {
    String f = str(file);
    Value v = traces.get(f);
    if (v != null) return v;
    ArrayList<Value> l = new ArrayList<>();
    try (BufferedReader r = Files.newBufferedReader(Paths.get(f))) {
      String line;
      while ((line = r.readLine()) != null) {
        if (line.isEmpty()) continue;
        Value x = conv(new JsonParser().parse(line));
        x.deepNormalize();
        l.add(x);
      }
    } catch (Exception e) {
      Assert.fail("cannot read trace " + f + ": " + e);
    }
    v = new TupleValue(l.toArray(new Value[0]));
    v.deepNormalize();
    traces.put(f, v);
    return v;
  }
  // sum of the products of two sequences
  public static Value Dot(Value a, Value b) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < x.length; i++) r = r.add(big(x[i]).multiply(big(y[i])));
    return IntValue.gen(r);
  }
  public static Value FoldN(Value op, Value init, Value n) {
    OpValue f = (OpValue) op;
    Value acc = init;
    int k = small(n);
    Value[] args = new Value[2];
    for (int i = 1; i <= k; i++) {
      args = new Value[] {acc, IntValue.gen(i)};
      acc = f.eval(args, tlc2.tool.EvalControl.Clear);
    }
    return acc;
  }
}
