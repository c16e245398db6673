import com.google.gson.stream.JsonReader;
import com.google.gson.stream.JsonToken;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluates the operators of module Reals with these methods. */
public final class Reals {
  static double d(Value v) {
    if (v instanceof RealValue) return ((RealValue) v).val;
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("not a number: " + v);
  }
  static Value r(double x) { return new RealValue(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value s) {
    if (s instanceof StringValue) return r(Double.parseDouble(((StringValue) s).val.toString()));
    return r(d(s));
  }
  public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
  public static Value RNeg(Value x) { return r(-d(x)); }
  public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
  public static Value RSqrt(Value x) { return r(Math.sqrt(d(x))); }
  public static Value RExp(Value x) { return r(Math.exp(d(x))); }
  public static Value RLn(Value x) { return r(Math.log(d(x))); }
  public static Value RLog10(Value x) { return r(StrictMath.log10(d(x))); }
  public static Value RPow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFin(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
  public static Value IsReal(Value x) { return b(x instanceof RealValue || x instanceof IntValue); }
  public static Value IsStr(Value x) { return b(x instanceof StringValue); }
  public static Value IsSeq(Value x) { return b(x instanceof TupleValue); }
  public static Value IsBool(Value x) { return b(x instanceof BoolValue); }
  public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value RFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  /** Decimal rounding of the exact binary value, ties to even on the exact value (C printf). */
  public static Value RRound(Value x, Value n) {
    double v = d(x);
    if (Double.isNaN(v) || Double.isInfinite(v)) return r(v);
    return r(new java.math.BigDecimal(v).setScale(((IntValue) n).val, java.math.RoundingMode.HALF_EVEN).doubleValue());
  }
  /** Rounding to n significant decimal digits of the exact binary value. */
  public static Value RSig(Value x, Value n) {
    double v = d(x);
    if (Double.isNaN(v) || Double.isInfinite(v) || v == 0) return r(v);
    return r(new java.math.BigDecimal(v).round(new java.math.MathContext(((IntValue) n).val, java.math.RoundingMode.HALF_EVEN)).doubleValue());
  }
  /** Integer part (towards zero) as text, padded with zeros to n characters. */
  public static Value RIntStr(Value x, Value n) {
    String s = Long.toString((long) d(x));
    int w = ((IntValue) n).val;
    boolean neg = s.startsWith("-");
    if (neg) s = s.substring(1);
    while (s.length() + (neg ? 1 : 0) < w) s = "0" + s;
    return new StringValue(neg ? "-" + s : s);
  }
  /** Sum over a sequence of reals (left to right). */
  public static Value VSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double a = 0;
    for (Value e : t.elems) a += d(e);
    return r(a);
  }

  // ------------------------------------------------------------- strings
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  /** Sequence of the lines of a text (a final newline ends the last line). */
  public static Value Lines(Value s) {
    String[] a = str(s).split("\r\n|\n|\r", -1);
    int n = a.length;
    if (n > 0 && a[n - 1].isEmpty()) n--;
    Value[] v = new Value[n];
    for (int i = 0; i < n; i++) v[i] = new StringValue(a[i]);
    return new TupleValue(v);
  }
  /** Split a string at every occurrence of a separator. */
  public static Value Split(Value s, Value sep) {
    String[] a = str(s).split(java.util.regex.Pattern.quote(str(sep)), -1);
    Value[] v = new Value[a.length];
    for (int i = 0; i < a.length; i++) v[i] = new StringValue(a[i]);
    return new TupleValue(v);
  }
  public static Value Cat(Value a, Value b2) { return new StringValue(str(a) + str(b2)); }
  public static Value Lower(Value a) { return new StringValue(str(a).toLowerCase(java.util.Locale.ROOT)); }
  public static Value Trim(Value a) { return new StringValue(str(a).trim()); }
  public static Value IStr(Value a) { return new StringValue(Integer.toString(((IntValue) a).val)); }
  public static Value StrLen(Value a) { return IntValue.gen(str(a).length()); }
  public static Value StartsWith(Value a, Value p) { return b(str(a).startsWith(str(p))); }
  public static Value EndsWith(Value a, Value p) { return b(str(a).endsWith(str(p))); }
  public static Value Contains(Value a, Value p) { return b(str(a).contains(str(p))); }
  /** TRUE iff the string is a decimal floating-point literal. */
  public static Value IsNumeral(Value a) {
    return b(str(a).trim().matches("[+-]?(\\d+\\.?\\d*|\\.\\d+)([eE][+-]?\\d+)?"));
  }

  // ------------------------------------------------------------- JSON in
  static Value read(JsonReader in) throws IOException {
    switch (in.peek()) {
      case BEGIN_ARRAY: {
        ArrayList<Value> l = new ArrayList<>();
        in.beginArray();
        while (in.hasNext()) l.add(read(in));
        in.endArray();
        return new TupleValue(l.toArray(new Value[0]));
      }
      case BEGIN_OBJECT: {
        ArrayList<UniqueString> n = new ArrayList<>();
        ArrayList<Value> l = new ArrayList<>();
        in.beginObject();
        while (in.hasNext()) { n.add(UniqueString.uniqueStringOf(in.nextName())); l.add(read(in)); }
        in.endObject();
        RecordValue rv = new RecordValue(n.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
        return rv.normalize();
      }
      case STRING: {
        String s = in.nextString();
        if (s.startsWith("\u0001#")) return r(Double.parseDouble(s.substring(2)));
        return new StringValue(s);
      }
      case BOOLEAN: return b(in.nextBoolean());
      case NULL: in.nextNull(); return new StringValue("NULL_");
      case NUMBER: {
        String s = in.nextString();
        if (s.matches("-?\\d{1,9}")) return IntValue.gen(Integer.parseInt(s));
        return r(Double.parseDouble(s));
      }
      default: throw new IOException("bad JSON");
    }
  }
  /** Newline-delimited JSON: a sequence with one value per line. */
  public static Value LoadNdJson(Value f) throws IOException {
    ArrayList<Value> l = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new InputStreamReader(new FileInputStream(str(f)), StandardCharsets.UTF_8))) {
      String line;
      while ((line = br.readLine()) != null) {
        if (line.trim().isEmpty()) continue;
        JsonReader in = new JsonReader(new StringReader(line));
        in.setLenient(true);
        l.add(read(in));
      }
    }
    return new TupleValue(l.toArray(new Value[0]));
  }
}
