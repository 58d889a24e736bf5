// Arbitrary precision complex numbers for TLC: the operators of spec/HP.tla.
// A number is a pair of BigDecimals rounded to DIGITS significant digits.
// Nothing here knows about Matsubara sums: it is +, *, 1/x, powers, and the
// exact value of a decimal string.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class HP implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {HP.class}; }

  static final MathContext MC = new MathContext(70, RoundingMode.HALF_EVEN);
  static final BigDecimal Z = BigDecimal.ZERO, ONE = BigDecimal.ONE;
  static final BigDecimal LN2 = new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068000949339362196969471560586332699641868754200148102057");
  static final BigDecimal PI = new BigDecimal("3.1415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821480865");

  static final class Num extends UserObj {
    final BigDecimal r, i;
    Num(BigDecimal r, BigDecimal i) { this.r = r; this.i = i; }
    public int compareTo(Value v) {
      Num o = num(v);
      int c = r.compareTo(o.r);
      return c != 0 ? c : i.compareTo(o.i);
    }
    public boolean member(Value v) { throw new RuntimeException("HP: not a set"); }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
      MathContext s = new MathContext(17);
      return sb.append('"').append(r.round(s)).append(i.signum() == 0 ? "" : " " + i.round(s) + "i").append('"');
    }
  }
  static Num num(Object v) { return (Num) ((UserValue) v).userObj; }
  static UserValue val(BigDecimal r, BigDecimal i) { return new UserValue(new Num(r, i)); }
  static UserValue val(BigDecimal r) { return val(r, Z); }
  static Num add(Num a, Num b) {
    return new Num(a.r.add(b.r, MC), a.i.signum() == 0 ? b.i : b.i.signum() == 0 ? a.i : a.i.add(b.i, MC));
  }
  static Num mul(Num a, Num b) {
    boolean ra = a.i.signum() == 0, rb = b.i.signum() == 0;
    if (ra && rb) return new Num(a.r.multiply(b.r, MC), Z);
    if (ra) return new Num(a.r.multiply(b.r, MC), a.r.multiply(b.i, MC));
    if (rb) return new Num(a.r.multiply(b.r, MC), a.i.multiply(b.r, MC));
    return new Num(a.r.multiply(b.r).subtract(a.i.multiply(b.i), MC), a.r.multiply(b.i).add(a.i.multiply(b.r), MC));
  }
  static Num inv(Num a) {
    if (a.i.signum() == 0) {
      if (a.r.signum() == 0) throw new RuntimeException("HP: division by zero");
      return new Num(ONE.divide(a.r, MC), Z);
    }
    BigDecimal n = a.r.multiply(a.r).add(a.i.multiply(a.i), MC);
    return new Num(a.r.divide(n, MC), a.i.negate().divide(n, MC));
  }
  static Num pow(Num a, int n) {
    if (n < 0) { a = inv(a); n = -n; }
    Num p = new Num(ONE, Z);
    while (n > 0) {
      if ((n & 1) != 0) p = mul(p, a);
      n >>= 1;
      if (n > 0) a = mul(a, a);
    }
    return p;
  }
  static UserValue val(Num n) { return new UserValue(n); }
  static int integer(Object v) { return ((IntValue) v).val; }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static boolean zero(Num a) { return a.r.signum() == 0 && a.i.signum() == 0; }
  static BigDecimal norm(Num a) { return a.r.abs().add(a.i.abs(), MC); }

  @TLAPlusOperator(identifier = "HPRat", module = "HP", warn = false)
  public static Value rat(IntValue n, IntValue d) {
    return val(BigDecimal.valueOf(n.val).divide(BigDecimal.valueOf(d.val), MC));
  }
  @TLAPlusOperator(identifier = "HPCx", module = "HP", warn = false)
  public static Value cx(Value a, Value b) { // a + i b
    Num x = num(a), y = num(b);
    return val(x.r.subtract(y.i, MC), x.i.add(y.r, MC));
  }
  @TLAPlusOperator(identifier = "HPAdd", module = "HP", warn = false)
  public static Value hadd(Value a, Value b) { return val(add(num(a), num(b))); }
  @TLAPlusOperator(identifier = "HPMul", module = "HP", warn = false)
  public static Value hmul(Value a, Value b) { return val(mul(num(a), num(b))); }
  @TLAPlusOperator(identifier = "HPNeg", module = "HP", warn = false)
  public static Value neg(Value a) { Num x = num(a); return val(x.r.negate(), x.i.negate()); }
  @TLAPlusOperator(identifier = "HPInv", module = "HP", warn = false)
  public static Value hinv(Value a) { return val(inv(num(a))); }
  @TLAPlusOperator(identifier = "HPPow", module = "HP", warn = false)
  public static Value hpow(Value a, IntValue n) { return val(pow(num(a), n.val)); }
  @TLAPlusOperator(identifier = "HPDot", module = "HP", warn = false)
  public static Value dot(Value ns, Value vs) {
    Value[] n = seq(ns), v = seq(vs);
    BigDecimal r = Z, i = Z;
    for (int k = 0; k < n.length; k++) {
      int c = integer(n[k]);
      if (c == 0) continue;
      BigDecimal b = BigDecimal.valueOf(c);
      Num x = num(v[k]);
      r = r.add(x.r.multiply(b), MC);
      if (x.i.signum() != 0) i = i.add(x.i.multiply(b), MC);
    }
    return val(r, i);
  }
  @TLAPlusOperator(identifier = "HPProdPow", module = "HP", warn = false)
  public static Value prodpow(Value vs, Value ns) {
    Value[] n = seq(ns), v = seq(vs);
    Num p = new Num(ONE, Z);
    for (int k = 0; k < n.length; k++) {
      int c = integer(n[k]);
      if (c != 0) p = mul(p, pow(num(v[k]), c));
    }
    return val(p);
  }
  // exp(a): Taylor series after division by a power of two, with guard digits
  @TLAPlusOperator(identifier = "HPExp", module = "HP", warn = false)
  public static Value exp(Value a) {
    Num x = num(a);
    MathContext g = new MathContext(100, RoundingMode.HALF_EVEN);
    BigDecimal two = BigDecimal.valueOf(2), r = x.r, i = x.i;
    int k = 0;
    while (r.abs().add(i.abs()).compareTo(new BigDecimal("0.01")) > 0) { r = r.divide(two, g); i = i.divide(two, g); k++; }
    BigDecimal sr = ONE, si = Z, tr = ONE, ti = Z;
    for (int n = 1; n < 45; n++) {
      BigDecimal d = BigDecimal.valueOf(n);
      BigDecimal ur = tr.multiply(r).subtract(ti.multiply(i)).divide(d, g);
      ti = tr.multiply(i).add(ti.multiply(r)).divide(d, g);
      tr = ur;
      sr = sr.add(tr, g); si = si.add(ti, g);
    }
    for (; k > 0; k--) {
      BigDecimal ur = sr.multiply(sr).subtract(si.multiply(si)).round(g);
      si = two.multiply(sr).multiply(si).round(g);
      sr = ur;
    }
    return val(sr.round(MC), si.round(MC));
  }
  @TLAPlusOperator(identifier = "HPLn2", module = "HP", warn = false)
  public static Value ln2() { return val(LN2); }
  @TLAPlusOperator(identifier = "HPPi", module = "HP", warn = false)
  public static Value pi() { return val(PI); }
  @TLAPlusOperator(identifier = "HPNorm", module = "HP", warn = false)
  public static Value hnorm(Value a) { return val(norm(num(a))); }
  @TLAPlusOperator(identifier = "HPRe", module = "HP", warn = false)
  public static Value re(Value a) { return val(num(a).r); }
  @TLAPlusOperator(identifier = "HPIsZero", module = "HP", warn = false)
  public static Value isZero(Value a) { return zero(num(a)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "HPLe", module = "HP", warn = false)
  public static Value le(Value a, Value b) { return num(a).r.compareTo(num(b).r) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "HPTen", module = "HP", warn = false)
  public static Value ten(IntValue n) { return val(ONE.scaleByPowerOfTen(n.val)); }
  // distance of the real part from the nearest integer
  @TLAPlusOperator(identifier = "HPFrac", module = "HP", warn = false)
  public static Value frac(Value a) {
    BigDecimal r = num(a).r;
    return val(r.subtract(new BigDecimal(r.setScale(0, RoundingMode.HALF_EVEN).unscaledValue())).abs());
  }
  // the exact value of a decimal string; "nan", "inf" and "-inf" are not numbers
  @TLAPlusOperator(identifier = "HPFinite", module = "HP", warn = false)
  public static Value finite(Value s) {
    String t = ((StringValue) s).val.toString();
    return t.equals("nan") || t.equals("inf") || t.equals("-inf") ? BoolValue.ValFalse : BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "HPParse", module = "HP", warn = false)
  public static Value parse(Value s) { return val(new BigDecimal(((StringValue) s).val.toString())); }

  @TLAPlusOperator(identifier = "HPShow", module = "HP", warn = false)
  public static Value show(Value a) { Num x = num(a); return new StringValue(x.r + " " + x.i); }
  @TLAPlusOperator(identifier = "HPRead", module = "HP", warn = false)
  public static Value read(Value s) {
    String[] t = ((StringValue) s).val.toString().split(" ");
    return val(new BigDecimal(t[0]), new BigDecimal(t[1]));
  }

  // Helpers of Fast.java.
  static IntValue I(int n) { return IntValue.gen(n); }
  static TupleValue axpy(Value[] a, int k, Value[] b) {
    Value[] r = new Value[a.length];
    for (int t = 0; t < r.length; t++) r[t] = I(Math.addExact(integer(a[t]), Math.multiplyExact(k, integer(b[t]))));
    return new TupleValue(r);
  }
  static TupleValue scale(int k, Value[] a) {
    Value[] r = new Value[a.length];
    for (int t = 0; t < r.length; t++) r[t] = I(Math.multiplyExact(k, integer(a[t])));
    return new TupleValue(r);
  }
  static TupleValue put(TupleValue a, int j, Value v) {
    Value[] r = a.elems.clone();
    if (j >= 1 && j <= r.length) r[j - 1] = v;
    return new TupleValue(r);
  }
  static TupleValue pair(Value a, Value b) { return new TupleValue(new Value[] {a, b}); }
  static TupleValue sub(Value f, Value[] p, int j) {
    Value[] g = seq(f), a = seq(g[0]);
    int c = integer(a[j - 1]);
    if (c == 0) return (TupleValue) f.toTuple();
    return pair(put(axpy(a, c, seq(p[0])), j, I(0)), axpy(seq(g[1]), c, seq(p[1])));
  }
}
