// Faster equivalents of some definitions of spec/Vec.tla and spec/Forms.tla, for TLC.
// "check selftest" runs TLC with and without this class and compares the results.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class Fast implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {Fast.class}; }

  @TLAPlusOperator(identifier = "VAxpy", module = "Vec", warn = false)
  public static Value axpy(Value a, IntValue k, Value b) { return HP.axpy(HP.seq(a), k.val, HP.seq(b)); }
  @TLAPlusOperator(identifier = "VScale", module = "Vec", warn = false)
  public static Value scale(IntValue k, Value a) { return HP.scale(k.val, HP.seq(a)); }
  @TLAPlusOperator(identifier = "VPut", module = "Vec", warn = false)
  public static Value put(Value a, IntValue j, Value v) { return HP.put((TupleValue) a.toTuple(), j.val, v); }
  @TLAPlusOperator(identifier = "VIsZero", module = "Vec", warn = false)
  public static Value isZero(Value a) {
    for (Value x : HP.seq(a)) if (HP.integer(x) != 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  @TLAPlusOperator(identifier = "VDot", module = "Vec", warn = false)
  public static Value dot(Value a, Value b) {
    Value[] x = HP.seq(a), y = HP.seq(b);
    int s = 0;
    for (int t = 0; t < x.length; t++) s = Math.addExact(s, Math.multiplyExact(HP.integer(x[t]), HP.integer(y[t])));
    return IntValue.gen(s);
  }
  @TLAPlusOperator(identifier = "PoleOf", module = "Forms", warn = false)
  public static Value poleOf(Value f, IntValue j) {
    Value[] g = HP.seq(f), a = HP.seq(g[0]);
    int c = -HP.integer(a[j.val - 1]);
    return HP.pair(HP.put(HP.scale(c, a), j.val, IntValue.gen(0)), HP.scale(c, HP.seq(g[1])));
  }
  @TLAPlusOperator(identifier = "Sub", module = "Forms", warn = false)
  public static Value sub(Value f, Value p, IntValue j) { return HP.sub(f, HP.seq(p), j.val); }
  @TLAPlusOperator(identifier = "AddTo", module = "Forms", warn = false)
  public static Value addTo(Value mono, Value f, IntValue n, IntValue i) {
    Value[] m = HP.seq(mono);
    for (int t = i.val - 1; t < m.length; t++) {
      Value[] e = HP.seq(m[t]);
      if (e[0].equals(f)) {
        Value[] r = m.clone();
        r[t] = HP.pair(f, IntValue.gen(HP.integer(e[1]) + n.val));
        return new TupleValue(r);
      }
    }
    Value[] r = java.util.Arrays.copyOf(m, m.length + 1);
    r[m.length] = HP.pair(f, n);
    return new TupleValue(r);
  }
}
