import java.math.BigDecimal;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java evaluation of the operators declared in Num.tla (TLC picks up Num.class for module Num). */
public class Num {
  private static NumValue n(Value x) { return NumValue.of(x); }
  private static NumValue d(double x) { return NumValue.of(x); }
  private static boolean fin(NumValue a, NumValue b) { return a.cls == NumValue.FIN && b.cls == NumValue.FIN; }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static NumValue add(NumValue a, NumValue b) {
    return fin(a, b) ? new NumValue(a.v.add(b.v, NumValue.MC)) : d(a.d() + b.d());
  }
  static NumValue sub(NumValue a, NumValue b) {
    return fin(a, b) ? new NumValue(a.v.subtract(b.v, NumValue.MC)) : d(a.d() - b.d());
  }
  static NumValue mul(NumValue a, NumValue b) {
    return fin(a, b) ? new NumValue(a.v.multiply(b.v, NumValue.MC)) : d(a.d() * b.d());
  }
  static NumValue div(NumValue a, NumValue b) {
    if (fin(a, b) && b.v.signum() != 0) return new NumValue(a.v.divide(b.v, NumValue.MC));
    return d((a.cls == NumValue.FIN ? a.v.signum() : a.d()) / (b.cls == NumValue.FIN ? b.v.signum() : b.d()));
  }
  static int cmp(NumValue a, NumValue b) { return fin(a, b) ? a.v.compareTo(b.v) : Double.compare(a.d(), b.d()); }
  static boolean nan(NumValue a) { return a.cls == NumValue.NAN; }

  public static Value NOf(Value a) { return n(a); }
  public static Value NAdd(Value a, Value b) { return add(n(a), n(b)); }
  public static Value NSub(Value a, Value b) { return sub(n(a), n(b)); }
  public static Value NMul(Value a, Value b) { return mul(n(a), n(b)); }
  public static Value NDiv(Value a, Value b) { return div(n(a), n(b)); }
  public static Value NSqrt(Value x) {
    NumValue a = n(x);
    if (a.cls != NumValue.FIN || a.v.signum() < 0) return d(Math.sqrt(a.d()));
    return new NumValue(a.v.sqrt(NumValue.MC));
  }
  public static Value NLn(Value x) {
    NumValue a = n(x);
    if (a.cls != NumValue.FIN || a.v.signum() <= 0) return d(Math.log(a.d()));
    // exponent split off so that products of many determinants do not underflow
    int e = a.v.precision() - a.v.scale() - 1;
    return d(Math.log(a.v.movePointLeft(e).doubleValue()) + e * Math.log(10.0));
  }
  public static Value NExp(Value x) { return d(Math.exp(n(x).d())); }
  public static Value NHalf(Value h) {
    NumValue a = n(h);
    if (a.cls == NumValue.FIN && a.v.compareTo(BigDecimal.ONE) == 0) return new NumValue(new BigDecimal("0.5"));
    return d(Math.pow(2.0, -1.0 / a.d()));
  }
  public static Value NLt(Value a, Value b) { NumValue x = n(a), y = n(b); return bool(!nan(x) && !nan(y) && cmp(x, y) < 0); }
  public static Value NLe(Value a, Value b) { NumValue x = n(a), y = n(b); return bool(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
  public static Value NEq(Value a, Value b) { NumValue x = n(a), y = n(b); return bool(!nan(x) && !nan(y) && cmp(x, y) == 0); }
  public static Value NIsNaN(Value a) { return bool(nan(n(a))); }
  public static Value NIsFin(Value a) { return bool(n(a).cls == NumValue.FIN); }
  public static Value NSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    NumValue r = NumValue.ZERO;
    for (Value e : t.elems) r = add(r, n(e));
    return r;
  }
  public static Value NDot(Value s, Value u) {
    TupleValue a = (TupleValue) s.toTuple(), b = (TupleValue) u.toTuple();
    if (a.elems.length != b.elems.length)
      throw new RuntimeException("NDot of " + a.elems.length + " and " + b.elems.length + " numbers");
    NumValue r = NumValue.ZERO;
    for (int i = 0; i < a.elems.length; i++) r = add(r, mul(n(a.elems[i]), n(b.elems[i])));
    return r;
  }
  public static Value NToStr(Value a) { return new StringValue(n(a).text()); }
}
