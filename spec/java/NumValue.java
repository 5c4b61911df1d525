import java.io.IOException;
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/**
 * A real number inside TLC: a decimal of 34 digits, or one of nan, inf, -inf with IEEE meaning.
 * Fingerprints and serialises as the string of its canonical decimal form.
 */
public final class NumValue extends Value {
  static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);
  static final byte FIN = 0, NAN = 1, PINF = 2, NINF = 3;

  final byte cls;
  final BigDecimal v;

  static final NumValue NaN = new NumValue(NAN), INF = new NumValue(PINF), NEGINF = new NumValue(NINF);
  static final NumValue ZERO = new NumValue(BigDecimal.ZERO), ONE = new NumValue(BigDecimal.ONE);

  private NumValue(byte c) { cls = c; v = null; }
  // no run-away exponents: zeros are plain, and nothing this small matters
  NumValue(BigDecimal b) { cls = FIN; v = b.signum() == 0 || b.precision() - (long) b.scale() < -20000 ? BigDecimal.ZERO : b; }

  static NumValue of(double d) {
    if (Double.isNaN(d)) return NaN;
    if (Double.isInfinite(d)) return d > 0 ? INF : NEGINF;
    return new NumValue(new BigDecimal(d, MC));
  }

  static NumValue of(Value x) {
    if (x instanceof NumValue) return (NumValue) x;
    if (x instanceof IntValue) return new NumValue(BigDecimal.valueOf(((IntValue) x).val));
    if (x instanceof StringValue) {
      String s = ((StringValue) x).val.toString();
      switch (s) {
        case "nan": return NaN;
        case "inf": return INF;
        case "-inf": return NEGINF;
        default: return new NumValue(new BigDecimal(s));
      }
    }
    throw new RuntimeException("Num operator applied to the non-number " + x);
  }

  double d() {
    switch (cls) {
      case NAN: return Double.NaN;
      case PINF: return Double.POSITIVE_INFINITY;
      case NINF: return Double.NEGATIVE_INFINITY;
      default: return v.doubleValue();
    }
  }

  String text() {
    switch (cls) {
      case NAN: return "nan";
      case PINF: return "inf";
      case NINF: return "-inf";
      default: return v.signum() == 0 ? "0" : v.stripTrailingZeros().toString();
    }
  }

  @Override public byte getKind() { return STRINGVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof Value) return text().compareTo(of((Value) o).text());
    throw new RuntimeException("cannot compare number with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof NumValue || o instanceof StringValue || o instanceof IntValue)
      return text().equals(of((Value) o).text());
    throw new RuntimeException("cannot compare number with " + o);
  }
  @Override public boolean member(Value x) { throw new RuntimeException("number is not a set"); }
  @Override public boolean isFinite() { throw new RuntimeException("number is not a set"); }
  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("number is not a function");
    return ex.value;
  }
  @Override public Value takeExcept(ValueExcept[] ex) {
    Value r = this;
    for (ValueExcept e : ex) r = ((NumValue) this).takeExcept(e);
    return r;
  }
  @Override public int size() { throw new RuntimeException("number is not a set"); }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException { new StringValue(text()).write(vos); }
  @Override public long fingerPrint(long fp) {
    String s = text();
    fp = FP64.Extend(fp, STRINGVALUE);
    fp = FP64.Extend(fp, s.length());
    return FP64.Extend(fp, s);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    String t = cls == FIN ? (v.signum() == 0 ? "0" : v.round(new MathContext(17)).stripTrailingZeros().toString()) : text();
    return sb.append('"').append(t).append('"');
  }
}
