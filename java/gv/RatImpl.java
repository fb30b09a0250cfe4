package gv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Exact rational arithmetic for TLC. A number is its canonical string: "n" or "n/d" in lowest terms
 * with d > 1, or one of "nan", "inf", "-inf". TLC's own integers have 32 bits and no fractions.
 * The transcendental operators are correct to about 1e-15 relative.
 */
public class RatImpl {
  static final class Q {
    final BigInteger n, d; // d > 0; d == null: not finite
    final int kind; // 0 finite, 1 inf, -1 -inf, 2 nan
    String s;

    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) {
        n = n.negate();
        d = d.negate();
      }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) {
          n = n.divide(g);
          d = d.divide(g);
        }
      }
      this.n = n;
      this.d = d;
      kind = 0;
    }

    Q(int kind) {
      n = null;
      d = null;
      this.kind = kind;
    }

    boolean fin() {
      return kind == 0;
    }

    public String toString() {
      if (s == null) {
        if (kind == 1) s = "inf";
        else if (kind == -1) s = "-inf";
        else if (kind == 2) s = "nan";
        else s = d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
      }
      return s;
    }

    BigDecimal dec() {
      return new BigDecimal(n).divide(new BigDecimal(d), MC);
    }

    double dbl() {
      if (kind == 1) return Double.POSITIVE_INFINITY;
      if (kind == -1) return Double.NEGATIVE_INFINITY;
      if (kind == 2) return Double.NaN;
      return dec().doubleValue();
    }
  }

  static final MathContext MC = new MathContext(60);
  static final Q NAN = new Q(2), INF = new Q(1), NINF = new Q(-1);
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

  static Q parse(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (!(v instanceof StringValue))
      throw new RuntimeException("Rat: not a number: " + v);
    return parse(((StringValue) v).val.toString());
  }

  static Q parse(String s) {
    if (s.equals("nan")) return NAN;
    if (s.equals("inf")) return INF;
    if (s.equals("-inf")) return NINF;
    int i = s.indexOf('/');
    try {
      if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
      return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    } catch (NumberFormatException e) {
      throw new RuntimeException("Rat: not a number: \"" + s + "\"");
    }
  }

  static Value out(Q q) {
    return new StringValue(q.toString());
  }

  static Q add(Q a, Q b) {
    if (a.fin() && b.fin()) {
      if (a.d.equals(b.d)) return new Q(a.n.add(b.n), a.d);
      return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    return of(a.dbl() + b.dbl());
  }

  static Q of(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
    BigDecimal b = new BigDecimal(x);
    return new Q(b.unscaledValue(), BigInteger.ONE).fin() && b.scale() <= 0
        ? new Q(b.toBigIntegerExact(), BigInteger.ONE)
        : new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  static Q mul(Q a, Q b) {
    if (a.fin() && b.fin()) return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
    return of(a.dbl() * b.dbl());
  }

  static Q div(Q a, Q b) {
    if (a.fin() && b.fin()) {
      if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : a.n.signum() > 0 ? INF : NINF;
      return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    return of(a.dbl() / b.dbl());
  }

  static Q neg(Q a) {
    if (a.fin()) return new Q(a.n.negate(), a.d);
    return a.kind == 2 ? NAN : a.kind == 1 ? NINF : INF;
  }

  static Q abs(Q a) {
    if (a.fin()) return a.n.signum() < 0 ? neg(a) : a;
    return a.kind == 2 ? NAN : INF;
  }

  static boolean lt(Q a, Q b) {
    if (a.kind == 2 || b.kind == 2) return false;
    if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)) < 0;
    return rank(a) < rank(b);
  }

  static boolean leq(Q a, Q b) {
    if (a.kind == 2 || b.kind == 2) return false;
    if (a.fin() && b.fin()) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)) <= 0;
    return rank(a) <= rank(b);
  }

  static int rank(Q a) {
    return a.fin() ? 0 : a.kind;
  }


  // ---- operators -------------------------------------------------------------

  @TLAPlusOperator(identifier = "RN", module = "Rat", warn = false)
  public static Value rn(Value a, Value b) {
    return out(div(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "RI", module = "Rat", warn = false)
  public static Value ri(Value a) {
    return out(parse(a));
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value radd(Value a, Value b) {
    return out(add(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value rsub(Value a, Value b) {
    return out(add(parse(a), neg(parse(b))));
  }

  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value rmul(Value a, Value b) {
    return out(mul(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value rdiv(Value a, Value b) {
    return out(div(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value rneg(Value a) {
    return out(neg(parse(a)));
  }

  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value rabs(Value a) {
    return out(abs(parse(a)));
  }

  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value rlt(Value a, Value b) {
    return lt(parse(a), parse(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RLeq", module = "Rat", warn = false)
  public static Value rleq(Value a, Value b) {
    return leq(parse(a), parse(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
  public static Value req(Value a, Value b) {
    return parse(a).toString().equals(parse(b).toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RIsFin", module = "Rat", warn = false)
  public static Value risfin(Value a) {
    return parse(a).fin() ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
  public static Value risint(Value a) {
    Q q = parse(a);
    return q.fin() && q.d.equals(BigInteger.ONE) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
  public static Value rfloor(Value a) {
    Q q = parse(a);
    BigInteger[] qr = q.n.divideAndRemainder(q.d);
    BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return IntValue.gen(f.intValueExact());
  }

  @TLAPlusOperator(identifier = "RClose", module = "Rat", warn = false)
  public static Value rclose(Value a, Value b, Value rtol, Value atol) {
    Q x = parse(a), y = parse(b);
    boolean r;
    if (x.fin() && y.fin())
      r = leq(abs(add(x, neg(y))), add(parse(atol), mul(parse(rtol), abs(y))));
    else r = x.kind == y.kind;
    return r ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static Value[] seq(Value v) {
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
  public static Value rsum(Value s) {
    Q r = ZERO;
    for (Value v : seq(s)) r = add(r, parse(v));
    return out(r);
  }

  @TLAPlusOperator(identifier = "RCoprime", module = "Rat", warn = false)
  public static Value rcoprime(Value s) {
    Value[] a = seq(s);
    BigInteger l = BigInteger.ONE, g = BigInteger.ZERO;
    Q[] q = new Q[a.length];
    for (int i = 0; i < a.length; i++) {
      q[i] = parse(a[i]);
      l = l.divide(l.gcd(q[i].d)).multiply(q[i].d);
    }
    for (int i = 0; i < a.length; i++) g = g.gcd(q[i].n.multiply(l.divide(q[i].d)));
    if (g.signum() == 0) return s;
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++)
      r[i] = new StringValue(q[i].n.multiply(l.divide(q[i].d)).divide(g).toString());
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
  public static Value rdot(Value s, Value t) {
    Q r = ZERO;
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) throw new RuntimeException("RDot: lengths differ");
    for (int i = 0; i < a.length; i++) r = add(r, mul(parse(a[i]), parse(b[i])));
    return out(r);
  }

  @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
  public static Value rsqrt(Value a) {
    Q q = parse(a);
    if (!q.fin()) return out(q.kind == 1 ? INF : NAN);
    if (q.n.signum() < 0) return out(NAN);
    BigInteger sn = q.n.sqrt(), sd = q.d.sqrt();
    if (sn.multiply(sn).equals(q.n) && sd.multiply(sd).equals(q.d)) return out(new Q(sn, sd));
    BigDecimal b = q.dec().sqrt(new MathContext(40));
    return out(dec(b));
  }

  static Q dec(BigDecimal b) {
    return b.scale() <= 0
        ? new Q(b.toBigIntegerExact(), BigInteger.ONE)
        : new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  @TLAPlusOperator(identifier = "RLog", module = "Rat", warn = false)
  public static Value rlog(Value a) {
    Q q = parse(a);
    if (!q.fin()) return out(q.kind == 1 ? INF : NAN);
    if (q.n.signum() <= 0) return out(q.n.signum() == 0 ? NINF : NAN);
    // log1p keeps the relative accuracy near one
    Q m1 = add(q, new Q(BigInteger.ONE.negate(), BigInteger.ONE));
    double e = m1.dbl();
    return out(of(Math.abs(e) < 0.25 ? Math.log1p(e) : Math.log(q.dbl())));
  }

  @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
  public static Value rexp(Value a) {
    return out(of(Math.exp(parse(a).dbl())));
  }

  @TLAPlusOperator(identifier = "RAtan2", module = "Rat", warn = false)
  public static Value ratan2(Value y, Value x) {
    return out(of(Math.atan2(parse(y).dbl(), parse(x).dbl())));
  }

  @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
  public static Value rpi() {
    return out(dec(new BigDecimal("3.14159265358979323846264338327950288419716939937510582")));
  }

  @TLAPlusOperator(identifier = "RErfc", module = "Rat", warn = false)
  public static Value rerfc(Value a) {
    return out(of(erfc(parse(a).dbl())));
  }

  static double erfc(double x) {
    if (Double.isNaN(x)) return x;
    if (x < 0) return 2 - erfc(-x);
    if (x > 27) return 0;
    if (x < 2.5) {
      double t = x, s = x;
      for (int n = 1; n < 200; n++) {
        t *= -x * x / n;
        double d = t / (2 * n + 1);
        s += d;
        if (Math.abs(d) < 1e-18) break;
      }
      return 1 - 2 / Math.sqrt(Math.PI) * s;
    }
    // continued fraction, evaluated backwards
    double f = 0;
    for (int k = 200; k >= 1; k--) f = k / 2.0 / (x + f);
    return Math.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
  }
}
