// Exact rationals for Rat.tla: strings "n/d" in lowest terms.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Rat {
  private static BigInteger[] get(final Value v) {
    final String s = ((StringValue) v).val.toString();
    final int k = s.indexOf('/');
    if (k < 0) {
      return new BigInteger[] { new BigInteger(s), BigInteger.ONE };
    }
    return new BigInteger[] { new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)) };
  }

  private static BigInteger[] low(final BigInteger n, final BigInteger d) {
    if (d.signum() == 0) {
      throw new RuntimeException("division by zero");
    }
    final BigInteger g = n.gcd(d);
    final BigInteger s = d.signum() < 0 ? g.negate() : g;
    return new BigInteger[] { n.divide(s), d.divide(s) };
  }

  private static Value put(final BigInteger[] a) {
    return new StringValue(a[0].toString() + "/" + a[1].toString());
  }

  private static BigInteger[] add(final BigInteger[] a, final BigInteger[] b) {
    return low(a[0].multiply(b[1]).add(b[0].multiply(a[1])), a[1].multiply(b[1]));
  }

  private static BigInteger[] sub(final BigInteger[] a, final BigInteger[] b) {
    return low(a[0].multiply(b[1]).subtract(b[0].multiply(a[1])), a[1].multiply(b[1]));
  }

  private static BigInteger[] mul(final BigInteger[] a, final BigInteger[] b) {
    return low(a[0].multiply(b[0]), a[1].multiply(b[1]));
  }

  public static Value RFrac(final Value n, final Value d) {
    return put(low(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val)));
  }

  public static Value RAdd(final Value a, final Value b) {
    return put(add(get(a), get(b)));
  }

  public static Value RSub(final Value a, final Value b) {
    return put(sub(get(a), get(b)));
  }

  public static Value RMul(final Value a, final Value b) {
    return put(mul(get(a), get(b)));
  }

  public static Value RDiv(final Value a, final Value b) {
    final BigInteger[] x = get(a);
    final BigInteger[] y = get(b);
    return put(low(x[0].multiply(y[1]), x[1].multiply(y[0])));
  }

  public static Value RLe(final Value a, final Value b) {
    final BigInteger[] x = get(a);
    final BigInteger[] y = get(b);
    return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1])) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value RIs(final Value a) {
    try {
      get(a);
      return BoolValue.ValTrue;
    } catch (final NumberFormatException e) {
      return BoolValue.ValFalse;
    }
  }

  private static Value[] seq(final Value v) {
    return ((TupleValue) v.toTuple()).elems;
  }

  private static BigInteger[][] cget(final Value v) {
    final Value[] e = seq(v);
    return new BigInteger[][] { get(e[0]), get(e[1]) };
  }

  private static BigInteger[][] cmul(final BigInteger[][] a, final BigInteger[][] b) {
    return new BigInteger[][] { sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])) };
  }

  private static Value cput(final BigInteger[][] a) {
    return new TupleValue(put(a[0]), put(a[1]));
  }

  public static Value QDot(final Value x, final Value y) {
    final Value[] a = seq(x);
    final Value[] b = seq(y);
    BigInteger[][] s = { { BigInteger.ZERO, BigInteger.ONE }, { BigInteger.ZERO, BigInteger.ONE } };
    for (int i = 0; i < a.length; i++) {
      final BigInteger[][] p = cmul(cget(a[i]), cget(b[i]));
      s = new BigInteger[][] { add(s[0], p[0]), add(s[1], p[1]) };
    }
    return cput(s);
  }

  public static Value QAxpy(final Value a, final Value x, final Value y) {
    final BigInteger[][] c = cget(a);
    final Value[] u = seq(x);
    final Value[] v = seq(y);
    final Value[] out = new Value[u.length];
    for (int i = 0; i < u.length; i++) {
      final BigInteger[][] p = cmul(c, cget(u[i]));
      final BigInteger[][] w = cget(v[i]);
      out[i] = cput(new BigInteger[][] { add(p[0], w[0]), add(p[1], w[1]) });
    }
    return new TupleValue(out);
  }
}
