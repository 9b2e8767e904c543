import java.math.BigInteger;
import tlc2.value.impl.*;

/** Fast versions of the operators of BigNat.tla (same meaning, checked by MC_BigNat). */
public class BigNat {
  private static final int LB = 10000;

  private static int[] limbs(Value v) {
    final TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    final Value[] e = t.elems;
    final int[] r = new int[e.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
    return r;
  }

  private static Value val(int[] r, int n) {
    while (n > 0 && r[n - 1] == 0) n--;
    final Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = IntValue.gen(r[i]);
    return new TupleValue(e);
  }

  private static final BigInteger P16 = BigInteger.TEN.pow(16);

  private static BigInteger big(int[] a) {
    BigInteger r = BigInteger.ZERO;
    int i = a.length;
    while (i % 4 != 0) { // leading partial group
      int k = i % 4; long w = 0;
      for (int j = 0; j < k; j++) w = w * LB + a[--i];
      r = BigInteger.valueOf(w);
    }
    while (i > 0) {
      long w = ((a[i-1] * 10000L + a[i-2]) * 10000L + a[i-3]) * 10000L + a[i-4];
      i -= 4;
      r = r.multiply(P16).add(BigInteger.valueOf(w));
    }
    return r;
  }

  private static Value ofBig(BigInteger b) {
    int n = b.bitLength() / 13 + 5;
    int[] r = new int[n + 4];
    int k = 0;
    while (b.signum() != 0) {
      BigInteger[] qr = b.divideAndRemainder(P16);
      long w = qr[1].longValue();
      for (int j = 0; j < 4; j++) { r[k++] = (int) (w % LB); w /= LB; }
      b = qr[0];
    }
    return val(r, k);
  }

  public static Value NOfInt(Value v) {
    int n = ((IntValue) v).val;
    int[] r = new int[4]; int k = 0;
    while (n != 0) { r[k++] = n % LB; n /= LB; }
    return val(r, k);
  }

  public static Value NAdd(Value x, Value y) {
    int[] a = limbs(x), b = limbs(y);
    int n = Math.max(a.length, b.length);
    int[] r = new int[n + 1]; int c = 0;
    for (int i = 0; i < n; i++) {
      int t = (i < a.length ? a[i] : 0) + (i < b.length ? b[i] : 0) + c;
      r[i] = t % LB; c = t / LB;
    }
    r[n] = c;
    return val(r, n + 1);
  }

  public static Value NSub(Value x, Value y) {
    int[] a = limbs(x), b = limbs(y);
    int[] r = new int[a.length]; int c = 0;
    for (int i = 0; i < a.length; i++) {
      int t = a[i] - (i < b.length ? b[i] : 0) - c;
      if (t < 0) { t += LB; c = 1; } else c = 0;
      r[i] = t;
    }
    return val(r, a.length);
  }

  private static int cmp(int[] a, int[] b) {
    if (a.length != b.length) return a.length < b.length ? -1 : 1;
    for (int i = a.length - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
  }
  public static Value NCmp(Value x, Value y) { return IntValue.gen(cmp(limbs(x), limbs(y))); }

  public static Value NMul(Value x, Value y) {
    int[] a = limbs(x), b = limbs(y);
    int[] r = new int[a.length + b.length + 1];
    for (int i = 0; i < a.length; i++) {
      int c = 0; final int ai = a[i];
      if (ai == 0) continue;
      for (int j = 0; j < b.length; j++) {
        int t = r[i + j] + ai * b[j] + c;
        r[i + j] = t % LB; c = t / LB;
      }
      int k = i + b.length;
      while (c != 0) { int t = r[k] + c; r[k] = t % LB; c = t / LB; k++; }
    }
    return val(r, r.length);
  }

  public static Value NDivMod(Value x, Value y) {
    BigInteger[] qr = big(limbs(x)).divideAndRemainder(big(limbs(y)));
    return new TupleValue(ofBig(qr[0]), ofBig(qr[1]));
  }

  private static final int[] S10 = {1, 10, 100, 1000};
  public static Value NPow10(Value v) {
    int k = ((IntValue) v).val;
    int[] r = new int[k / 4 + 1];
    r[k / 4] = S10[k % 4];
    return val(r, r.length);
  }

  public static Value NDigits(Value x) {
    int[] a = limbs(x);
    if (a.length == 0) return IntValue.gen(0);
    int t = a[a.length - 1];
    return IntValue.gen(4 * (a.length - 1) + (t < 10 ? 1 : t < 100 ? 2 : t < 1000 ? 3 : 4));
  }

  public static Value NToDigits(Value x, Value nv) {
    int[] a = limbs(x); int n = ((IntValue) nv).val;
    Value[] e = new Value[n];
    for (int j = 0; j < n; j++) {
      int i = n - 1 - j, l = i / 4;
      e[j] = IntValue.gen(l < a.length ? (a[l] / S10[i % 4]) % 10 : 0);
    }
    return new TupleValue(e);
  }

  public static Value NOfDigits(Value s) {
    int[] d = limbs(s);
    int[] r = new int[d.length / 4 + 1];
    for (int j = 0; j < d.length; j++) {
      int i = d.length - 1 - j;
      r[i / 4] += d[j] * S10[i % 4];
    }
    return val(r, r.length);
  }
}
