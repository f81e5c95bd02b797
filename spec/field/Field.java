import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides for module Field: BLS12-381 scalar field and G1, independent of the code under test. */
public class Field {
  static final BigInteger R = new BigInteger("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);
  static final BigInteger Q = new BigInteger("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16);
  static final BigInteger GX = new BigInteger("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb", 16);
  static final BigInteger GY = new BigInteger("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1", 16);
  static final BigInteger TAU = new BigInteger("46015081477078601964787943834255776126696019968430095991502055467779756761969").mod(R);
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO, B4 = BigInteger.valueOf(4);

  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static BigInteger f(Value v) { return new BigInteger(str(v), 16); }
  static BigInteger f(String s) { return new BigInteger(s, 16); }
  static Value s(BigInteger x) { return new StringValue(x.toString(16)); }
  static BigInteger[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger[] r = new BigInteger[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = f(t.elems[i]);
    return r;
  }
  static BigInteger inv(BigInteger x) { return x.signum() == 0 ? ZERO : x.modInverse(R); }

  public static Value FIs(Value a) {
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    String x = str(a);
    if (!x.matches("0|[1-9a-f][0-9a-f]*")) return BoolValue.ValFalse;
    return f(x).compareTo(R) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value FInt(Value n) { return s(BigInteger.valueOf(((IntValue) n).val).mod(R)); }
  public static Value FAdd(Value a, Value b) { return s(f(a).add(f(b)).mod(R)); }
  public static Value FSub(Value a, Value b) { return s(f(a).subtract(f(b)).mod(R)); }
  public static Value FMul(Value a, Value b) { return s(f(a).multiply(f(b)).mod(R)); }
  public static Value FInv(Value a) { return s(inv(f(a))); }
  public static Value FExp(Value a, Value n) { return s(f(a).modPow(f(n), R)); }
  public static Value FLess(Value a, Value b) { return f(a).compareTo(f(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FEval(Value c, Value x) {
    BigInteger[] cs = seq(c); BigInteger xx = f(x), r = ZERO;
    for (int i = cs.length - 1; i >= 0; i--) r = r.multiply(xx).add(cs[i]).mod(R);
    return s(r);
  }
  public static Value FSum(Value c) { BigInteger r = ZERO; for (BigInteger x : seq(c)) r = r.add(x); return s(r.mod(R)); }
  public static Value FProd(Value c) { BigInteger r = ONE; for (BigInteger x : seq(c)) r = r.multiply(x).mod(R); return s(r); }
  public static Value FDot(Value a, Value b) {
    BigInteger[] x = seq(a), y = seq(b); BigInteger r = ZERO;
    for (int i = 0; i < x.length; i++) r = r.add(x[i].multiply(y[i]));
    return s(r.mod(R));
  }
  static BigInteger lam(BigInteger[] xs, int i, BigInteger x) {
    BigInteger n = ONE, d = ONE;
    for (int j = 0; j < xs.length; j++) if (j != i) {
      n = n.multiply(x.subtract(xs[j])).mod(R);
      d = d.multiply(xs[i].subtract(xs[j])).mod(R);
    }
    return n.multiply(inv(d)).mod(R);
  }
  public static Value FLam(Value xs, Value i, Value x) { return s(lam(seq(xs), ((IntValue) i).val - 1, f(x))); }
  public static Value FInterp(Value xs, Value ys, Value x) {
    BigInteger[] a = seq(xs), b = seq(ys); BigInteger r = ZERO, xx = f(x);
    for (int i = 0; i < a.length; i++) r = r.add(lam(a, i, xx).multiply(b[i]));
    return s(r.mod(R));
  }
  static Value tup(BigInteger[] x) {
    Value[] v = new Value[x.length];
    for (int i = 0; i < v.length; i++) v[i] = s(x[i]);
    return new TupleValue(v);
  }
  public static Value FEvals(Value c, Value xs) {
    BigInteger[] cs = seq(c), x = seq(xs), out = new BigInteger[x.length];
    for (int k = 0; k < x.length; k++) {
      BigInteger r = ZERO;
      for (int i = cs.length - 1; i >= 0; i--) r = r.multiply(x[k]).add(cs[i]).mod(R);
      out[k] = r;
    }
    return tup(out);
  }
  public static Value FPowers(Value w, Value n) {
    BigInteger[] out = new BigInteger[((IntValue) n).val];
    BigInteger ww = f(w), r = ONE;
    for (int i = 0; i < out.length; i++) { out[i] = r; r = r.multiply(ww).mod(R); }
    return tup(out);
  }
  public static Value FTau() { return s(TAU); }

  // ------------------------------------------------------------------ G1, Jacobian coordinates, null = infinity
  static BigInteger m(BigInteger a, BigInteger b) { return a.multiply(b).mod(Q); }
  static BigInteger[] dbl(BigInteger[] p) {
    if (p == null || p[1].signum() == 0) return null;
    BigInteger a = m(p[0], p[0]), b = m(p[1], p[1]), c = m(b, b);
    BigInteger xb = p[0].add(b);
    BigInteger d = m(xb, xb).subtract(a).subtract(c).shiftLeft(1).mod(Q);
    BigInteger e = a.multiply(BigInteger.valueOf(3)).mod(Q), ff = m(e, e);
    BigInteger x3 = ff.subtract(d.shiftLeft(1)).mod(Q);
    BigInteger y3 = m(e, d.subtract(x3)).subtract(c.shiftLeft(3)).mod(Q);
    BigInteger z3 = m(p[1], p[2]).shiftLeft(1).mod(Q);
    return new BigInteger[]{x3, y3, z3};
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger z1 = m(p[2], p[2]), z2 = m(q[2], q[2]);
    BigInteger u1 = m(p[0], z2), u2 = m(q[0], z1);
    BigInteger s1 = m(m(p[1], q[2]), z2), s2 = m(m(q[1], p[2]), z1);
    if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : null;
    BigInteger h = u2.subtract(u1).mod(Q), r = s2.subtract(s1).mod(Q);
    BigInteger h2 = m(h, h), h3 = m(h, h2), v = m(u1, h2);
    BigInteger x3 = m(r, r).subtract(h3).subtract(v.shiftLeft(1)).mod(Q);
    BigInteger y3 = m(r, v.subtract(x3)).subtract(m(s1, h3)).mod(Q);
    BigInteger z3 = m(h, m(p[2], q[2]));
    return new BigInteger[]{x3, y3, z3};
  }
  static BigInteger[] mul(BigInteger[] p, BigInteger k) {
    BigInteger[] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
    return r;
  }
  static BigInteger[][][] table; // table[w][d] = d * 256^w * G
  static synchronized void init() {
    if (table != null) return;
    BigInteger[][][] t = new BigInteger[32][256][];
    BigInteger[] b = {GX, GY, ONE};
    for (int w = 0; w < 32; w++) {
      BigInteger[] acc = null;
      for (int d = 1; d < 256; d++) { acc = affine(add(acc, b)); t[w][d] = acc; }
      b = affine(add(acc, b));
    }
    table = t;
  }
  static BigInteger[] affine(BigInteger[] p) {
    if (p == null) return null;
    if (p[2].equals(ONE)) return p;
    BigInteger zi = p[2].modInverse(Q), z2 = m(zi, zi);
    return new BigInteger[]{m(p[0], z2), m(m(p[1], z2), zi), ONE};
  }
  static String enc(BigInteger[] p) {
    if (p == null) return "c0" + "0".repeat(94);
    p = affine(p);
    BigInteger x = p[0].setBit(383);
    if (p[1].shiftLeft(1).compareTo(Q) > 0) x = x.setBit(381);
    return x.toString(16);
  }
  static BigInteger[] dec(String h) { // {} = malformed, null = infinity
    if (h.length() != 96 || !h.matches("[0-9a-f]*")) return new BigInteger[0];
    BigInteger x = new BigInteger(h, 16);
    if (!x.testBit(383)) return new BigInteger[0];
    boolean inf = x.testBit(382), sg = x.testBit(381);
    x = x.clearBit(383).clearBit(382).clearBit(381);
    if (inf) return x.signum() == 0 && !sg ? null : new BigInteger[0];
    if (x.compareTo(Q) >= 0) return new BigInteger[0];
    BigInteger y2 = m(m(x, x), x).add(B4).mod(Q);
    BigInteger y = y2.modPow(Q.add(ONE).shiftRight(2), Q);
    if (!m(y, y).equals(y2)) return new BigInteger[0];
    if ((y.shiftLeft(1).compareTo(Q) > 0) != sg) y = Q.subtract(y);
    return new BigInteger[]{x, y, ONE};
  }
  static final LinkedHashMap<String, String> cache = new LinkedHashMap<String, String>(1024, 0.75f, true) {
    protected boolean removeEldestEntry(Map.Entry<String, String> e) { return size() > 400000; }
  };
  static String g1(String a) {
    synchronized (cache) {
      String c = cache.get(a);
      if (c != null) return c;
    }
    init();
    BigInteger k = f(a).mod(R);
    BigInteger[] acc = null;
    for (int w = 0; w < 32; w++) {
      int d = k.shiftRight(8 * w).intValue() & 255;
      if (d != 0) acc = add(acc, table[w][d]);
    }
    String c = enc(acc);
    synchronized (cache) { cache.put(a, c); }
    return c;
  }
  public static Value G1(Value a) { return new StringValue(g1(str(a))); }
  public static Value G1Valid(Value p) {
    BigInteger[] d = dec(str(p));
    if (d == null) return BoolValue.ValTrue;
    if (d.length == 0) return BoolValue.ValFalse;
    return mul(d, R) == null ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value G1Add(Value p, Value q) { return new StringValue(enc(add(dec(str(p)), dec(str(q))))); }
  public static Value G1Mul(Value p, Value a) { return new StringValue(enc(mul(dec(str(p)), f(a)))); }

  // ------------------------------------------------------------------ text and byte forms
  /** the scalar with the given decimal form, "bad" if it is not the canonical decimal form of one */
  public static Value FDec(Value d) {
    String x = str(d);
    if (!x.matches("0|[1-9][0-9]*")) return new StringValue("bad");
    BigInteger v = new BigInteger(x);
    return v.compareTo(R) < 0 ? s(v) : new StringValue("bad");
  }
  public static Value FDecStr(Value a) { return new StringValue(f(a).toString()); }
  /** little-endian 32-byte form (64 hex digits) of a scalar */
  public static Value FLE(Value a) {
    String h = f(a).toString(16);
    h = "0".repeat(64 - h.length()) + h;
    StringBuilder b = new StringBuilder();
    for (int i = 31; i >= 0; i--) b.append(h, 2 * i, 2 * i + 2);
    return new StringValue(b.toString());
  }
  /** the scalar with that little-endian form, "bad" if not below the order */
  public static Value FFromLE(Value x) {
    String h = str(x);
    if (h.length() != 64) return new StringValue("bad");
    StringBuilder b = new StringBuilder();
    for (int i = 31; i >= 0; i--) b.append(h, 2 * i, 2 * i + 2);
    BigInteger v = new BigInteger(b.toString(), 16);
    return v.compareTo(R) < 0 ? s(v) : new StringValue("bad");
  }
  /** all coefficients of the interpolating polynomial */
  public static Value FInterpPoly(Value xs, Value ys) {
    BigInteger[] x = seq(xs), y = seq(ys);
    int n = x.length;
    BigInteger[] prod = new BigInteger[n + 1];
    Arrays.fill(prod, ZERO);
    prod[0] = ONE;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j >= 0; j--) {
        BigInteger v = prod[j].multiply(x[i]).negate();
        if (j > 0) v = v.add(prod[j - 1]);
        prod[j] = v.mod(R);
      }
    BigInteger[] out = new BigInteger[n];
    Arrays.fill(out, ZERO);
    for (int i = 0; i < n; i++) {
      BigInteger[] q = new BigInteger[n];
      BigInteger c = ZERO;
      for (int j = n; j >= 1; j--) { c = prod[j].add(c.multiply(x[i])).mod(R); q[j - 1] = c; }
      BigInteger d = ZERO;
      for (int j = n - 1; j >= 0; j--) d = d.multiply(x[i]).add(q[j]).mod(R);
      BigInteger m = y[i].multiply(inv(d)).mod(R);
      for (int j = 0; j < n; j++) out[j] = out[j].add(q[j].multiply(m)).mod(R);
    }
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = s(out[i]);
    return new TupleValue(r);
  }
  /** affine coordinates, decimal, "inf" for the neutral element */
  public static Value G1X(Value a) { BigInteger[] p = dec(g1(str(a))); return new StringValue(p == null ? "inf" : p[0].toString()); }
  public static Value G1Y(Value a) { BigInteger[] p = dec(g1(str(a))); return new StringValue(p == null ? "inf" : p[1].toString()); }

  // ------------------------------------------------------------------ G2 over Fp2 = Fp[u]/(u^2+1); elements are {c0, c1}
  static BigInteger[] a2(BigInteger[] x, BigInteger[] y) { return new BigInteger[]{x[0].add(y[0]).mod(Q), x[1].add(y[1]).mod(Q)}; }
  static BigInteger[] s2(BigInteger[] x, BigInteger[] y) { return new BigInteger[]{x[0].subtract(y[0]).mod(Q), x[1].subtract(y[1]).mod(Q)}; }
  static BigInteger[] m2(BigInteger[] x, BigInteger[] y) {
    return new BigInteger[]{x[0].multiply(y[0]).subtract(x[1].multiply(y[1])).mod(Q), x[0].multiply(y[1]).add(x[1].multiply(y[0])).mod(Q)};
  }
  static BigInteger[] k2(BigInteger[] x, int k) { BigInteger b = BigInteger.valueOf(k); return new BigInteger[]{x[0].multiply(b).mod(Q), x[1].multiply(b).mod(Q)}; }
  static BigInteger[] i2(BigInteger[] x) {
    BigInteger n = x[0].multiply(x[0]).add(x[1].multiply(x[1])).mod(Q).modInverse(Q);
    return new BigInteger[]{m(x[0], n), m(x[1].negate().mod(Q), n)};
  }
  static boolean z2(BigInteger[] x) { return x[0].signum() == 0 && x[1].signum() == 0; }
  static BigInteger[][] dblB(BigInteger[][] p) {
    if (p == null || z2(p[1])) return null;
    BigInteger[] a = m2(p[0], p[0]), b = m2(p[1], p[1]), c = m2(b, b);
    BigInteger[] xb = a2(p[0], b);
    BigInteger[] d = k2(s2(s2(m2(xb, xb), a), c), 2), e = k2(a, 3), ff = m2(e, e);
    BigInteger[] x3 = s2(ff, k2(d, 2));
    return new BigInteger[][]{x3, s2(m2(e, s2(d, x3)), k2(c, 8)), k2(m2(p[1], p[2]), 2)};
  }
  static BigInteger[][] addB(BigInteger[][] p, BigInteger[][] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger[] z1 = m2(p[2], p[2]), zz = m2(q[2], q[2]);
    BigInteger[] u1 = m2(p[0], zz), u2 = m2(q[0], z1);
    BigInteger[] t1 = m2(m2(p[1], q[2]), zz), t2 = m2(m2(q[1], p[2]), z1);
    if (Arrays.equals(u1, u2)) return Arrays.equals(t1, t2) ? dblB(p) : null;
    BigInteger[] h = s2(u2, u1), r = s2(t2, t1), h2 = m2(h, h), h3 = m2(h, h2), v = m2(u1, h2);
    BigInteger[] x3 = s2(s2(m2(r, r), h3), k2(v, 2));
    return new BigInteger[][]{x3, s2(m2(r, s2(v, x3)), m2(t1, h3)), m2(h, m2(p[2], q[2]))};
  }
  static BigInteger[][] mulB(BigInteger[][] p, BigInteger k) {
    BigInteger[][] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = dblB(r); if (k.testBit(i)) r = addB(r, p); }
    return r;
  }
  static BigInteger hexi(String s) { return new BigInteger(s, 16); }
  static final BigInteger[][] G2GEN = {
    {hexi("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
     hexi("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
    {hexi("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
     hexi("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")},
    {ONE, ZERO}};
  static boolean big2(BigInteger[] y) { return y[1].signum() != 0 ? y[1].shiftLeft(1).compareTo(Q) > 0 : y[0].shiftLeft(1).compareTo(Q) > 0; }
  static String encB(BigInteger[][] p) {
    if (p == null) return "c0" + "0".repeat(190);
    BigInteger[] zi = i2(p[2]), z2 = m2(zi, zi), x = m2(p[0], z2), y = m2(m2(p[1], z2), zi);
    BigInteger h = x[1].setBit(383);
    if (big2(y)) h = h.setBit(381);
    String c0 = x[0].toString(16);
    return h.toString(16) + "0".repeat(96 - c0.length()) + c0;
  }
  /** square root in Fp2, null if there is none */
  static BigInteger[] sqrt2(BigInteger[] a) {
    if (z2(a)) return a;
    BigInteger n = a[0].multiply(a[0]).add(a[1].multiply(a[1])).mod(Q);
    BigInteger e = Q.add(ONE).shiftRight(2), nr = n.modPow(e, Q);
    if (!m(nr, nr).equals(n)) return null;
    for (int k = 0; k < 2; k++) {
      BigInteger t = a[0].add(k == 0 ? nr : nr.negate()).multiply(TWO.modInverse(Q)).mod(Q), x0 = t.modPow(e, Q);
      if (m(x0, x0).equals(t)) {
        BigInteger x1;
        if (x0.signum() == 0) { BigInteger u = a[0].negate().mod(Q); x1 = u.modPow(e, Q); }
        else x1 = m(a[1], x0.shiftLeft(1).modInverse(Q));
        BigInteger[] r = {x0, x1};
        if (Arrays.equals(m2(r, r), a)) return r;
      }
    }
    return null;
  }
  static BigInteger[][] decB(String h) {
    BigInteger[][] bad = new BigInteger[0][];
    if (h.length() != 192 || !h.matches("[0-9a-f]*")) return bad;
    BigInteger x1 = new BigInteger(h.substring(0, 96), 16), x0 = new BigInteger(h.substring(96), 16);
    if (!x1.testBit(383)) return bad;
    boolean inf = x1.testBit(382), sg = x1.testBit(381);
    x1 = x1.clearBit(383).clearBit(382).clearBit(381);
    if (inf) return x1.signum() == 0 && x0.signum() == 0 && !sg ? null : bad;
    if (x1.compareTo(Q) >= 0 || x0.compareTo(Q) >= 0) return bad;
    BigInteger[] x = {x0, x1}, y2 = a2(m2(m2(x, x), x), new BigInteger[]{B4, B4}), y = sqrt2(y2);
    if (y == null) return bad;
    if (big2(y) != sg) y = s2(new BigInteger[]{ZERO, ZERO}, y);
    return new BigInteger[][]{x, y, {ONE, ZERO}};
  }
  static final HashMap<String, String> cacheB = new HashMap<>();
  public static synchronized Value G2(Value a) {
    return new StringValue(cacheB.computeIfAbsent(str(a), x -> encB(mulB(G2GEN, f(x).mod(R)))));
  }
  public static Value G2Valid(Value p) {
    BigInteger[][] d = decB(str(p));
    if (d == null) return BoolValue.ValTrue;
    if (d.length == 0) return BoolValue.ValFalse;
    return mulB(d, R) == null ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value G2Add(Value p, Value q) { return new StringValue(encB(addB(decB(str(p)), decB(str(q))))); }
  public static Value G2Mul(Value p, Value a) { return new StringValue(encB(mulB(decB(str(p)), f(a)))); }

  /** the fixed primitive root of unity of order 2^k */
  public static Value FRoot(Value k) {
    int e = ((IntValue) k).val;
    return s(BigInteger.valueOf(7).modPow(R.subtract(ONE).shiftRight(e), R));
  }
  static String txt(Value v) { return str(v); }
  public static Value FLower(Value v) { return new StringValue(str(v).toLowerCase()); }
  /** remainder of the polynomial a divided by x^n - c, as a sequence of n coefficients */
  public static Value FRemXn(Value av, Value nv, Value cv) {
    BigInteger[] a = seq(av);
    int n = ((IntValue) nv).val;
    BigInteger c = f(cv);
    for (int i = a.length - 1; i >= n; i--) { a[i - n] = a[i - n].add(a[i].multiply(c)).mod(R); a[i] = ZERO; }
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = s(i < a.length ? a[i] : ZERO);
    return new TupleValue(r);
  }

  /** the exponent in the set es whose group element is encoded as h, "?" if there is none */
  static final Map<Value, Map<String, String>> logs = Collections.synchronizedMap(new IdentityHashMap<>());
  public static Value G1Log(Value h, Value es) {
    Map<String, String> m = logs.get(es);
    if (m == null) {
      SetEnumValue t = (SetEnumValue) es.toSetEnum();
      m = new HashMap<>();
      for (int i = 0; i < t.elems.size(); i++) { String e = str(t.elems.elementAt(i)); m.put(g1(e), e); }
      if (logs.size() > 64) logs.clear();
      logs.put(es, m);
    }
    String r = m.get(str(h));
    return new StringValue(r == null ? "?" : r);
  }
}
