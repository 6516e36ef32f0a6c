// TLC overrides for the operators declared in spec/Prims.tla.  They give the
// specification its cryptographic base functions (ChaCha20, BLAKE2b, SHA-512,
// ChaCha20-Poly1305, the Ed25519 group, modular exponentiation), written here
// from the RFCs, independently of /repo.  Byte strings are lower-case hex
// strings; wide integers are decimal strings (or big-endian hex where named).
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.Base64;
import java.util.HashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class Prims {
  // ------------------------------------------------------------ helpers
  private static final char[] HEX = "0123456789abcdef".toCharArray();

  private static String str(Value v) {
    return ((StringValue) v).val.toString();
  }
  private static int num(Value v) {
    return ((IntValue) v).val;
  }
  private static byte[] unhex(String s) {
    int n = s.length() / 2;
    byte[] b = new byte[n];
    for (int i = 0; i < n; i++) {
      b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4)
          | Character.digit(s.charAt(2 * i + 1), 16));
    }
    return b;
  }
  private static byte[] bytes(Value v) {
    return unhex(str(v));
  }
  private static String hexs(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int i = 0; i < b.length; i++) {
      c[2 * i] = HEX[(b[i] >> 4) & 15];
      c[2 * i + 1] = HEX[b[i] & 15];
    }
    return new String(c);
  }
  private static StringValue hex(byte[] b) {
    return new StringValue(hexs(b));
  }
  private static Value bool(boolean b) {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // ------------------------------------------------------------ byte strings
  /** The bytes of a text. */
  public static Value BAscii(Value s) {
    return hex(str(s).getBytes(StandardCharsets.US_ASCII));
  }
  /** Bytes [off, off+len) of a byte string. */
  public static Value BSlice(Value s, Value off, Value len) {
    String h = str(s);
    int a = Math.max(0, Math.min(2 * num(off), h.length()));
    int e = Math.max(a, Math.min(2 * (num(off) + num(len)), h.length()));
    return new StringValue(h.substring(a, e));
  }
  /** the byte string n at place i of h (which is long enough) */
  public static Value BAt(Value h, Value n, Value i) {
    return str(h).startsWith(str(n), 2 * num(i)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value BLen(Value s) {
    return IntValue.gen(str(s).length() / 2);
  }
  public static Value BCat(Value a, Value b) {
    return new StringValue(str(a) + str(b));
  }
  public static Value BXor(Value a, Value b) {
    byte[] x = bytes(a), y = bytes(b);
    byte[] r = new byte[x.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = (byte) (x[i] ^ y[i % y.length]);
    }
    return hex(r);
  }
  /** n copies of the byte string b. */
  public static Value BRep(Value b, Value n) {
    return new StringValue(str(b).repeat(Math.max(0, num(n))));
  }
  /** one byte */
  public static Value BByte(Value n) {
    return hex(new byte[] {(byte) num(n)});
  }
  /** k bytes, little-endian encoding of the decimal string d */
  public static Value BLe(Value d, Value k) {
    BigInteger v = new BigInteger(str(d));
    byte[] r = new byte[num(k)];
    for (int i = 0; i < r.length; i++) {
      r[i] = v.shiftRight(8 * i).byteValue();
    }
    return hex(r);
  }
  /** decimal string of a little-endian byte string */
  public static Value BLeDec(Value h) {
    byte[] b = bytes(h);
    BigInteger v = BigInteger.ZERO;
    for (int i = b.length - 1; i >= 0; i--) {
      v = v.shiftLeft(8).or(BigInteger.valueOf(b[i] & 255));
    }
    return new StringValue(v.toString());
  }
  public static Value BInt(Value h) {
    byte[] b = bytes(h);
    int v = 0;
    for (byte x : b) {
      v = (v << 8) | (x & 255);
    }
    return IntValue.gen(v);
  }
  /** position of the first occurrence of needle in hay, or -1 */
  public static Value BCountDistinctColumn(Value tuple, Value col) {
    TupleValue t = (TupleValue) tuple.toTuple();
    boolean[] seen = new boolean[256];
    int c = 0;
    for (Value v : t.elems) {
      int x = unhex(str(v).substring(2 * num(col), 2 * num(col) + 2))[0] & 255;
      if (!seen[x]) {
        seen[x] = true;
        c++;
      }
    }
    return IntValue.gen(c);
  }

  private static boolean chunks(String h, java.util.Set<String> into) {
    boolean ok = true;
    for (int i = 0; i + 16 <= h.length(); i += 16) {
      String c = h.substring(i, i + 16);
      ok &= into.add(c) && !c.equals(c.substring(0, 2).repeat(8));
    }
    return ok;
  }
  public static Value BChunksFresh(Value tuple, Value v) {
    java.util.Set<String> seen = new java.util.HashSet<>();
    TupleValue t = (TupleValue) tuple.toTuple();
    for (Value x : t.elems) {
      chunks(str(x), seen);
    }
    return chunks(str(v), seen) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // ------------------------------------------------------------ wide naturals (decimal strings)
  private static BigInteger big(Value v) {
    if (v instanceof IntValue) {
      return BigInteger.valueOf(num(v));
    }
    return new BigInteger(str(v));
  }
  private static Value dec(BigInteger b) {
    return new StringValue(b.toString());
  }
  public static Value NAdd(Value a, Value b) {
    return dec(big(a).add(big(b)));
  }
  public static Value NSub(Value a, Value b) {
    return dec(big(a).subtract(big(b)));
  }
  public static Value NMul(Value a, Value b) {
    return dec(big(a).multiply(big(b)));
  }
  public static Value NMod(Value a, Value n) {
    return dec(big(a).mod(big(n)));
  }
  /** the inverse modulo a prime */
  public static Value NInv(Value a, Value n) {
    return dec(big(a).modInverse(big(n)));
  }
  /** big-endian byte string to decimal and back (k bytes) */
  public static Value BBeDec(Value h) {
    return dec(new BigInteger(1, bytes(h)));
  }
  public static Value BBe(Value d, Value k) {
    return hex(i2osp(big(d), num(k)));
  }
  /** x^n modulo a small prime */
  public static Value FPow(Value x, Value n, Value q) {
    return IntValue.gen(BigInteger.valueOf(num(x)).modPow(BigInteger.valueOf(num(n)), BigInteger.valueOf(num(q))).intValue());
  }
  /** rows of a matrix over the field of q elements: is the last column a combination of the others? */
  public static Value FSpan(Value rows, Value q) {
    TupleValue t = (TupleValue) rows.toTuple();
    long Q = num(q);
    int n = t.elems.length, w = ((TupleValue) t.elems[0].toTuple()).elems.length;
    long[][] m = new long[n][w];
    for (int i = 0; i < n; i++) {
      Value[] r = ((TupleValue) t.elems[i].toTuple()).elems;
      for (int j = 0; j < w; j++) {
        m[i][j] = Math.floorMod((long) num(r[j]), Q);
      }
    }
    int rank = 0;
    for (int col = 0; col < w - 1 && rank < n; col++) {
      int p = rank;
      while (p < n && m[p][col] == 0) {
        p++;
      }
      if (p == n) {
        continue;
      }
      long[] x = m[p];
      m[p] = m[rank];
      m[rank] = x;
      long inv = BigInteger.valueOf(x[col]).modInverse(BigInteger.valueOf(Q)).longValue();
      for (int i = rank + 1; i < n; i++) {
        long f = m[i][col] * inv % Q;
        for (int j = col; j < w && f != 0; j++) {
          m[i][j] = Math.floorMod(m[i][j] - f * x[j] % Q, Q);
        }
      }
      rank++;
    }
    for (int i = rank; i < n; i++) {
      if (m[i][w - 1] != 0) {
        return BoolValue.ValFalse;
      }
    }
    return BoolValue.ValTrue;
  }
  public static Value NPow2(Value n) {
    return dec(BigInteger.ONE.shiftLeft(num(n)));
  }
  public static Value NLt(Value a, Value b) {
    return bool(big(a).compareTo(big(b)) < 0);
  }
  public static Value NLe(Value a, Value b) {
    return bool(big(a).compareTo(big(b)) <= 0);
  }
  /** small value as a TLA+ integer; -1 if it does not fit */
  public static Value NInt(Value a) {
    BigInteger b = big(a);
    return IntValue.gen(b.bitLength() > 30 ? -1 : b.intValue());
  }
  /** the n low-order bits, most significant first */
  public static Value NBits(Value a, Value n) {
    BigInteger b = big(a);
    int k = num(n);
    Value[] r = new Value[k];
    for (int i = 0; i < k; i++) {
      r[i] = IntValue.gen(b.testBit(k - 1 - i) ? 1 : 0);
    }
    return new TupleValue(r);
  }

  // ------------------------------------------------------------ BLAKE2b (RFC 7693)
  private static final long[] B2IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL,
      0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L, 0x510e527fade682d1L, 0x9b05688c2b3e6c1fL,
      0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  private static final int[][] SIGMA = {
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
      {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
      {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
      {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
      {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
      {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
      {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
      {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
      {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
      {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};

  private static long le64(byte[] b, int o) {
    return (b[o] & 255L) | (b[o + 1] & 255L) << 8 | (b[o + 2] & 255L) << 16 | (b[o + 3] & 255L) << 24
        | (b[o + 4] & 255L) << 32 | (b[o + 5] & 255L) << 40 | (b[o + 6] & 255L) << 48 | (b[o + 7] & 255L) << 56;
  }
  private static void b2compress(long[] h, byte[] blk, long t, boolean last) {
    b2compress(h, blk, 0, t, last);
  }
  private static void b2compress(long[] h, byte[] blk, int off, long t, boolean last) {
    long v0 = h[0], v1 = h[1], v2 = h[2], v3 = h[3], v4 = h[4], v5 = h[5], v6 = h[6], v7 = h[7];
    long v8 = B2IV[0], v9 = B2IV[1], v10 = B2IV[2], v11 = B2IV[3], v12 = B2IV[4], v13 = B2IV[5], v14 = B2IV[6], v15 = B2IV[7];
    v12 ^= t;
    if (last) {
      v14 = ~v14;
    }
    long[] m = new long[16];
    for (int i = 0; i < 16; i++) {
      m[i] = le64(blk, off + 8 * i);
    }
    for (int r = 0; r < 12; r++) {
      int[] s = SIGMA[r % 10];
      v0 += v4 + m[s[0]];
      v12 = Long.rotateRight(v12 ^ v0, 32);
      v8 += v12;
      v4 = Long.rotateRight(v4 ^ v8, 24);
      v0 += v4 + m[s[1]];
      v12 = Long.rotateRight(v12 ^ v0, 16);
      v8 += v12;
      v4 = Long.rotateRight(v4 ^ v8, 63);
      v1 += v5 + m[s[2]];
      v13 = Long.rotateRight(v13 ^ v1, 32);
      v9 += v13;
      v5 = Long.rotateRight(v5 ^ v9, 24);
      v1 += v5 + m[s[3]];
      v13 = Long.rotateRight(v13 ^ v1, 16);
      v9 += v13;
      v5 = Long.rotateRight(v5 ^ v9, 63);
      v2 += v6 + m[s[4]];
      v14 = Long.rotateRight(v14 ^ v2, 32);
      v10 += v14;
      v6 = Long.rotateRight(v6 ^ v10, 24);
      v2 += v6 + m[s[5]];
      v14 = Long.rotateRight(v14 ^ v2, 16);
      v10 += v14;
      v6 = Long.rotateRight(v6 ^ v10, 63);
      v3 += v7 + m[s[6]];
      v15 = Long.rotateRight(v15 ^ v3, 32);
      v11 += v15;
      v7 = Long.rotateRight(v7 ^ v11, 24);
      v3 += v7 + m[s[7]];
      v15 = Long.rotateRight(v15 ^ v3, 16);
      v11 += v15;
      v7 = Long.rotateRight(v7 ^ v11, 63);
      v0 += v5 + m[s[8]];
      v15 = Long.rotateRight(v15 ^ v0, 32);
      v10 += v15;
      v5 = Long.rotateRight(v5 ^ v10, 24);
      v0 += v5 + m[s[9]];
      v15 = Long.rotateRight(v15 ^ v0, 16);
      v10 += v15;
      v5 = Long.rotateRight(v5 ^ v10, 63);
      v1 += v6 + m[s[10]];
      v12 = Long.rotateRight(v12 ^ v1, 32);
      v11 += v12;
      v6 = Long.rotateRight(v6 ^ v11, 24);
      v1 += v6 + m[s[11]];
      v12 = Long.rotateRight(v12 ^ v1, 16);
      v11 += v12;
      v6 = Long.rotateRight(v6 ^ v11, 63);
      v2 += v7 + m[s[12]];
      v13 = Long.rotateRight(v13 ^ v2, 32);
      v8 += v13;
      v7 = Long.rotateRight(v7 ^ v8, 24);
      v2 += v7 + m[s[13]];
      v13 = Long.rotateRight(v13 ^ v2, 16);
      v8 += v13;
      v7 = Long.rotateRight(v7 ^ v8, 63);
      v3 += v4 + m[s[14]];
      v14 = Long.rotateRight(v14 ^ v3, 32);
      v9 += v14;
      v4 = Long.rotateRight(v4 ^ v9, 24);
      v3 += v4 + m[s[15]];
      v14 = Long.rotateRight(v14 ^ v3, 16);
      v9 += v14;
      v4 = Long.rotateRight(v4 ^ v9, 63);
    }
    h[0] ^= v0 ^ v8;
    h[1] ^= v1 ^ v9;
    h[2] ^= v2 ^ v10;
    h[3] ^= v3 ^ v11;
    h[4] ^= v4 ^ v12;
    h[5] ^= v5 ^ v13;
    h[6] ^= v6 ^ v14;
    h[7] ^= v7 ^ v15;
  }
  static byte[] blake2b(byte[] msg, int outlen, byte[] key, byte[] salt, byte[] personal) {
    byte[] param = new byte[64];
    param[0] = (byte) outlen;
    param[1] = (byte) key.length;
    param[2] = 1;
    param[3] = 1;
    System.arraycopy(salt, 0, param, 32, salt.length);
    System.arraycopy(personal, 0, param, 48, personal.length);
    long[] h = new long[8];
    for (int i = 0; i < 8; i++) {
      h[i] = B2IV[i] ^ le64(param, 8 * i);
    }
    byte[] in = msg;
    if (key.length > 0) {
      in = new byte[128 + msg.length];
      System.arraycopy(key, 0, in, 0, key.length);
      System.arraycopy(msg, 0, in, 128, msg.length);
    }
    int pos = 0;
    while (in.length - pos > 128) {
      b2compress(h, Arrays.copyOfRange(in, pos, pos + 128), pos + 128, false);
      pos += 128;
    }
    byte[] blk = new byte[128];
    System.arraycopy(in, pos, blk, 0, in.length - pos);
    b2compress(h, blk, in.length, true);
    byte[] out = new byte[outlen];
    for (int i = 0; i < outlen; i++) {
      out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    }
    return out;
  }
  // ---- long byte strings: "(n)" within the hexadecimal text stands for n zero bytes
  private static boolean sparse(String s) {
    return s.indexOf('(') >= 0;
  }
  private interface Sink {
    void put(byte[] b, int n);
  }
  private static void feed(String s, Sink k) {
    byte[] zeros = new byte[1 << 20];
    int i = 0;
    while (i < s.length()) {
      int j = s.indexOf('(', i);
      byte[] lit = unhex(s.substring(i, j < 0 ? s.length() : j));
      k.put(lit, lit.length);
      if (j < 0) {
        return;
      }
      i = s.indexOf(')', j) + 1;
      for (long z = Long.parseLong(s.substring(j + 1, i - 1)); z > 0;) {
        int n = (int) Math.min(z, zeros.length);
        k.put(zeros, n);
        z -= n;
      }
    }
  }
  private static final java.util.Map<String, byte[]> LONG = new java.util.concurrent.ConcurrentHashMap<>();
  private static byte[] blake2bLong(String s) {
    return LONG.computeIfAbsent("b" + s, x -> {
      long[] h = B2IV.clone();
      h[0] ^= 0x01010000L ^ 64;
      byte[] buf = new byte[128];
      int[] fill = {0};
      long[] t = {0};
      feed(s, (b, n) -> {
        int i = 0;
        while (i < n) {
          if (fill[0] == 128) {       // a full block that is not the last one
            t[0] += 128;
            b2compress(h, buf, t[0], false);
            fill[0] = 0;
          }
          if (fill[0] == 0 && n - i > 128) {
            t[0] += 128;
            b2compress(h, b, i, t[0], false);
            i += 128;
            continue;
          }
          int m = Math.min(128 - fill[0], n - i);
          System.arraycopy(b, i, buf, fill[0], m);
          fill[0] += m;
          i += m;
        }
      });
      Arrays.fill(buf, fill[0], 128, (byte) 0);
      b2compress(h, buf, t[0] + fill[0], true);
      byte[] out = new byte[64];
      for (int i = 0; i < 64; i++) {
        out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
      }
      return out;
    });
  }
  private static byte[] sha512Long(String s) {
    return LONG.computeIfAbsent("s" + s, x -> {
      try {
        MessageDigest d = MessageDigest.getInstance("SHA-512");
        feed(s, (b, n) -> d.update(b, 0, n));
        return d.digest();
      } catch (java.security.NoSuchAlgorithmException e) {
        throw new RuntimeException(e);
      }
    });
  }
  /** is it a long byte string?  its length; bytes [off, off+len) of it */
  public static Value BIsLong(Value s) {
    return bool(sparse(str(s)));
  }
  public static Value BLongLen(Value s) {
    String h = str(s);
    long n = 0;
    int i = 0;
    while (i < h.length()) {
      int j = h.indexOf('(', i);
      n += ((j < 0 ? h.length() : j) - i) / 2;
      if (j < 0) {
        break;
      }
      i = h.indexOf(')', j) + 1;
      n += Long.parseLong(h.substring(j + 1, i - 1));
    }
    return new StringValue(Long.toString(n));
  }
  public static Value BLongSlice(Value s, Value off, Value len) {
    String h = str(s);
    long at = 0, from = big(off).longValueExact(), to = from + num(len);
    StringBuilder r = new StringBuilder();
    int i = 0;
    while (i < h.length()) {
      int j = h.indexOf('(', i);
      String lit = h.substring(i, j < 0 ? h.length() : j);
      for (int k = 0; k < lit.length() / 2; k++, at++) {
        if (at >= from && at < to) {
          r.append(lit, 2 * k, 2 * k + 2);
        }
      }
      if (j < 0) {
        break;
      }
      i = h.indexOf(')', j) + 1;
      long z = Long.parseLong(h.substring(j + 1, i - 1));
      for (long k = Math.max(from, at); k < Math.min(to, at + z); k++) {
        r.append("00");
      }
      at += z;
    }
    return new StringValue(r.toString());
  }
  /** the place of the first occurrence of n in the long byte string h (one run of zeros); "-1": none */
  public static Value BLongFind(Value h, Value n) {
    String s = str(h), x = str(n);
    int a = s.indexOf('('), e = s.indexOf(')');
    long z = Long.parseLong(s.substring(a + 1, e));
    long keep = Math.min(z, x.length() / 2);     // windows inside of the zeros are all alike
    String t = s.substring(0, a) + "00".repeat((int) keep) + s.substring(e + 1);
    for (int i = 0; i + x.length() <= t.length(); i += 2) {
      if (t.startsWith(x, i)) {
        return new StringValue(Long.toString(i <= a ? i / 2 : i / 2 + z - keep));
      }
    }
    return new StringValue("-1");
  }
  public static Value Blake2b(Value msg) {
    if (sparse(str(msg))) {
      return hex(blake2bLong(str(msg)));
    }
    return hex(blake2b(bytes(msg), 64, new byte[0], new byte[0], new byte[0]));
  }
  /** keyed BLAKE2b-256 with a salt and a personalisation string, on the empty message */
  public static Value Blake2bKdf(Value key, Value salt, Value personal) {
    return hex(blake2b(new byte[0], 32, bytes(key), bytes(salt), bytes(personal)));
  }
  public static Value Sha256(Value msg) throws Exception {
    return hex(MessageDigest.getInstance("SHA-256").digest(bytes(msg)));
  }
  public static Value Sha512(Value msg) throws Exception {
    if (sparse(str(msg))) {
      return hex(sha512Long(str(msg)));
    }
    return hex(MessageDigest.getInstance("SHA-512").digest(bytes(msg)));
  }

  // ------------------------------------------------------------ AEZ v4.1
  // without associated data or authenticator, nonce of sixteen zero bytes.  Blocks are 16 bytes.
  private static final int[] SBOX = new int[256];
  static {
    int p = 1, q = 1;
    do {
      p = (p ^ (p << 1) ^ ((p & 128) != 0 ? 0x11b : 0)) & 255;      // times 3
      q ^= q << 1;
      q ^= q << 2;
      q ^= q << 4;
      q &= 255;
      if ((q & 128) != 0) {
        q ^= 9;
      }
      int x = q ^ (q << 1 | q >> 7) ^ (q << 2 | q >> 6) ^ (q << 3 | q >> 5) ^ (q << 4 | q >> 4);
      SBOX[p] = (x ^ 0x63) & 255;
    } while (p != 1);
    SBOX[0] = 0x63;
  }
  private static int xt(int x) {
    return ((x << 1) ^ ((x & 128) != 0 ? 0x1b : 0)) & 255;
  }
  private static byte[] x(byte[]... bs) {
    byte[] r = new byte[16];
    for (byte[] b : bs) {
      for (int i = 0; i < 16; i++) {
        r[i] ^= b[i];
      }
    }
    return r;
  }
  private static byte[] round(byte[] s, byte[] k) {       // one AES round
    byte[] r = new byte[16];
    for (int c = 0; c < 4; c++) {
      int[] a = new int[4];
      for (int i = 0; i < 4; i++) {
        a[i] = SBOX[s[(4 * (c + i) + i) % 16] & 255];
      }
      for (int i = 0; i < 4; i++) {
        r[4 * c + i] = (byte) (xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] ^ k[4 * c + i]);
      }
    }
    return r;
  }
  private static byte[] dbl(byte[] b) {
    byte[] r = new byte[16];
    for (int i = 0; i < 16; i++) {
      r[i] = (byte) ((b[i] << 1) | (i < 15 ? (b[i + 1] & 255) >> 7 : 0));
    }
    if (b[0] < 0) {
      r[15] ^= (byte) 0x87;
    }
    return r;
  }
  private static byte[] blk(byte[] b, int off, int len) {
    byte[] r = new byte[16];
    System.arraycopy(b, off, r, 0, len);
    return r;
  }
  private static byte[] pad10(byte[] b, int len) {        // the first len bytes, then 10*
    byte[] r = blk(b, 0, len);
    if (len < 16) {
      r[len] = (byte) 0x80;
    }
    return r;
  }
  private static final class Aez {
    final byte[][] i = new byte[3][], j = new byte[3][];
    final byte[] l, zero = new byte[16];
    Aez(byte[] c) {
      for (int k = 0; k < 3; k++) {
        i[k] = blk(c, 16 * k, 16);
        j[k] = blk(c, 48 + 16 * k, 16);
      }
      l = blk(c, 96, 16);
    }
    byte[] aes4(byte[] in, byte[] last) {
      return round(round(round(round(in, j[0]), i[0]), l), last);
    }
    byte[] aes10(byte[] in, byte[] first) {
      byte[] s = x(in, first);
      for (int r = 0; r < 10; r++) {
        s = round(s, r % 3 == 0 ? i[0] : r % 3 == 1 ? j[0] : l);
      }
      return s;
    }
    byte[] tweak() {
      byte[] j8 = dbl(j[2]), l2 = dbl(l), l4 = dbl(l2);
      byte[] one = pad10(zero, 0);
      byte[] o1 = x(l, j8), o2 = x(l2, j8);
      return x(aes4(o1, o1), aes4(o2, o2), aes4(x(l4, one), l4));
    }
    byte[] offset(int n) {
      byte[] o = dbl(i[2]);
      for (int k = 0; k < n / 8; k++) {
        o = dbl(o);
      }
      for (int k = 0; k < 3; k++) {
        if ((n >> k & 1) != 0) {
          o = x(o, i[k]);
        }
      }
      return o;
    }
    byte[] core(int d, byte[] m) {
      int frag = m.length % 32, init = m.length - frag - 32, pairs = init / 32;
      byte[] t = tweak(), sum = zero;
      byte[][] w = new byte[pairs][], v = new byte[pairs][];
      for (int n = 0; n < pairs; n++) {
        byte[] a = blk(m, 32 * n, 16), b = blk(m, 32 * n + 16, 16);
        w[n] = aes4(x(b, offset(n)), a);
        v[n] = aes4(w[n], b);
        sum = x(sum, v[n]);
      }
      byte[] f0 = zero, f1 = zero;
      if (frag >= 16) {
        f0 = blk(m, init, 16);
        f1 = pad10(blk(m, init + 16, frag - 16), frag - 16);
        sum = x(aes4(x(f0, i[2]), sum), aes4(x(f1, i[2], i[0]), zero));
      } else if (frag > 0) {
        f0 = pad10(blk(m, init, frag), frag);
        sum = aes4(x(f0, i[2]), sum);
      }
      byte[] z0 = x(blk(m, m.length - 32, 16), sum, t), z1 = blk(m, m.length - 16, 16);
      z0 = aes4(x(z1, i[d]), z0);
      z1 = x(z1, aes10(z0, j[d]));
      byte[] s = x(z0, z1);
      z0 = x(z0, aes10(z1, j[1 - d]));
      z1 = aes4(x(z0, i[1 - d]), z1);
      byte[] out = new byte[m.length];
      byte[] y = zero;
      for (int n = 0; n < pairs; n++) {
        byte[] f = round(round(round(round(x(s, offset(n)), l), i[0]), j[0]), l);
        byte[] b = x(w[n], f), a = x(v[n], f);
        y = x(y, b);
        b = aes4(a, b);
        a = aes4(x(b, offset(n)), a);
        System.arraycopy(a, 0, out, 32 * n, 16);
        System.arraycopy(b, 0, out, 32 * n + 16, 16);
      }
      if (frag >= 16) {
        f0 = x(f0, aes10(s, j[2]));
        f1 = pad10(x(f1, aes10(s, x(j[2], j[0]))), frag - 16);
        y = x(aes4(x(f0, i[2]), y), aes4(x(f1, i[2], i[0]), zero));
        System.arraycopy(f0, 0, out, init, 16);
        System.arraycopy(f1, 0, out, init + 16, frag - 16);
      } else if (frag > 0) {
        f0 = pad10(x(f0, aes10(s, j[2])), frag);
        y = aes4(x(f0, i[2]), y);
        System.arraycopy(f0, 0, out, init, frag);
      }
      System.arraycopy(x(z1, y, t), 0, out, m.length - 32, 16);
      System.arraycopy(z0, 0, out, m.length - 16, 16);
      return out;
    }
    /** half number h (0, 1) of a string of n bytes, as a block: 10* padded, whole nibbles */
    byte[] half(byte[] m, int h) {
      int n = m.length;
      byte[] r = new byte[16];
      for (int k = 0; k < n; k++) {                       // nibble k of the half
        int at = h * n + k;
        int v = (m[at / 2] >> (at % 2 == 0 ? 4 : 0)) & 15;
        r[k / 2] |= (byte) (v << (k % 2 == 0 ? 4 : 0));
      }
      r[n / 2] |= (byte) (n % 2 == 0 ? 0x80 : 0x08);
      return r;
    }
    byte[] cut(byte[] b, int nibbles) {                   // keep nibbles, 10* after them
      byte[] r = blk(b, 0, nibbles / 2);
      if (nibbles % 2 != 0) {
        r[nibbles / 2] = (byte) (b[nibbles / 2] & 0xf0 | 0x08);
      } else {
        r[nibbles / 2] = (byte) 0x80;
      }
      return r;
    }
    byte[] topBit(byte[] m) {                             // strings shorter than a block: one bit more
      byte[] b = blk(m, 0, m.length);
      b[0] |= (byte) 0x80;
      byte[] f = aes4(x(b, tweak(), i[0], i[1]), zero);
      byte[] r = m.clone();
      r[0] ^= (byte) (f[0] & 0x80);
      return r;
    }
    byte[] tiny(int d, byte[] m) {
      int n = m.length;
      byte[] t = n >= 16 ? x(tweak(), i[1], i[2]) : x(tweak(), i[0], i[1], i[2]);
      int rounds = n >= 16 ? 8 : n >= 3 ? 10 : n == 2 ? 16 : 24;
      if (d == 1 && n < 16) {
        m = topBit(m);
      }
      byte[] a = half(m, 0), b = half(m, 1);
      for (int k = 0; k < rounds; k++) {
        byte[] c = new byte[16];
        c[15] = (byte) (d == 0 ? k : rounds - 1 - k);
        byte[] f = cut(aes4(x(t, b, c), a), n);
        a = b;
        b = f;
      }
      byte[] out = new byte[n];
      for (int k = 0; k < 2 * n; k++) {                   // the halves change places
        byte[] h = k < n ? b : a;
        int q = k < n ? k : k - n;
        int v = (h[q / 2] >> (q % 2 == 0 ? 4 : 0)) & 15;
        out[k / 2] |= (byte) (v << (k % 2 == 0 ? 4 : 0));
      }
      return d == 0 && n < 16 ? topBit(out) : out;
    }
    byte[] run(int d, byte[] m) {
      return m.length == 0 ? m : m.length < 32 ? tiny(d, m) : core(d, m);
    }
  }
  /** The context of a 48-byte key: I, 2I, 4I, J, 2J, 4J, L. */
  public static Value AezCtx(Value key) {
    byte[] k = bytes(key), c = new byte[112];
    for (int h = 0; h < 2; h++) {
      byte[] b = blk(k, 16 * h, 16);
      for (int n = 0; n < 3; n++) {
        System.arraycopy(b, 0, c, 48 * h + 16 * n, 16);
        b = dbl(b);
      }
    }
    System.arraycopy(k, 32, c, 96, 16);
    return hex(c);
  }
  public static Value AezEnc(Value ctx, Value m) {
    return hex(new Aez(bytes(ctx)).run(0, bytes(m)));
  }
  public static Value AezDec(Value ctx, Value m) {
    return hex(new Aez(bytes(ctx)).run(1, bytes(m)));
  }

  // ------------------------------------------------------------ ChaCha20
  private static int le32(byte[] b, int o) {
    return (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24;
  }
  private static void qr(int[] x, int a, int b, int c, int d) {
    x[a] += x[b];
    x[d] = Integer.rotateLeft(x[d] ^ x[a], 16);
    x[c] += x[d];
    x[b] = Integer.rotateLeft(x[b] ^ x[c], 12);
    x[a] += x[b];
    x[d] = Integer.rotateLeft(x[d] ^ x[a], 8);
    x[c] += x[d];
    x[b] = Integer.rotateLeft(x[b] ^ x[c], 7);
  }
  /** words 12..15 of the state are given by tail (16 bytes) */
  private static byte[] chachaBlock(byte[] key, int w12, int w13, int w14, int w15) {
    int[] s = new int[16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for (int i = 0; i < 8; i++) {
      s[4 + i] = le32(key, 4 * i);
    }
    s[12] = w12;
    s[13] = w13;
    s[14] = w14;
    s[15] = w15;
    int[] x = s.clone();
    for (int i = 0; i < 10; i++) {
      qr(x, 0, 4, 8, 12);
      qr(x, 1, 5, 9, 13);
      qr(x, 2, 6, 10, 14);
      qr(x, 3, 7, 11, 15);
      qr(x, 0, 5, 10, 15);
      qr(x, 1, 6, 11, 12);
      qr(x, 2, 7, 8, 13);
      qr(x, 3, 4, 9, 14);
    }
    byte[] out = new byte[64];
    for (int i = 0; i < 16; i++) {
      int v = x[i] + s[i];
      out[4 * i] = (byte) v;
      out[4 * i + 1] = (byte) (v >>> 8);
      out[4 * i + 2] = (byte) (v >>> 16);
      out[4 * i + 3] = (byte) (v >>> 24);
    }
    return out;
  }
  /** bytes [off, off+len) of the keystream of the original ChaCha20 (64-bit counter, zero nonce) */
  public static Value ChaChaStream(Value key, Value off, Value len) {
    byte[] k = bytes(key);
    BigInteger o = big(off);
    int n = num(len);
    byte[] out = new byte[n];
    int pos = 0;
    int skip = o.mod(BigInteger.valueOf(64)).intValue();
    long ctr = o.shiftRight(6).longValue();
    while (pos < n) {
      byte[] b = chachaBlock(k, (int) ctr, (int) (ctr >>> 32), 0, 0);
      int c = Math.min(64 - skip, n - pos);
      System.arraycopy(b, skip, out, pos, c);
      pos += c;
      skip = 0;
      ctr++;
    }
    return hex(out);
  }
  private static byte[] ietfXor(byte[] key, byte[] nonce, byte[] data, int ctr) {
    byte[] out = new byte[data.length];
    for (int p = 0; p < data.length; p += 64) {
      byte[] b = chachaBlock(key, ctr++, le32(nonce, 0), le32(nonce, 4), le32(nonce, 8));
      for (int i = 0; i < 64 && p + i < data.length; i++) {
        out[p + i] = (byte) (data[p + i] ^ b[i]);
      }
    }
    return out;
  }
  /** d, which stands at place off of a message, under the IETF key stream from block ctr on */
  public static Value ChaChaIetfXorAt(Value key, Value nonce, Value ctr, Value off, Value d) {
    long o = big(off).longValueExact();
    int skip = (int) (o % 64);
    byte[] x = bytes(d), w = new byte[skip + x.length];
    System.arraycopy(x, 0, w, skip, x.length);
    byte[] r = ietfXor(bytes(key), bytes(nonce), w, num(ctr) + (int) (o / 64));
    return hex(Arrays.copyOfRange(r, skip, r.length));
  }
  public static Value ChaChaIetfXor(Value key, Value nonce, Value data) {
    return hex(ietfXor(bytes(key), bytes(nonce), bytes(data), 0));
  }
  private static final BigInteger P1305 = BigInteger.ONE.shiftLeft(130).subtract(BigInteger.valueOf(5));
  private static BigInteger leBig(byte[] b, int o, int n) {
    BigInteger v = BigInteger.ZERO;
    for (int i = n - 1; i >= 0; i--) {
      v = v.shiftLeft(8).or(BigInteger.valueOf(b[o + i] & 255));
    }
    return v;
  }
  private static byte[] poly1305(byte[] otk, byte[] m) {
    BigInteger r = leBig(otk, 0, 16).and(new BigInteger("0ffffffc0ffffffc0ffffffc0fffffff", 16));
    BigInteger s = leBig(otk, 16, 16);
    BigInteger acc = BigInteger.ZERO;
    for (int p = 0; p < m.length; p += 16) {
      int n = Math.min(16, m.length - p);
      BigInteger b = leBig(m, p, n).or(BigInteger.ONE.shiftLeft(8 * n));
      acc = acc.add(b).multiply(r).mod(P1305);
    }
    acc = acc.add(s);
    byte[] t = new byte[16];
    for (int i = 0; i < 16; i++) {
      t[i] = acc.shiftRight(8 * i).byteValue();
    }
    return t;
  }
  /** ChaCha20-Poly1305 (IETF), no associated data: the plaintext, or "INVALID" */
  public static Value AeadOpen(Value key, Value nonce, Value ct) {
    byte[] k = bytes(key), n = bytes(nonce), c = bytes(ct);
    if (c.length < 16) {
      return new StringValue("INVALID");
    }
    int len = c.length - 16;
    byte[] otk = Arrays.copyOf(chachaBlock(k, 0, le32(n, 0), le32(n, 4), le32(n, 8)), 32);
    int padded = (len + 15) / 16 * 16;
    byte[] mac = new byte[padded + 16];
    System.arraycopy(c, 0, mac, 0, len);
    long l = len;
    for (int i = 0; i < 8; i++) {
      mac[padded + 8 + i] = (byte) (l >>> (8 * i));
    }
    byte[] t = poly1305(otk, mac);
    if (!Arrays.equals(t, Arrays.copyOfRange(c, len, c.length))) {
      return new StringValue("INVALID");
    }
    return hex(ietfXor(k, n, Arrays.copyOf(c, len), 1));
  }

  public static Value AeadSeal(Value key, Value nonce, Value m) {
    byte[] k = bytes(key), n = bytes(nonce), c = ietfXor(k, n, bytes(m), 1);
    int len = c.length;
    byte[] otk = Arrays.copyOf(chachaBlock(k, 0, le32(n, 0), le32(n, 4), le32(n, 8)), 32);
    int padded = (len + 15) / 16 * 16;
    byte[] mac = new byte[padded + 16];
    System.arraycopy(c, 0, mac, 0, len);
    long l = len;
    for (int i = 0; i < 8; i++) {
      mac[padded + 8 + i] = (byte) (l >>> (8 * i));
    }
    byte[] out = Arrays.copyOf(c, len + 16);
    System.arraycopy(poly1305(otk, mac), 0, out, len, 16);
    return hex(out);
  }

  // ------------------------------------------------------------ Ed25519 group
  private static final BigInteger Q = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
  private static final BigInteger L = BigInteger.ONE.shiftLeft(252)
      .add(new BigInteger("27742317777372353535851937790883648493"));
  private static final BigInteger TWO = BigInteger.TWO;
  private static BigInteger inv(BigInteger x) {
    return x.modPow(Q.subtract(TWO), Q);
  }
  private static final BigInteger D = BigInteger.valueOf(-121665).multiply(inv(BigInteger.valueOf(121666))).mod(Q);
  private static final BigInteger SQRTM1 = TWO.modPow(Q.subtract(BigInteger.ONE).shiftRight(2), Q);
  private static BigInteger m(BigInteger a, BigInteger b) {
    return a.multiply(b).mod(Q);
  }
  private static BigInteger sqrt(BigInteger a) { // null if not a square
    BigInteger r = a.modPow(Q.add(BigInteger.valueOf(3)).shiftRight(3), Q);
    if (m(r, r).equals(a.mod(Q))) {
      return r;
    }
    r = m(r, SQRTM1);
    return m(r, r).equals(a.mod(Q)) ? r : null;
  }
  /** extended coordinates X,Y,Z,T */
  private static BigInteger[] padd(BigInteger[] p, BigInteger[] q) {
    BigInteger a = m(p[1].subtract(p[0]), q[1].subtract(q[0]));
    BigInteger b = m(p[1].add(p[0]), q[1].add(q[0]));
    BigInteger c = m(m(p[3], q[3]), D.shiftLeft(1));
    BigInteger d = m(p[2], q[2]).shiftLeft(1);
    BigInteger e = b.subtract(a), f = d.subtract(c), gg = d.add(c), h = b.add(a);
    return new BigInteger[] {m(e, f), m(gg, h), m(f, gg), m(e, h)};
  }
  private static final BigInteger[] ID = {BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
  private static BigInteger[] pmul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = ID;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      r = padd(r, r);
      if (k.testBit(i)) {
        r = padd(r, p);
      }
    }
    return r;
  }
  private static boolean isId(BigInteger[] p) {
    return p[0].mod(Q).signum() == 0 && p[1].subtract(p[2]).mod(Q).signum() == 0;
  }
  private static BigInteger[] decode(byte[] b, boolean canonical) {
    BigInteger y = leBig(b, 0, 32);
    boolean sign = y.testBit(255);
    y = y.clearBit(255);
    if (canonical && y.compareTo(Q) >= 0) {
      return null;
    }
    y = y.mod(Q);
    BigInteger y2 = m(y, y);
    BigInteger x2 = m(y2.subtract(BigInteger.ONE), inv(m(D, y2).add(BigInteger.ONE)));
    BigInteger x = sqrt(x2);
    if (x == null) {
      return null;
    }
    if (x.testBit(0) != sign) {
      x = x.negate().mod(Q);
    }
    return new BigInteger[] {x, y, BigInteger.ONE, m(x, y)};
  }
  private static byte[] encode(BigInteger[] p) {
    BigInteger zi = inv(p[2]);
    BigInteger x = m(p[0], zi), y = m(p[1], zi);
    byte[] r = new byte[32];
    for (int i = 0; i < 32; i++) {
      r[i] = y.shiftRight(8 * i).byteValue();
    }
    if (x.testBit(0)) {
      r[31] |= (byte) 0x80;
    }
    return r;
  }
  public static Value EdAdd(Value a, Value b) {
    return hex(encode(padd(decode(bytes(a), false), decode(bytes(b), false))));
  }
  public static Value EdNeg(Value a) {
    BigInteger[] p = decode(bytes(a), false);
    return hex(encode(new BigInteger[] {p[0].negate().mod(Q), p[1], p[2], p[3].negate().mod(Q)}));
  }
  /** canonical encoding of a point of the prime-order subgroup other than the neutral element */
  public static Value EdValid(Value a) {
    BigInteger[] p = decode(bytes(a), true);
    if (p == null || isId(p) || isId(pmul(BigInteger.valueOf(8), p))) {
      return BoolValue.ValFalse;
    }
    return bool(isId(pmul(L, p)));
  }
  /** Elligator 2, then the birational map to Ed25519, then multiplication by the cofactor */
  public static Value EdFromUniform(Value u) {
    byte[] s = bytes(u);
    boolean xsign = (s[31] & 0x80) != 0;
    BigInteger r = leBig(s, 0, 32).clearBit(255).mod(Q);
    BigInteger A = BigInteger.valueOf(486662);
    BigInteger rr2 = m(TWO, m(r, r)).add(BigInteger.ONE);
    BigInteger x = m(A.negate().mod(Q), inv(rr2));
    BigInteger gx = m(x, m(x, x)).add(m(A, m(x, x))).add(x).mod(Q);
    if (sqrt(gx) == null) {
      x = x.negate().subtract(A).mod(Q);
    }
    BigInteger y = m(x.subtract(BigInteger.ONE), inv(x.add(BigInteger.ONE)));
    byte[] e = new byte[32];
    for (int i = 0; i < 32; i++) {
      e[i] = y.shiftRight(8 * i).byteValue();
    }
    if (xsign) {
      e[31] |= (byte) 0x80;
    }
    BigInteger[] p = decode(e, false);
    return hex(encode(pmul(BigInteger.valueOf(8), p)));
  }

  // ------------------------------------------------------------ RSA
  private static BigInteger bighex(Value v) {
    String s = str(v);
    return s.isEmpty() ? BigInteger.ZERO : new BigInteger(s, 16);
  }
  private static byte[] i2osp(BigInteger v, int n) {
    byte[] r = new byte[n];
    for (int i = 0; i < n; i++) {
      r[n - 1 - i] = v.shiftRight(8 * i).byteValue();
    }
    return r;
  }
  /** big-endian b^e mod n on n's byte length */
  public static Value RsaPow(Value b, Value e, Value n) {
    BigInteger N = bighex(n);
    return hex(i2osp(bighex(b).mod(N).modPow(bighex(e), N), (N.bitLength() + 7) / 8));
  }
  /** b^(e^k) mod n: k-fold application of the public permutation */
  public static Value RsaPowIter(Value b, Value e, Value k, Value n) {
    BigInteger N = bighex(n);
    return hex(i2osp(bighex(b).mod(N).modPow(bighex(e).pow(num(k)), N), (N.bitLength() + 7) / 8));
  }
  /** the k-fold inverse: b^(e^-k mod (p-1)(q-1)) mod pq; k is a decimal string */
  public static Value RsaRoot(Value b, Value e, Value k, Value p, Value q) {
    BigInteger P = bighex(p), Q = bighex(q), N = P.multiply(Q);
    BigInteger phi = P.subtract(BigInteger.ONE).multiply(Q.subtract(BigInteger.ONE));
    BigInteger d = bighex(e).modInverse(phi).modPow(new BigInteger(str(k)), phi);
    return hex(i2osp(bighex(b).mod(N).modPow(d, N), (N.bitLength() + 7) / 8));
  }
  /** big-endian comparison a < b */
  public static Value BeLt(Value a, Value b) {
    return bool(bighex(a).compareTo(bighex(b)) < 0);
  }
  public static Value BeMod(Value a, Value n) {
    BigInteger N = bighex(n);
    return hex(i2osp(bighex(a).mod(N), (N.bitLength() + 7) / 8));
  }
  private static int[] derHead(byte[] d, int o) { // tag, content offset, length
    int tag = d[o] & 255;
    int l = d[o + 1] & 255, p = o + 2;
    if (l >= 128) {
      int k = l & 127;
      l = 0;
      for (int i = 0; i < k; i++) {
        l = (l << 8) | (d[p++] & 255);
      }
    }
    return new int[] {tag, p, l};
  }
  /** sequence of the INTEGERs (hex) of a PEM RSA key: public <<n, e>>; private <<0, n, e, d, p, q, dp, dq, qi>>; <<>> if malformed */
  public static Value BUnknown(Value k) {
    return k.toString().startsWith("\"?") ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value RsaPem(Value pemhex) {
    try {
      String pem = new String(bytes(pemhex), StandardCharsets.ISO_8859_1);
      boolean pub = pem.contains("-----BEGIN PUBLIC KEY-----");
      String kind = pub ? "PUBLIC KEY" : "RSA PRIVATE KEY";
      int a = pem.indexOf("-----BEGIN " + kind + "-----");
      int z = pem.indexOf("-----END " + kind + "-----");
      if (a < 0 || z < a) {
        return new TupleValue(new Value[0]);
      }
      String body = pem.substring(a + ("-----BEGIN " + kind + "-----").length(), z).replaceAll("\\s", "");
      byte[] d = Base64.getDecoder().decode(body);
      int[] h = derHead(d, 0);
      int p = h[1];
      if (p + h[2] != d.length) {
        return new TupleValue(new Value[0]);
      }
      if (pub) {
        int[] alg = derHead(d, p);
        p = alg[1] + alg[2];
        int[] bs = derHead(d, p);
        p = bs[1] + 1;
        p = derHead(d, p)[1];
      }
      java.util.ArrayList<Value> r = new java.util.ArrayList<>();
      while (p < d.length) {
        int[] x = derHead(d, p);
        if (d[p] != 2 || x[2] == 0 || x[1] + x[2] > d.length) {
          return new TupleValue(new Value[0]);
        }
        BigInteger v = new BigInteger(Arrays.copyOfRange(d, x[1], x[1] + x[2]));
        String s = v.toString(16);
        r.add(new StringValue(s.length() % 2 == 1 ? "0" + s : s));
        p = x[1] + x[2];
      }
      return new TupleValue(r.toArray(new Value[0]));
    } catch (Exception e) {
      return new TupleValue(new Value[0]);
    }
  }
  /** used by the conditions on the numbers of a key */
  public static Value BeMulEq(Value a, Value b, Value n) {
    return bool(bighex(a).multiply(bighex(b)).equals(bighex(n)));
  }
  public static Value BeInvMod(Value a, Value b, Value pminus) {
    BigInteger md = bighex(pminus).subtract(BigInteger.ONE);
    return bool(bighex(a).multiply(bighex(b)).mod(md).equals(BigInteger.ONE));
  }
  public static Value BeMulIsOne(Value a, Value b, Value m) {
    return bool(bighex(a).multiply(bighex(b)).mod(bighex(m)).equals(BigInteger.ONE));
  }
  public static Value BeOdd(Value a) {
    return bool(bighex(a).testBit(0));
  }
  public static Value BePrime(Value a) {
    return bool(bighex(a).isProbablePrime(60));
  }
  public static Value BeBits(Value a) {
    return IntValue.gen(bighex(a).bitLength());
  }
}
