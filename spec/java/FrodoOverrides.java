// Accelerated versions of operators defined in spec/*.tla.  Each is checked against the
// TLA+ definition it replaces by SelfCheck.tla (operator X against its definition XDef).
import java.util.*;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class FrodoOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { FrodoOverrides.class }; }

  // ---------------------------------------------------------------- conversions
  static final Value[] SMALL = new Value[65536];
  static { for (int i = 0; i < 65536; i++) SMALL[i] = IntValue.gen(i); }
  static Value iv(int v) { return v >= 0 && v < 65536 ? SMALL[v] : IntValue.gen(v); }
  static int i(Value v) { return ((IntValue) v).val; }
  static TupleValue tup(Value v) {
    if (v instanceof TupleValue) return (TupleValue) v;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v.getClass());
    return t;
  }
  static int[] ints(Value v) {
    Value[] e = tup(v).elems; int[] r = new int[e.length];
    for (int k = 0; k < r.length; k++) r[k] = ((IntValue) e[k]).val;
    return r;
  }
  static byte[] bytes(Value v) {
    Value[] e = tup(v).elems; byte[] r = new byte[e.length];
    for (int k = 0; k < r.length; k++) {
      int x = ((IntValue) e[k]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
      r[k] = (byte) x;
    }
    return r;
  }
  static Value seq(byte[] b) {
    Value[] e = new Value[b.length];
    for (int k = 0; k < e.length; k++) e[k] = SMALL[b[k] & 255];
    return new TupleValue(e);
  }
  static Value seq(int[] b) {
    Value[] e = new Value[b.length];
    for (int k = 0; k < e.length; k++) e[k] = iv(b[k]);
    return new TupleValue(e);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }

  // ---------------------------------------------------------------- byte strings
  @TLAPlusOperator(identifier = "Words", module = "Bytes", warn = false)
  public static Value words(Value s) {
    byte[] b = bytes(s); int[] r = new int[b.length / 2];
    for (int k = 0; k < r.length; k++) r[k] = (b[2*k] & 255) | (b[2*k+1] & 255) << 8;
    return seq(r);
  }
  @TLAPlusOperator(identifier = "UnWords", module = "Bytes", warn = false)
  public static Value unwords(Value w) {
    int[] v = ints(w); byte[] r = new byte[2 * v.length];
    for (int k = 0; k < v.length; k++) { r[2*k] = (byte) v[k]; r[2*k+1] = (byte) (v[k] >> 8); }
    return seq(r);
  }
  @TLAPlusOperator(identifier = "HexBytes", module = "Bytes", warn = false)
  public static Value hexBytes(Value s) {
    String h = str(s); byte[] r = new byte[h.length() / 2];
    for (int k = 0; k < r.length; k++)
      r[k] = (byte) (Character.digit(h.charAt(2*k), 16) << 4 | Character.digit(h.charAt(2*k+1), 16));
    return seq(r);
  }
  @TLAPlusOperator(identifier = "BytesHex", module = "Bytes", warn = false)
  public static Value bytesHex(Value s) {
    byte[] b = bytes(s); StringBuilder sb = new StringBuilder(2 * b.length);
    for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
    return new StringValue(sb.toString());
  }
  @TLAPlusOperator(identifier = "Occurs", module = "Bytes", warn = false)
  public static Value occurs(Value hay, Value needle, Value wv, Value stepv) {
    byte[] h = bytes(hay), nd = bytes(needle); int w = i(wv), step = i(stepv);
    HashMap<Long, List<Integer>> idx = new HashMap<>();
    for (int a = 0; a + w <= nd.length; a += step)
      idx.computeIfAbsent(key(nd, a, w), x -> new ArrayList<>()).add(a);
    for (int b = 0; b + w <= h.length; b++) {
      List<Integer> l = idx.get(key(h, b, w));
      if (l == null) continue;
      for (int a : l) if (Arrays.equals(nd, a, a + w, h, b, b + w)) return BoolValue.ValTrue;
    }
    return BoolValue.ValFalse;
  }
  static long key(byte[] x, int o, int w) {
    long r = 0; for (int k = 0; k < Math.min(w, 8); k++) r = r << 8 | (x[o + k] & 255);
    return r;
  }

  // one image: dense bytes from its lowest to its highest offset, with what is present
  static final class Image { int lo; byte[] b; boolean[] has; }
  static Image image(Value v) {
    Value[] im = tup(v).elems; Value[] sp = tup(im[0]).elems; byte[] data = bytes(im[1]);
    int lo = Integer.MAX_VALUE, hi = 0;
    for (Value s : sp) { int[] t = ints(s); lo = Math.min(lo, t[0]); hi = Math.max(hi, t[0] + t[2]); }
    Image r = new Image(); r.lo = sp.length == 0 ? 0 : lo; r.b = new byte[Math.max(0, hi - r.lo)]; r.has = new boolean[r.b.length];
    for (Value s : sp) { int[] t = ints(s); for (int k = 0; k < t[2]; k++) { r.b[t[0] - r.lo + k] = data[t[1] + k]; r.has[t[0] - r.lo + k] = true; } }
    return r;
  }
  @TLAPlusOperator(identifier = "Lingers", module = "Bytes", warn = false)
  public static Value lingers(Value ims, Value strs, Value wv, Value stepv) {
    Value[] iv = tup(ims).elems, sv = tup(strs).elems; int w = i(wv), step = i(stepv), n = iv.length;
    Image[] im = new Image[n]; byte[][] st = new byte[n][];
    for (int k = 0; k < n; k++) { im[k] = image(iv[k]); st[k] = bytes(sv[k]); }
    HashMap<Long, List<Integer>> idx = new HashMap<>();
    for (int a = 0; a + w <= st[0].length; a += step) idx.computeIfAbsent(key(st[0], a, w), x -> new ArrayList<>()).add(a);
    for (int b = 0; b + w <= im[0].b.length; b++) {
      if (!im[0].has[b]) continue;
      List<Integer> l = idx.get(key(im[0].b, b, w));
      if (l == null) continue;
      next: for (int a : l) {
        for (int r = 0; r < n; r++) for (int k = 0; k < w; k++) {
          int o = b + im[0].lo - im[r].lo + k;
          if (o < 0 || o >= im[r].b.length || !im[r].has[o] || im[r].b[o] != st[r][a + k]) continue next;
        }
        return BoolValue.ValTrue;
      }
    }
    return BoolValue.ValFalse;
  }

  // ---------------------------------------------------------------- Keccak
  static final long[] RC = new long[24];
  static final int[] ROT = new int[25], DST = new int[25];
  static {
    for (int u = 0; u < 5; u++) for (int v = 0; v < 5; v++) DST[u + 5*v] = v + 5*((2*u + 3*v) % 5);
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) { ROT[x + 5*y] = ((t+1)*(t+2)/2) % 64; int nx = y; y = (2*x + 3*y) % 5; x = nx; }
    int R = 1;
    for (int r = 0; r < 24; r++) {
      for (int j = 0; j < 7; j++) {
        if ((R & 1) != 0) RC[r] |= 1L << ((1 << j) - 1);
        R = (R << 1) ^ ((R >> 7) * 0x171); R &= 0xff;
      }
    }
  }
  static void keccak(long[] a) {
    long[] b = new long[25];
    for (int r = 0; r < 24; r++) {
      long c0 = a[0]^a[5]^a[10]^a[15]^a[20], c1 = a[1]^a[6]^a[11]^a[16]^a[21], c2 = a[2]^a[7]^a[12]^a[17]^a[22],
           c3 = a[3]^a[8]^a[13]^a[18]^a[23], c4 = a[4]^a[9]^a[14]^a[19]^a[24];
      long d0 = c4 ^ Long.rotateLeft(c1, 1), d1 = c0 ^ Long.rotateLeft(c2, 1), d2 = c1 ^ Long.rotateLeft(c3, 1),
           d3 = c2 ^ Long.rotateLeft(c4, 1), d4 = c3 ^ Long.rotateLeft(c0, 1);
      for (int y = 0; y < 25; y += 5) {
        b[DST[y]] = Long.rotateLeft(a[y] ^ d0, ROT[y]); b[DST[y+1]] = Long.rotateLeft(a[y+1] ^ d1, ROT[y+1]);
        b[DST[y+2]] = Long.rotateLeft(a[y+2] ^ d2, ROT[y+2]); b[DST[y+3]] = Long.rotateLeft(a[y+3] ^ d3, ROT[y+3]);
        b[DST[y+4]] = Long.rotateLeft(a[y+4] ^ d4, ROT[y+4]);
      }
      for (int y = 0; y < 25; y += 5) {
        long b0 = b[y], b1 = b[y+1], b2 = b[y+2], b3 = b[y+3], b4 = b[y+4];
        a[y] = b0 ^ (~b1 & b2); a[y+1] = b1 ^ (~b2 & b3); a[y+2] = b2 ^ (~b3 & b4); a[y+3] = b3 ^ (~b4 & b0); a[y+4] = b4 ^ (~b0 & b1);
      }
      a[0] ^= RC[r];
    }
  }
  static byte[] shake(int rate, byte[] m, int outlen) {
    long[] a = new long[25];
    int nb = m.length / rate + 1; byte[] p = Arrays.copyOf(m, nb * rate);
    p[m.length] ^= 0x1f; p[p.length - 1] ^= (byte) 0x80;
    for (int b = 0; b < nb; b++) {
      for (int k = 0; k < rate; k++) a[k >> 3] ^= (p[b*rate + k] & 255L) << (8 * (k & 7));
      keccak(a);
    }
    byte[] out = new byte[outlen];
    for (int o = 0; o < outlen; o++) {
      int k = o % rate; if (o > 0 && k == 0) keccak(a);
      out[o] = (byte) (a[k >> 3] >>> (8 * (k & 7)));
    }
    return out;
  }
  @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
  public static Value keccakF(Value s) {
    byte[] b = bytes(s); long[] a = new long[25];
    for (int k = 0; k < 200; k++) a[k >> 3] |= (b[k] & 255L) << (8 * (k & 7));
    keccak(a);
    for (int k = 0; k < 200; k++) b[k] = (byte) (a[k >> 3] >>> (8 * (k & 7)));
    return seq(b);
  }
  @TLAPlusOperator(identifier = "Shake", module = "Keccak", warn = false)
  public static Value shakeOp(Value rate, Value m, Value outlen) {
    byte[] b = bytes(m); Key key = new Key(i(rate) + "/" + i(outlen), b);
    Value hit = SHMEMO.get(key); if (hit != null) return hit;
    Value r = seq(shake(i(rate), b, i(outlen))); SHMEMO.put(key, r); return r;
  }

  @TLAPlusOperator(identifier = "ShakeLong", module = "Keccak", warn = false)
  public static Value shakeLong(Value ratev, Value chunk, Value times, Value rest, Value unit, Value skip, Value lenv) {
    byte[] c = bytes(chunk); int rate = i(ratev), len = i(lenv);
    String tag = "L" + rate + "/" + i(times) + "/" + i(rest) + "/" + i(unit) + "/" + i(skip) + "/" + len;
    Key key = new Key(tag, c); Value hit = SHMEMO.get(key); if (hit != null) return hit;
    long il = (long) i(times) * c.length + i(rest), from = (long) i(unit) * i(skip);
    long[] a = new long[25]; byte[] b = new byte[rate]; long done = 0; int at = 0;
    while (true) {
      int n = (int) Math.min(rate, il - done);
      for (int k = 0; k < n; k++) { b[k] = c[at]; if (++at == c.length) at = 0; }
      done += n;
      if (n < rate) { for (int k = n; k < rate; k++) b[k] = 0; b[n] ^= 0x1f; b[rate - 1] ^= (byte) 0x80; }
      for (int w = 0; w < rate / 8; w++) {
        long x = 0; for (int k = 7; k >= 0; k--) x = x << 8 | (b[8*w + k] & 255L);
        a[w] ^= x;
      }
      keccak(a);
      if (n < rate) break;
    }
    for (long k = from / rate; k > 0; k--) keccak(a);
    byte[] out = new byte[len]; int p = (int) (from % rate);
    for (int o = 0; o < len; o++) { if (p == rate) { keccak(a); p = 0; } out[o] = (byte) (a[p >> 3] >>> (8 * (p & 7))); p++; }
    Value r = seq(out); SHMEMO.put(key, r); return r;
  }

  // ---------------------------------------------------------------- AES
  static byte[] ecb(byte[] key, byte[] data) {
    try {
      Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
      c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"));
      return c.doFinal(data);
    } catch (java.security.GeneralSecurityException e) { throw new RuntimeException(e); }
  }
  @TLAPlusOperator(identifier = "AesBlock", module = "AES", warn = false)
  public static Value aesBlock(Value key, Value blk) { return seq(ecb(bytes(key), bytes(blk))); }
  @TLAPlusOperator(identifier = "AesEcb", module = "AES", warn = false)
  public static Value aesEcb(Value key, Value data) { return seq(ecb(bytes(key), bytes(data))); }

  // ---------------------------------------------------------------- Frodo
  static final class Key {
    final String tag; final byte[] b; final int h;
    Key(String tag, byte[] b) { this.tag = tag; this.b = b; h = tag.hashCode() * 31 + Arrays.hashCode(b); }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return o instanceof Key && ((Key) o).tag.equals(tag) && Arrays.equals(((Key) o).b, b); }
  }
  static <V> Map<Key, V> lru(int cap) {
    return Collections.synchronizedMap(new LinkedHashMap<Key, V>(16, 0.75f, true) {
      protected boolean removeEldestEntry(Map.Entry<Key, V> e) { return size() > cap; }
    });
  }
  static final Map<Key, short[]> AMEMO = lru(64);
  static final Map<Key, Value> SAMEMO = lru(512);
  static final Map<Key, Value> SHMEMO = lru(256);

  static short[] genA(String gen, int n, byte[] seedA) {
    Key key = new Key(gen + n, seedA);
    short[] hit = AMEMO.get(key); if (hit != null) return hit;
    short[] A = new short[n * n];
    if (gen.equals("SHAKE")) {
      byte[] in = new byte[2 + seedA.length]; System.arraycopy(seedA, 0, in, 2, seedA.length);
      for (int r = 0; r < n; r++) {
        in[0] = (byte) r; in[1] = (byte) (r >> 8);
        byte[] o = shake(168, in, 2 * n);
        for (int c = 0; c < n; c++) A[r*n + c] = (short) ((o[2*c] & 255) | (o[2*c+1] & 255) << 8);
      }
    } else {
      byte[] in = new byte[2 * n * n];
      for (int r = 0; r < n; r++) for (int c = 0; c < n; c += 8) {
        int o = 2 * (r*n + c); in[o] = (byte) r; in[o+1] = (byte) (r >> 8); in[o+2] = (byte) c; in[o+3] = (byte) (c >> 8);
      }
      byte[] o = ecb(seedA, in);
      for (int k = 0; k < n*n; k++) A[k] = (short) ((o[2*k] & 255) | (o[2*k+1] & 255) << 8);
    }
    AMEMO.put(key, A);
    return A;
  }
  @TLAPlusOperator(identifier = "SampleVec", module = "Frodo", warn = false)
  public static Value sampleVec(Value chiv, Value w) {
    int[] chi = ints(chiv), r = ints(w), o = new int[r.length], T = new int[chi.length];
    T[0] = chi[0] / 2 - 1; for (int z = 1; z < T.length; z++) T[z] = T[z-1] + chi[z];
    for (int k = 0; k < o.length; k++) {
      int t = r[k] >> 1, e = 0;
      for (int z = 0; z < T.length - 1; z++) if (t > T[z]) e++;
      o[k] = (r[k] & 1) == 1 ? -e : e;
    }
    return seq(o);
  }
  static byte[] le(int[] a, int[] b) {
    byte[] r = new byte[2 * (a.length + b.length)]; int o = 0;
    for (int x : a) { r[o++] = (byte) x; r[o++] = (byte) (x >> 8); }
    for (int x : b) { r[o++] = (byte) x; r[o++] = (byte) (x >> 8); }
    return r;
  }
  @TLAPlusOperator(identifier = "MulAddAS", module = "Frodo", warn = false)
  public static Value mulAddAS(Value gen, Value nv, Value nbv, Value Dv, Value seedA, Value St, Value E) {
    int n = i(nv), nb = i(nbv), m = (1 << i(Dv)) - 1; int[] s = ints(St), e = ints(E);
    short[] A = genA(str(gen), n, bytes(seedA));
    int[] o = new int[n * nb];
    for (int r = 0; r < n; r++) for (int k = 0; k < nb; k++) {
      int sum = e[r*nb + k];
      for (int j = 0; j < n; j++) sum += A[r*n + j] * s[k*n + j];
      o[r*nb + k] = sum & m;
    }
    return seq(o);
  }
  @TLAPlusOperator(identifier = "MulAddSA", module = "Frodo", warn = false)
  public static Value mulAddSA(Value gen, Value nv, Value nbv, Value Dv, Value seedA, Value Sp, Value Ep) {
    int n = i(nv), nb = i(nbv), m = (1 << i(Dv)) - 1; int[] s = ints(Sp), e = ints(Ep);
    byte[] sd = bytes(seedA), se = le(s, e);
    byte[] kb = Arrays.copyOf(sd, sd.length + se.length); System.arraycopy(se, 0, kb, sd.length, se.length);
    Key key = new Key(str(gen) + n, kb);
    Value hit = SAMEMO.get(key); if (hit != null) return hit;
    short[] A = genA(str(gen), n, sd);
    int[] o = e.clone();
    for (int k = 0; k < nb; k++) for (int j = 0; j < n; j++) {
      int sv = s[k*n + j]; if (sv == 0) continue;
      for (int c = 0; c < n; c++) o[k*n + c] += sv * A[j*n + c];
    }
    for (int k = 0; k < o.length; k++) o[k] &= m;
    Value r = seq(o); SAMEMO.put(key, r); return r;
  }
  @TLAPlusOperator(identifier = "MulAddSB", module = "Frodo", warn = false)
  public static Value mulAddSB(Value nv, Value nbv, Value Dv, Value Sp, Value Bm, Value Epp) {
    int n = i(nv), nb = i(nbv), m = (1 << i(Dv)) - 1; int[] s = ints(Sp), b = ints(Bm), e = ints(Epp);
    int[] o = new int[nb * nb];
    for (int k = 0; k < nb; k++) for (int c = 0; c < nb; c++) {
      int sum = e[k*nb + c]; for (int j = 0; j < n; j++) sum += s[k*n + j] * b[j*nb + c];
      o[k*nb + c] = sum & m;
    }
    return seq(o);
  }
  @TLAPlusOperator(identifier = "MulBS", module = "Frodo", warn = false)
  public static Value mulBS(Value nv, Value nbv, Value Dv, Value Bp, Value St) {
    int n = i(nv), nb = i(nbv), m = (1 << i(Dv)) - 1; int[] b = ints(Bp), s = ints(St);
    int[] o = new int[nb * nb];
    for (int r = 0; r < nb; r++) for (int k = 0; k < nb; k++) {
      int sum = 0; for (int j = 0; j < n; j++) sum += b[r*n + j] * s[k*n + j];
      o[r*nb + k] = sum & m;
    }
    return seq(o);
  }
  @TLAPlusOperator(identifier = "Pack", module = "Frodo", warn = false)
  public static Value pack(Value Dv, Value M) {
    int D = i(Dv); int[] v = ints(M); byte[] o = new byte[D * v.length / 8]; long acc = 0; int bits = 0, p = 0;
    for (int x : v) {
      acc = acc << D | (x & ((1 << D) - 1)); bits += D;
      while (bits >= 8) { bits -= 8; o[p++] = (byte) (acc >>> bits); }
      acc &= (1L << bits) - 1;
    }
    return seq(o);
  }
  @TLAPlusOperator(identifier = "Unpack", module = "Frodo", warn = false)
  public static Value unpack(Value Dv, Value s) {
    int D = i(Dv); byte[] v = bytes(s); int[] o = new int[8 * v.length / D]; long acc = 0; int bits = 0, p = 0;
    for (byte x : v) {
      acc = acc << 8 | (x & 255); bits += 8;
      while (bits >= D) { bits -= D; o[p++] = (int) (acc >>> bits); acc &= (1L << bits) - 1; }
    }
    return seq(o);
  }
}
