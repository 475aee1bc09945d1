"""Scripts for the KEM driver. Everything here only chooses inputs; expected results come from the specification."""
import ctypes, hashlib, random
import numpy as np

_crypto = None


def aes128_ecb(key, data):
    """Only used to choose inputs; what they must lead to is decided by the specification."""
    global _crypto
    if _crypto is None:
        _crypto = ctypes.CDLL("libcrypto.so.3")
        for n in ("EVP_CIPHER_CTX_new", "EVP_aes_128_ecb"):
            getattr(_crypto, n).restype = ctypes.c_void_p
    c = ctypes.c_void_p(_crypto.EVP_CIPHER_CTX_new())
    _crypto.EVP_EncryptInit_ex(c, ctypes.c_void_p(_crypto.EVP_aes_128_ecb()), None, bytes(key), None)
    _crypto.EVP_CIPHER_CTX_set_padding(c, 0)
    out, n = ctypes.create_string_buffer(len(data) + 32), ctypes.c_int(0)
    _crypto.EVP_EncryptUpdate(c, out, ctypes.byref(n), bytes(data), len(data))
    _crypto.EVP_CIPHER_CTX_free(c)
    return out.raw[:len(data)]

CHI = {640: (9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1),
       976: (11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1),
       1344: (18286, 14320, 6876, 2023, 364, 40, 2)}


class Params:
    def __init__(self, n):
        self.n, self.nbar = n, 8
        self.D, self.B = {640: (15, 2), 976: (16, 3), 1344: (16, 4)}[n]
        self.len = {640: 16, 976: 24, 1344: 32}[n]
        self.q = 1 << self.D
        self.bB = self.D * n * 8 // 8
        self.bC = self.D * 64 // 8
        self.bS = 2 * n * 8
        self.pk, self.ct = 16 + self.bB, self.bB + self.bC
        self.sk = self.len + self.pk + self.bS + self.len
        self.rk = 2 * self.len + 16
        self.R = 1 << (self.D - self.B - 1)
        T = [CHI[n][0] // 2 - 1]
        for c in CHI[n][1:]:
            T.append(T[-1] + c)
        self.T = np.array(T[:-1])
        # where things lie in a secret key
        self.oPk, self.oS, self.oH = self.len, self.len + self.pk, self.len + self.pk + self.bS

    def H(self, m, l):
        return (hashlib.shake_128 if self.n == 640 else hashlib.shake_256)(bytes(m)).digest(l)

    def sample(self, w):
        w = np.asarray(w).astype(np.int64)
        e = np.searchsorted(self.T, w >> 1, side="left")
        return np.where(w & 1, -e, e)

    def pack(self, M):
        M = np.asarray(M).astype(np.int64).ravel() % self.q
        bits = ((M[:, None] >> np.arange(self.D - 1, -1, -1)) & 1).astype(np.uint8).ravel()
        return np.packbits(bits).tobytes()

    def unpack(self, b):
        bits = np.unpackbits(np.frombuffer(bytes(b), dtype=np.uint8)).reshape(-1, self.D).astype(np.int64)
        return bits @ (1 << np.arange(self.D - 1, -1, -1))

    def encode(self, mu):
        v = int.from_bytes(mu, "little")
        return np.array([((v >> (self.B * i)) & ((1 << self.B) - 1)) << (self.D - self.B) for i in range(64)], dtype=np.int64)

    def enc_noise(self, pkh, mu):
        """S', E', E'' (8 x n, 8 x n, 8 x 8) that encapsulation of mu uses"""
        g = self.H(pkh + mu, 2 * self.len)
        w = np.frombuffer(self.H(b"\x96" + g[:self.len], 4 * self.n * 8 + 128), dtype="<u2")
        s = self.sample(w)
        m = self.n * 8
        return s[:m].reshape(8, self.n), s[m:2*m].reshape(8, self.n), s[2*m:].reshape(8, 8)

    def A(self, gen, seedA):
        if not hasattr(self, "_A"):
            self._A = {}
        if (gen, seedA) not in self._A:
            n = self.n
            if gen == "SHAKE":
                rows = b"".join(hashlib.shake_128(i.to_bytes(2, "little") + seedA).digest(2 * n) for i in range(n))
            else:
                pt = np.zeros((n, n // 8, 8), dtype="<u2")
                pt[:, :, 0] = np.arange(n)[:, None]
                pt[:, :, 1] = (8 * np.arange(n // 8))[None, :]
                rows = aes128_ecb(seedA, pt.tobytes())
            if len(self._A) > 3:
                self._A.clear()
            self._A[gen, seedA] = np.frombuffer(rows, dtype="<u2").reshape(n, n).astype(np.int64)
        return self._A[gen, seedA]

    def solve(self, Sp, T):
        """rows J and an 8x8 matrix X with Sp[:, J] X = T (mod q)"""
        M = Sp & 1
        piv, rows = [], []
        A = M.copy()
        used = [False] * 8
        for j in range(self.n):
            r = next((k for k in range(8) if not used[k] and A[k, j]), None)
            if r is None:
                continue
            used[r] = True
            piv.append(j)
            for k in range(8):
                if k != r and A[k, j]:
                    A[k] ^= A[r]
            if len(piv) == 8:
                break
        if len(piv) < 8:
            return None
        q = self.q
        a = [[int(Sp[k, j]) % q for j in piv] + [int(x) % q for x in T[k]] for k in range(8)]
        for c in range(8):
            r = next(k for k in range(c, 8) if a[k][c] & 1)
            a[c], a[r] = a[r], a[c]
            inv = pow(a[c][c], -1, q)
            a[c] = [x * inv % q for x in a[c]]
            for k in range(8):
                if k != c and a[k][c]:
                    f = a[k][c]
                    a[k] = [(x - f * y) % q for x, y in zip(a[k], a[c])]
        return piv, np.array([row[8:] for row in a], dtype=np.int64)


class Gen:
    """A growing script for one parameter set"""
    def __init__(self, n, seed):
        self.p = Params(n)
        self.r = random.Random("%s/%s" % (n, seed))
        self.o = []

    def add(self, *a):
        self.o.append(" ".join(str(x) for x in a))

    def rb(self, k):
        return self.r.getrandbits(8 * k).to_bytes(k, "big") if k else b""

    def text(self):
        return "\n".join(self.o) + "\n"

    # -- calls
    def K(self, pk=0, sk=1, rnd=None, fail=None):
        rnd = self.rb(self.p.rk) if rnd is None else rnd
        self.add("K", pk, sk, (rnd.hex() or "-") + ("!%d" % fail if fail else ""))
        return rnd

    def E(self, ct=2, ss=3, pk=0, mu=None, fail=None):
        mu = self.rb(self.p.len) if mu is None else mu
        self.add("E", ct, ss, pk, (mu.hex() or "-") + ("!%d" % fail if fail else ""))
        return mu

    def D(self, ss=4, ct=2, sk=1):
        self.add("D", ss, ct, sk)

    def flip(self, b, *bits):
        self.add("F", b, *bits)

    # -- crafted secret keys: S = 0, a chosen public matrix B, a hash of our choosing
    def zero_sk(self, buf, seedA, pkh, b=None, s=None):
        p = self.p
        sk = (self.rb(p.len) if s is None else s) + seedA + (b or bytes(p.bB)) + bytes(p.bS) + pkh
        self.add("W", buf, sk.hex())
        return sk

    def base(self, pkbuf=10, ctbuf=11, ssbuf=12, skbuf=13, mu=None, seedA=None):
        """A secret key with S = 0 whose decapsulation depends on c1 only through the comparison, and a
        ciphertext buffer whose c1 is the right one for mu. Then target() makes any c2 acceptable."""
        p = self.p
        while True:
            sA = self.rb(16) if seedA is None else seedA
            pk = sA + self.rb(p.bB)
            m = self.rb(p.len) if mu is None else mu
            pkh = p.H(pk, p.len)
            Sp, Ep, Epp = p.enc_noise(pkh, m)
            if p.solve(Sp, np.zeros((8, 8), dtype=np.int64)) is not None:
                break
        self.add("W", pkbuf, pk.hex())
        self.E(ctbuf, ssbuf, pkbuf, m)
        self.zero_sk(skbuf, sA, pkh)
        return dict(mu=m, pkh=pkh, Sp=Sp, Epp=Epp, seedA=sA, ct=ctbuf, sk=skbuf)

    def target(self, st, delta, ct=None, sk=None):
        """make c2 = Encode(mu) + delta and choose B so that re-encryption of mu gives exactly that"""
        p = self.p
        ct, sk = st["ct"] if ct is None else ct, st["sk"] if sk is None else sk
        delta = np.asarray(delta, dtype=np.int64).reshape(8, 8)
        J, X = p.solve(st["Sp"], delta - st["Epp"])
        rb = p.D                                   # bytes per row of B
        for j, row in zip(J, X):
            self.add("P", sk, p.oPk + 16 + rb * j, p.pack(row).hex())
        self.add("P", ct, p.bB, p.pack(p.encode(st["mu"]) + delta.ravel()).hex())

    def crafted(self, gen, seedA, St, delta, mu=None, skbuf=13, ctbuf=11, B0=None, s=None):
        """Write a secret key with the given secret matrix (8 x n, any 16-bit values) and a ciphertext that
        this key accepts: mu with the noise delta, whatever St is."""
        p = self.p
        q = p.q
        while True:
            m = self.rb(p.len) if mu is None else mu
            pkh = self.rb(p.len)
            Sp, Ep, Epp = p.enc_noise(pkh, m)
            B = (np.frombuffer(self.rb(2 * p.n * 8), dtype="<u2").reshape(p.n, 8) if B0 is None else B0).astype(np.int64) % q
            Bp = (Sp @ p.A(gen, seedA) + Ep) % q
            BS = Bp @ (np.asarray(St, dtype=np.int64) % 65536).T % q
            V = (np.asarray(delta, dtype=np.int64).reshape(8, 8) + BS) % q
            r = p.solve(Sp, np.zeros((8, 8), dtype=np.int64))
            if r is None:
                continue
            B = B.copy()
            B[r[0]] = 0
            J, X = p.solve(Sp, (V - Epp - Sp @ B) % q)
            B[J] = X
            break
        sk = (self.rb(p.len) if s is None else s) + seedA + p.pack(B) + (np.asarray(St) % 65536).astype("<u2").tobytes() + pkh
        ct = p.pack(Bp) + p.pack(V + p.encode(m).reshape(8, 8))
        self.add("W", skbuf, sk.hex())
        self.add("W", ctbuf, ct.hex())
        return m

    def edge_key(self, pkbuf=20, skbuf=21, ctbuf=22, ssbuf=23, tries=4000, want=2):
        """A coherent key pair (S = 0, B = E with one large entry) and encapsulations whose noise
        reaches the ends of the decoding interval; then the ones just outside."""
        p = self.p
        done = 0
        for m in (4, 3, 2):
            j, i = self.r.randrange(p.n), self.r.randrange(8)
            e = p.R // m
            Bm = np.zeros((p.n, 8), dtype=np.int64)
            Bm[j, i] = e
            sA = self.rb(16)
            pk = sA + p.pack(Bm)
            pkh = p.H(pk, p.len)
            self.add("W", pkbuf, pk.hex())
            self.zero_sk(skbuf, sA, pkh, p.pack(Bm))
            hits = {}
            for _ in range(tries):
                mu = self.rb(p.len)
                g = p.H(pkh + mu, 2 * p.len)
                w = np.frombuffer(p.H(b"\x96" + g[:p.len], 4 * p.n * 8 + 128), dtype="<u2")
                s = p.sample(w[j: p.n * 8: p.n])
                if abs(s).max() != m:
                    continue
                d = s * e + p.sample(w[2 * p.n * 8 + i:: 8])
                inside = ((d >= -p.R) & (d < p.R)).all()
                kind = None
                if inside and (d == p.R - 1).any(): kind = "top"
                elif inside and (d == -p.R).any(): kind = "bottom"
                elif not inside and (d == p.R).any() and d.min() >= -p.R: kind = "over"
                elif not inside and (d == -p.R - 1).any() and d.max() < p.R: kind = "under"
                elif inside and abs(d).max() > p.R - 8: kind = "near"
                if kind and hits.get(kind, 0) < want:
                    hits[kind] = hits.get(kind, 0) + 1
                    self.E(ctbuf, ssbuf, pkbuf, mu)
                    self.D(24, ctbuf, skbuf)
                    done += 1
                if sum(hits.values()) >= 5 * want:
                    break
        return done
