------------------------------- MODULE Frodo -------------------------------
(* The FrodoKEM algorithms as functions of their inputs and of the          *)
(* randomness they consume.  Everything here is stateless; FrodoKEM.tla     *)
(* puts it behind an API with memory, callers and a randomness source.      *)
(*                                                                          *)
(* A parameter set is a record                                              *)
(*   n, nbar  dimensions          D     q = 2^D                             *)
(*   B        bits per coefficient of the encoded message                   *)
(*   len      bytes of s, seedSE, k, mu, pkh, ss                            *)
(*   lenA     bytes of seedA and z                                          *)
(*   rate     sponge rate of the hash (168 SHAKE128, 136 SHAKE256)          *)
(*   chi      the error distribution, chi[z+1] = 2^16 P(|e| = z)            *)
(*   gen      "AES" or "SHAKE", how the public matrix A is derived          *)
(* Matrices are row-major sequences of integers.                            *)
EXTENDS Keccak, AES, FiniteSets

Chi640  == <<9288, 8720, 7216, 5264, 3384, 1918, 958, 422, 164, 56, 17, 4, 1>>
Chi976  == <<11278, 10277, 7774, 4882, 2545, 1101, 396, 118, 29, 6, 1>>
Chi1344 == <<18286, 14320, 6876, 2023, 364, 40, 2>>

Frodo640(g)  == [n |-> 640,  nbar |-> 8, D |-> 15, B |-> 2, len |-> 16, lenA |-> 16,
                 rate |-> Rate128, chi |-> Chi640,  gen |-> g]
Frodo976(g)  == [n |-> 976,  nbar |-> 8, D |-> 16, B |-> 3, len |-> 24, lenA |-> 16,
                 rate |-> Rate256, chi |-> Chi976,  gen |-> g]
Frodo1344(g) == [n |-> 1344, nbar |-> 8, D |-> 16, B |-> 4, len |-> 32, lenA |-> 16,
                 rate |-> Rate256, chi |-> Chi1344, gen |-> g]
ParamsOf(size, g) == CASE size = 640 -> Frodo640(g) [] size = 976 -> Frodo976(g)
                       [] size = 1344 -> Frodo1344(g)

----------------------------------------------------------------------------
(* sizes *)
BytesB(P)  == (P.D * P.n * P.nbar) \div 8
BytesC(P)  == (P.D * P.nbar * P.nbar) \div 8
BytesS(P)  == 2 * P.n * P.nbar
LenPk(P)   == P.lenA + BytesB(P)
LenSk(P)   == P.len + LenPk(P) + BytesS(P) + P.len
LenCt(P)   == BytesB(P) + BytesC(P)
LenSs(P)   == P.len
LenMu(P)   == (P.B * P.nbar * P.nbar) \div 8
LenKgRnd(P) == 2 * P.len + P.lenA
Q(P)       == 2 ^ P.D

----------------------------------------------------------------------------
(* the noise distribution *)
RECURSIVE SumTo(_, _)
SumTo(chi, z) == IF z = 0 THEN 0 ELSE chi[z + 1] + SumTo(chi, z - 1)
Cdf(chi, z) == (chi[1] \div 2) - 1 + SumTo(chi, z)            \* z in 0..Len(chi)-1
\* fifteen bits of r pick the magnitude by inversion, the low bit picks the sign
Sample(chi, r) ==
  LET t == r \div 2
      e == Cardinality({z \in 0 .. Len(chi) - 2 : t > Cdf(chi, z)})
  IN  IF r % 2 = 1 THEN -e ELSE e
SampleVecDef(chi, w) == [i \in 1..Len(w) |-> Sample(chi, w[i])]
SampleVec(chi, w) == SampleVecDef(chi, w)                     \* accelerated

----------------------------------------------------------------------------
(* arithmetic modulo 2^16 without leaving 32-bit integers *)
Mul16(a, b) == LET x == a % 65536
                   y == b % 65536
               IN  ((((x * (y \div 256)) % 65536) * 256) + x * (y % 256)) % 65536

(* the public matrix *)
Le16(i) == <<i % 256, i \div 256>>
ARow(gen, n, seedA, i) ==
  IF gen = "SHAKE" THEN Words(Shake(Rate128, Le16(i) \o seedA, 2 * n))
  ELSE Words(AesEcb(seedA, [k \in 1 .. 2 * n |->
         LET p == (k - 1) % 16
             j == 8 * ((k - 1) \div 16)
         IN  CASE p \in {0, 1} -> Le16(i)[p + 1]
               [] p \in {2, 3} -> Le16(j)[p - 1]
               [] OTHER -> 0]))
AMatDef(gen, n, seedA) == [i \in 1..n |-> ARow(gen, n, seedA, i - 1)]

RECURSIVE Dot(_, _, _)
Dot(f(_), g(_), k) == IF k = 0 THEN 0 ELSE (Mul16(f(k), g(k)) + Dot(f, g, k - 1)) % 65536

\* A*S + E, with S given transposed (nbar x n) and E, result n x nbar; reduced mod 2^D
MulAddASDef(gen, n, nbar, D, seedA, St, E) ==
  LET A == TLCEval(AMatDef(gen, n, seedA)) IN
  [x \in 1 .. n * nbar |->
     LET i == (x - 1) \div nbar
         k == (x - 1) % nbar
         f(j) == A[i + 1][j]
         g(j) == St[k * n + j]
     IN  (E[x] + Dot(f, g, n)) % (2^D)]
MulAddAS(gen, n, nbar, D, seedA, St, E) == MulAddASDef(gen, n, nbar, D, seedA, St, E)   \* accelerated

\* S'*A + E', all nbar x n
MulAddSADef(gen, n, nbar, D, seedA, Sp, Ep) ==
  LET A == TLCEval(AMatDef(gen, n, seedA)) IN
  [x \in 1 .. n * nbar |->
     LET k == (x - 1) \div n
         i == (x - 1) % n
         f(j) == A[j][i + 1]
         g(j) == Sp[k * n + j]
     IN  (Ep[x] + Dot(f, g, n)) % (2^D)]
MulAddSA(gen, n, nbar, D, seedA, Sp, Ep) == MulAddSADef(gen, n, nbar, D, seedA, Sp, Ep) \* accelerated

\* S'*B + E'': S' nbar x n, B n x nbar
MulAddSBDef(n, nbar, D, Sp, Bm, Epp) ==
  [x \in 1 .. nbar * nbar |->
     LET k == (x - 1) \div nbar
         i == (x - 1) % nbar
         f(j) == Bm[(j - 1) * nbar + i + 1]
         g(j) == Sp[k * n + j]
     IN  (Epp[x] + Dot(f, g, n)) % (2^D)]
MulAddSB(n, nbar, D, Sp, Bm, Epp) == MulAddSBDef(n, nbar, D, Sp, Bm, Epp)               \* accelerated

\* B'*S: B' nbar x n, S given transposed (nbar x n)
MulBSDef(n, nbar, D, Bp, St) ==
  [x \in 1 .. nbar * nbar |->
     LET i == (x - 1) \div nbar
         k == (x - 1) % nbar
         f(j) == Bp[i * n + j]
         g(j) == St[k * n + j]
     IN  Dot(f, g, n) % (2^D)]
MulBS(n, nbar, D, Bp, St) == MulBSDef(n, nbar, D, Bp, St)                               \* accelerated

AddMod(X, Y, q) == [i \in 1..Len(X) |-> (X[i] + Y[i]) % q]
SubMod(X, Y, q) == [i \in 1..Len(X) |-> (X[i] - Y[i]) % q]

----------------------------------------------------------------------------
(* serialisation: D bits of every coefficient, most significant first *)
PackDef(D, M) ==
  [k \in 1 .. (D * Len(M)) \div 8 |->
     LET b(j) == LET p == 8 * (k - 1) + j                     \* bit position in the stream
                 IN  Bit(M[(p \div D) + 1] % (2^D), D - 1 - (p % D))
     IN  128*b(0) + 64*b(1) + 32*b(2) + 16*b(3) + 8*b(4) + 4*b(5) + 2*b(6) + b(7)]
Pack(D, M) == PackDef(D, M)                                   \* accelerated
RECURSIVE BitsVal(_, _, _)
BitsVal(s, p, k) == IF k = 0 THEN 0                           \* k bits of the stream from bit p
                    ELSE 2 * BitsVal(s, p, k - 1) + Bit(s[((p + k - 1) \div 8) + 1], 7 - ((p + k - 1) % 8))
UnpackDef(D, s) == [i \in 1 .. (8 * Len(s)) \div D |-> BitsVal(s, (i - 1) * D, D)]
Unpack(D, s) == UnpackDef(D, s)                               \* accelerated

(* message encoding: B bits per coefficient, in the top B bits *)
RECURSIVE LowBits(_, _, _)
LowBits(k, p, b) == IF b = 0 THEN 0                           \* b bits from bit p, least significant first
                    ELSE Bit(k[(p \div 8) + 1], p % 8) + 2 * LowBits(k, p + 1, b - 1)
Encode(D, B, k) == [i \in 1 .. (8 * Len(k)) \div B |-> LowBits(k, (i - 1) * B, B) * 2^(D - B)]
\* nearest multiple of q/2^B, ties upwards: floor(c*2^B/q + 1/2) mod 2^B
Dc(D, B, c) == ((c + 2^(D - B - 1)) \div 2^(D - B)) % (2^B)
DecodeDef(D, B, M) ==
  LET m == TLCEval([i \in 1..Len(M) |-> Dc(D, B, M[i] % (2^D))])
  IN  [k \in 1 .. (B * Len(M)) \div 8 |->
         LET b(j) == LET p == 8 * (k - 1) + j IN Bit(m[(p \div B) + 1], p % B)
         IN  b(0) + 2*b(1) + 4*b(2) + 8*b(3) + 16*b(4) + 32*b(5) + 64*b(6) + 128*b(7)]
Decode(D, B, M) == DecodeDef(D, B, M)

----------------------------------------------------------------------------
(* fields of the external formats *)
PkSeedA(P, pk) == Slice(pk, 0, P.lenA)
PkB(P, pk)     == Slice(pk, P.lenA, BytesB(P))
SkS(P, sk)     == Slice(sk, 0, P.len)                         \* the rejection secret s
SkPk(P, sk)    == Slice(sk, P.len, LenPk(P))
SkMat(P, sk)   == Slice(sk, P.len + LenPk(P), BytesS(P))
SkPkh(P, sk)   == Slice(sk, P.len + LenPk(P) + BytesS(P), P.len)
CtC1(P, ct)    == Slice(ct, 0, BytesB(P))
CtC2(P, ct)    == Slice(ct, BytesB(P), BytesC(P))

H(P, m, outlen) == Shake(P.rate, m, outlen)

----------------------------------------------------------------------------
(* key generation, from s || seedSE || z *)
KeyGen(P, rnd) ==
  LET s      == Slice(rnd, 0, P.len)
      seedSE == Slice(rnd, P.len, P.len)
      z      == Slice(rnd, 2 * P.len, P.lenA)
      seedA  == TLCEval(H(P, z, P.lenA))
      r      == TLCEval(Words(H(P, <<95>> \o seedSE, 4 * P.n * P.nbar)))
      St     == TLCEval(SampleVec(P.chi, SubSeq(r, 1, P.n * P.nbar)))
      E      == TLCEval(SampleVec(P.chi, SubSeq(r, P.n * P.nbar + 1, 2 * P.n * P.nbar)))
      Bm     == MulAddAS(P.gen, P.n, P.nbar, P.D, seedA, St, E)
      pk     == TLCEval(seedA \o Pack(P.D, Bm))
      pkh    == H(P, pk, P.len)
  IN  [pk |-> pk, sk |-> s \o pk \o UnWords(St) \o pkh]

(* the deterministic core of encapsulation: the ciphertext and k *)
EncryptWith(P, pk, pkh, mu) ==
  LET g      == TLCEval(H(P, pkh \o mu, 2 * P.len))
      seedSE == Slice(g, 0, P.len)
      k      == Slice(g, P.len, P.len)
      m      == P.n * P.nbar
      r      == TLCEval(Words(H(P, <<150>> \o seedSE, 4 * m + 2 * P.nbar * P.nbar)))
      Sp     == TLCEval(SampleVec(P.chi, SubSeq(r, 1, m)))
      Ep     == TLCEval(SampleVec(P.chi, SubSeq(r, m + 1, 2 * m)))
      Epp    == TLCEval(SampleVec(P.chi, SubSeq(r, 2 * m + 1, 2 * m + P.nbar * P.nbar)))
      Bp     == MulAddSA(P.gen, P.n, P.nbar, P.D, PkSeedA(P, pk), Sp, Ep)
      Bm     == Unpack(P.D, PkB(P, pk))
      V      == MulAddSB(P.n, P.nbar, P.D, Sp, Bm, Epp)
      C      == AddMod(V, Encode(P.D, P.B, mu), Q(P))
  IN  [ct |-> TLCEval(Pack(P.D, Bp) \o Pack(P.D, C)), k |-> k]

Encaps(P, pk, mu) ==
  LET e == EncryptWith(P, pk, H(P, pk, P.len), mu)
  IN  [ct |-> e.ct, ss |-> H(P, e.ct \o e.k, P.len)]

(* what decapsulation decodes, the re-encryption it compares with, and the result *)
DecodedMu(P, ct, sk) ==
  LET Bp == Unpack(P.D, CtC1(P, ct))
      C  == Unpack(P.D, CtC2(P, ct))
      St == Words(SkMat(P, sk))
  IN  Decode(P.D, P.B, SubMod(C, MulBS(P.n, P.nbar, P.D, Bp, St), Q(P)))
Reencrypt(P, ct, sk) == EncryptWith(P, SkPk(P, sk), SkPkh(P, sk), TLCEval(DecodedMu(P, ct, sk)))
Accepts(P, ct, sk) == Reencrypt(P, ct, sk).ct = ct
Decaps(P, ct, sk) ==
  LET e == TLCEval(Reencrypt(P, ct, sk))
  IN  IF e.ct = ct THEN H(P, ct \o e.k, P.len) ELSE H(P, ct \o SkS(P, sk), P.len)
\* the key every other ciphertext decapsulates to
RejectKey(P, ct, sk) == H(P, ct \o SkS(P, sk), P.len)

\* a secret key is coherent when it carries the hash of the public key it carries
Coherent(P, sk) == SkPkh(P, sk) = H(P, SkPk(P, sk), P.len)

\* c2 - B'S - Encode(mu), each coefficient centred in [-q/2, q/2): the noise that decoding faces
DecErr(P, ct, sk, mu) ==
  LET W == SubMod(Unpack(P.D, CtC2(P, ct)),
                  MulBS(P.n, P.nbar, P.D, Unpack(P.D, CtC1(P, ct)), Words(SkMat(P, sk))), Q(P))
      d == SubMod(W, Encode(P.D, P.B, mu), Q(P))
  IN  [i \in 1..Len(d) |-> IF d[i] >= Q(P) \div 2 THEN d[i] - Q(P) ELSE d[i]]
\* the interval in which Decode undoes Encode
Radius(P) == 2 ^ (P.D - P.B - 1)
WithinRadius(P, ct, sk, mu) ==
  LET d == TLCEval(DecErr(P, ct, sk, mu)) IN \A i \in 1..Len(d) : d[i] >= -Radius(P) /\ d[i] < Radius(P)
=============================================================================
