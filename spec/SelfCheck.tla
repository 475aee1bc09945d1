----------------------------- MODULE SelfCheck -----------------------------
(* Every accelerated operator against its TLA+ definition, and the          *)
(* definitions of the standard primitives against published vectors.        *)
EXTENDS Frodo

\* a deterministic byte source that needs no primitive under test
RECURSIVE Lcg(_, _)
Lcg(x, k) == IF k = 0 THEN << >> ELSE LET y == (x * 2053 + 13849) % 65536
                                      IN  <<(y \div 7) % 256>> \o Lcg(y, k - 1)
R(seed, k) == TLCEval(Lcg(seed, k))
Seed16 == <<99,1,2,3,4,250,6,7,8,9,10,11,12,13,14,255>>

Toy(n, nb, D, B, g) == [n |-> n, nbar |-> nb, D |-> D, B |-> B, len |-> (B * nb * nb) \div 8, lenA |-> 16,
                   rate |-> Rate128, chi |-> Chi640, gen |-> g]

Known(u) ==
  \* FIPS 202 / CAVP
  /\ ShakeDef(Rate128, << >>, 16) = HexBytes("7f9c2ba4e88f827d616045507605853e")
  /\ ShakeDef(Rate256, << >>, 16) = HexBytes("46b9dd2b0ba88d13233b3feb743eeb24")
  /\ ShakeDef(Rate128, HexBytes("0e"), 16) = HexBytes("fa996dafaa208d72287c23bc4ed4bfd5")
  /\ ShakeDef(Rate256, HexBytes("0f"), 32) = HexBytes("aabb07488ff9edd05d6a603b7791b60a16d45093608f1badc0c9cc9a9154f215")
  \* FIPS 197 appendix C
  /\ AesBlockDef(HexBytes("000102030405060708090a0b0c0d0e0f"), HexBytes("00112233445566778899aabbccddeeff"))
       = HexBytes("69c4e0d86a7b0430d8cdb78070b4c55a")
  /\ AesBlockDef(HexBytes("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"),
                 HexBytes("00112233445566778899aabbccddeeff"))
       = HexBytes("8ea2b7ca516745bfeafc49904b496089")
  \* FIPS 197 appendix A: last round keys
  /\ SubSeq(AesSchedule(HexBytes("2b7e151628aed2a6abf7158809cf4f3c")), 161, 176)
       = HexBytes("d014f9a8c9ee2589e13f0cc8b6630ca6")
  /\ SubSeq(AesSchedule(HexBytes("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4")), 225, 240)
       = HexBytes("fe4890d1e6188d0b046df344706c631e")

\* the tables of the specification document: the error distributions have total mass 2^16
RECURSIVE Mass(_, _)
Mass(chi, z) == IF z = 0 THEN chi[1] ELSE 2 * chi[z + 1] + Mass(chi, z - 1)
Tables(u) ==
  /\ \A chi \in {Chi640, Chi976, Chi1344} : Mass(chi, Len(chi) - 1) = 65536
  /\ [z \in 0..12 |-> Cdf(Chi640, z)] = [z \in 0..12 |->
       <<4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745, 32762, 32766, 32767>>[z+1]]
  /\ LET P == Frodo640("AES")  IN <<LenPk(P), LenSk(P), LenCt(P), LenSs(P)>> = <<9616, 19888, 9720, 16>>
  /\ LET P == Frodo976("AES")  IN <<LenPk(P), LenSk(P), LenCt(P), LenSs(P)>> = <<15632, 31296, 15744, 24>>
  /\ LET P == Frodo1344("AES") IN <<LenPk(P), LenSk(P), LenCt(P), LenSs(P)>> = <<21520, 43088, 21632, 32>>
  /\ \A g \in {"AES"} : \A P \in {Frodo640(g), Frodo976(g), Frodo1344(g)} : LenMu(P) = P.len

AccelHash(u) ==
  /\ \A l \in {0, 1, 135, 136, 137, 167, 168, 169, 200} :
       /\ Shake(Rate128, R(l, l), 40) = ShakeDef(Rate128, R(l, l), 40)
       /\ Shake(Rate256, R(l, l), 40) = ShakeDef(Rate256, R(l, l), 40)
  /\ \A o \in {0, 1, 136, 137, 168, 169, 400} :
       /\ Shake(Rate128, R(3, 20), o) = ShakeDef(Rate128, R(3, 20), o)
       /\ Shake(Rate256, R(3, 20), o) = ShakeDef(Rate256, R(3, 20), o)
  /\ \A x \in {<<168, 7, 0, 3, 10, 0, 5>>, <<168, 21, 8, 0, 100, 3, 50>>, <<136, 34, 7, 33, 168, 2, 136>>, <<136, 5, 2, 1, 1, 0, 0>>, <<168, 84, 2, 0, 136, 5, 1>>} :
       ShakeLong(x[1], R(x[2], x[2]), x[3], x[4], x[5], x[6], x[7]) = ShakeLongDef(x[1], R(x[2], x[2]), x[3], x[4], x[5], x[6], x[7])
  /\ KeccakF(R(5, 200)) = KeccakFDef(R(5, 200))
AccelAes(u) ==
  /\ \A x \in 1..12 : AesBlock(R(x, 16), R(x + 50, 16)) = AesBlockDef(R(x, 16), R(x + 50, 16))
  /\ \A x \in 1..12 : AesBlock(R(x, 32), R(x + 50, 16)) = AesBlockDef(R(x, 32), R(x + 50, 16))
  /\ AesEcb(R(7, 16), R(8, 64)) = AesEcbDef(R(7, 16), R(8, 64))
AccelBytes(u) ==
  /\ Words(R(9, 64)) = WordsDef(R(9, 64))
  /\ LET w == <<0, 1, -1, 12, -12, 65535, 32768, -32768, 255, 256>> IN UnWords(w) = UnWordsDef(w)
  /\ BytesHex(HexBytes("00ff10a5")) = "00ff10a5"
  /\ HexBytes("00ff10a5") = <<0, 255, 16, 165>>
  /\ \A a \in 0..6, b \in 1..4, st \in {1, 2} : LET h == R(4, 30) nd == SubSeq(h, 3, 9) \o <<1>> IN
        Occurs(h, SubSeq(nd, a + 1, Len(nd)), b, st) = OccursDef(h, SubSeq(nd, a + 1, Len(nd)), b, st)
  /\ \A a \in {R(4, 40), R(5, 40)}, w \in 1..3, st \in {1, 2}, q \in 0..2 :
        LET one == <<<<<<100, 0, 10>>, <<120, 10, 20>>>>, SubSeq(a, 1, 30)>>
            two == <<<<<<98 + q, 0, 30>>>>, SubSeq(R(6, 40), 1, 12) \o SubSeq(a, 3, 20)>>
            strs == <<SubSeq(a, 5, 16), SubSeq(a, 5, 16)>>
        IN  /\ Lingers(<<one, two>>, strs, w, st) = LingersDef(<<one, two>>, strs, w, st)
            /\ Lingers(<<one, one>>, strs, w, st) /\ LingersDef(<<one, one>>, strs, w, st)
            /\ ~Lingers(<<one, <<<<>>, <<>>>>>>, strs, w, st)
AccelNoise(u) ==
  \A chi \in {Chi640, Chi976, Chi1344} :
    LET edge == UNION {{2 * Cdf(chi, z) + d : d \in -1..3} : z \in 0..Len(chi)-1}
        w == TLCEval([k \in 1..2048 |-> (k * 32 + (k % 32)) % 65536])
        v == TLCEval(SampleVec(chi, w))
    IN  /\ \A r \in edge : (r >= 0 /\ r <= 65535) => SampleVec(chi, <<r>>) = <<Sample(chi, r)>>
        /\ v = SampleVecDef(chi, w)
AccelMatrix(u) ==
  \A g \in {"AES", "SHAKE"} : \A D \in {15, 16} :
    LET n == 16
        nb == 4
        big == Words(R(D, 2 * n * nb))
        sml == SampleVec(Chi640, Words(R(D + 1, 2 * n * nb)))
        e64 == SampleVec(Chi640, Words(R(D + 2, 2 * nb * nb)))
        e   == SampleVec(Chi640, Words(R(D + 3, 2 * n * nb)))
    IN  /\ MulAddAS(g, n, nb, D, Seed16, sml, e) = MulAddASDef(g, n, nb, D, Seed16, sml, e)
        /\ MulAddAS(g, n, nb, D, Seed16, big, e) = MulAddASDef(g, n, nb, D, Seed16, big, e)
        /\ MulAddSA(g, n, nb, D, Seed16, sml, e) = MulAddSADef(g, n, nb, D, Seed16, sml, e)
        /\ MulAddSB(n, nb, D, sml, big, e64) = MulAddSBDef(n, nb, D, sml, big, e64)
        /\ MulBS(n, nb, D, big, sml) = MulBSDef(n, nb, D, big, sml)
        /\ MulBS(n, nb, D, big, Words(R(3, 2 * n * nb))) = MulBSDef(n, nb, D, big, Words(R(3, 2 * n * nb)))
        /\ Pack(D, big) = PackDef(D, big)
        /\ Pack(D, sml) = PackDef(D, sml)
        /\ Unpack(D, R(11, 2 * n * D)) = UnpackDef(D, R(11, 2 * n * D))
        /\ Pack(D, Unpack(D, R(11, 2 * n * D))) = R(11, 2 * n * D)
\* every coefficient decodes to the message nearest to it, and encoding inverts decoding
AccelCode(u) ==
  \A d \in {<<15, 2>>, <<16, 3>>, <<16, 4>>} :
    LET D == d[1]
        B == d[2]
    IN  \A m \in 0 .. 2^B - 1 : \A e \in {-(2^(D-B-1)), -(2^(D-B-1)) + 1, -1, 0, 1, 2^(D-B-1) - 1} :
          Dc(D, B, (m * 2^(D-B) + e) % 2^D) = m
Algebra(u) ==
  \A g \in {"AES", "SHAKE"} : \A P \in {Toy(8, 4, 15, 2, g), Toy(16, 8, 16, 4, g)} : \A x \in 1..3 :
    LET kp == KeyGen(P, R(x, LenKgRnd(P)))
        en == Encaps(P, kp.pk, R(x + 7, LenMu(P)))
    IN  /\ Len(kp.pk) = LenPk(P) /\ Len(kp.sk) = LenSk(P) /\ Len(en.ct) = LenCt(P) /\ Len(en.ss) = LenSs(P)
        /\ SkPk(P, kp.sk) = kp.pk
        /\ Coherent(P, kp.sk)
        /\ DecodedMu(P, en.ct, kp.sk) = R(x + 7, LenMu(P))
        /\ Decaps(P, en.ct, kp.sk) = en.ss
        /\ \A b \in {0, 3, 8 * LenCt(P) - 1} :
             LET c2 == FlipBitOf(en.ct, b) IN Decaps(P, c2, kp.sk) = RejectKey(P, c2, kp.sk)

VARIABLE done
Checks == <<"Known", "Tables", "AccelHash", "AccelAes", "AccelBytes", "AccelNoise", "AccelMatrix", "AccelCode", "Algebra">>
Holds(c) == CASE c = "Known" -> Known(done) [] c = "Tables" -> Tables(done) [] c = "AccelHash" -> AccelHash(done)
              [] c = "AccelAes" -> AccelAes(done) [] c = "AccelBytes" -> AccelBytes(done) [] c = "AccelNoise" -> AccelNoise(done)
              [] c = "AccelMatrix" -> AccelMatrix(done) [] c = "AccelCode" -> AccelCode(done) [] c = "Algebra" -> Algebra(done)
Init == done = 0
Next == done < Len(Checks) /\ done' = done + 1
Ok == done = 0 \/ Holds(Checks[done])
=============================================================================
