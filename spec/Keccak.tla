------------------------------- MODULE Keccak ------------------------------
(* FIPS 202: KECCAK-f[1600] on a bit array, the sponge, SHAKE128/SHAKE256.  *)
EXTENDS Bytes

\* the state is a function on 0..1599; bit (x, y, z) is at 64*(5y+x)+z
KIdx(x, y, z) == 64 * (5 * (y % 5) + (x % 5)) + (z % 64)
KX(i) == (i \div 64) % 5
KY(i) == i \div 320
KZ(i) == i % 64

Theta(A) ==
  LET C == TLCEval([x \in 0..4 |-> TLCEval([z \in 0..63 |->
             (A[KIdx(x,0,z)] + A[KIdx(x,1,z)] + A[KIdx(x,2,z)] + A[KIdx(x,3,z)] + A[KIdx(x,4,z)]) % 2])])
  IN  TLCEval([i \in 0..1599 |->
        (A[i] + C[(KX(i) + 4) % 5][KZ(i)] + C[(KX(i) + 1) % 5][(KZ(i) + 63) % 64]) % 2])

\* rho offsets, by the walk of FIPS 202 section 3.2.2
RECURSIVE RhoWalk(_, _, _, _)
RhoWalk(t, x, y, acc) ==
  IF t = 24 THEN acc
  ELSE RhoWalk(t + 1, y, (2*x + 3*y) % 5, [acc EXCEPT ![x][y] = (((t+1)*(t+2)) \div 2) % 64])
RhoOff == RhoWalk(0, 1, 0, [x \in 0..4 |-> [y \in 0..4 |-> 0]])

Rho(A) == TLCEval([i \in 0..1599 |-> A[KIdx(KX(i), KY(i), KZ(i) + 64 - RhoOff[KX(i)][KY(i)])]])

Pi(A) == TLCEval([i \in 0..1599 |-> A[KIdx(KX(i) + 3*KY(i), KX(i), KZ(i))]])

Chi(A) == TLCEval([i \in 0..1599 |->
            (A[i] + (1 - A[KIdx(KX(i)+1, KY(i), KZ(i))]) * A[KIdx(KX(i)+2, KY(i), KZ(i))]) % 2])

\* rc(t): the LFSR of FIPS 202 algorithm 5
RECURSIVE Lfsr(_, _)
LfsrNext(R) == LET S == <<0>> \o R                           \* nine bits
                   T == [j \in 1..9 |-> IF j \in {1, 5, 6, 7} THEN (S[j] + S[9]) % 2 ELSE S[j]]
               IN  TLCEval(SubSeq(T, 1, 8))
Lfsr(R, k) == IF k = 0 THEN << >> ELSE <<R[1]>> \o Lfsr(LfsrNext(R), k - 1)
RcBits == Lfsr(<<1,0,0,0,0,0,0,0>>, 255)                     \* RcBits[t+1] = rc(t)
RoundBits(ir) == [z \in 0..63 |-> IF z \in {0, 1, 3, 7, 15, 31, 63}
                                  THEN RcBits[(((CHOOSE j \in 0..6 : z = 2^j - 1) + 7*ir) % 255) + 1] ELSE 0]
Iota(A, ir) == LET RC == TLCEval(RoundBits(ir))
               IN  TLCEval([i \in 0..1599 |-> IF i < 64 THEN (A[i] + RC[i]) % 2 ELSE A[i]])

RECURSIVE KRounds(_, _)
KRounds(A, ir) == IF ir = 24 THEN A ELSE KRounds(Iota(Chi(Pi(Rho(Theta(A)))), ir), ir + 1)

BytesToState(s) == TLCEval([i \in 0..1599 |-> Bit(s[(i \div 8) + 1], i % 8)])
RECURSIVE SumBits(_, _, _)
SumBits(A, base, k) == IF k = 8 THEN 0 ELSE A[base + k] * 2^k + SumBits(A, base, k + 1)
StateToBytes(A) == TLCEval([k \in 1..200 |-> SumBits(A, 8*(k-1), 0)])

\* the permutation on a 200-byte state
KeccakFDef(s) == StateToBytes(KRounds(BytesToState(s), 0))
KeccakF(s) == KeccakFDef(s)                                  \* accelerated

\* pad10*1 with the SHAKE suffix 1111, then absorb and squeeze
PadShake(rate, m) ==
  LET fill == rate - (Len(m) % rate)                         \* 1..rate bytes of padding
      pad  == [k \in 1..fill |-> (IF k = 1 THEN 31 ELSE 0) + (IF k = fill THEN 128 ELSE 0)]
  IN  m \o pad
RECURSIVE Absorb(_, _, _)
Absorb(st, rate, m) ==
  IF Len(m) = 0 THEN st
  ELSE Absorb(KeccakF(TLCEval([k \in 1..200 |-> IF k <= rate THEN Xor8(st[k], m[k]) ELSE st[k]])),
              rate, SubSeq(m, rate + 1, Len(m)))
RECURSIVE Squeeze(_, _, _, _)
Squeeze(st, rate, outlen, acc) ==
  IF Len(acc) >= outlen THEN SubSeq(acc, 1, outlen)
  ELSE Squeeze(KeccakF(st), rate, outlen, acc \o SubSeq(st, 1, rate))
ShakeDef(rate, m, outlen) ==
  Squeeze(Absorb([k \in 1..200 |-> 0], rate, PadShake(rate, m)), rate, outlen, << >>)
Shake(rate, m, outlen) == ShakeDef(rate, m, outlen)          \* accelerated

\* strings too long to write down: the input is chunk, `times` times, and `rest` more bytes of it; of the output,
\* `len` bytes after the first unit*skip
RECURSIVE Again(_, _)
Again(s, k) == IF k = 0 THEN << >> ELSE Again(s, k - 1) \o s
ShakeLongDef(rate, chunk, times, rest, unit, skip, len) ==
  Slice(Shake(rate, Again(chunk, times) \o SubSeq(chunk, 1, rest), unit * skip + len), unit * skip, len)
ShakeLong(rate, chunk, times, rest, unit, skip, len) == ShakeLongDef(rate, chunk, times, rest, unit, skip, len)   \* accelerated

Rate128 == 168
Rate256 == 136
=============================================================================
