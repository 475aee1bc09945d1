-------------------------------- MODULE AES --------------------------------
(* FIPS 197: AES-128 and AES-256 encryption of one block.                   *)
EXTENDS Bytes

Xtime(a) == LET d == (2 * a) % 256 IN IF a >= 128 THEN Xor8(d, 27) ELSE d
RECURSIVE GMulN(_, _, _)
GMulN(a, b, k) == IF k = 0 THEN 0
                  ELSE Xor8(IF b % 2 = 1 THEN a ELSE 0, GMulN(Xtime(a), b \div 2, k - 1))
GMul(a, b) == GMulN(a, b, 8)

\* multiplicative inverses, via powers of the generator 3: 3^i and 3^(255-i) are inverse
RECURSIVE Pow3(_)
Pow3(i) == IF i = 0 THEN <<1>> ELSE LET p == Pow3(i - 1) IN Append(p, GMul(p[i], 3))
Pow3T == Pow3(254)                                  \* Pow3T[i+1] = 3^i
Log3T == [a \in 1..255 |-> (CHOOSE i \in 1..255 : Pow3T[i] = a) - 1]
Inv(a) == IF a = 0 THEN 0 ELSE Pow3T[((255 - Log3T[a]) % 255) + 1]

AffBit(b, i) == (Bit(b,i) + Bit(b,(i+4)%8) + Bit(b,(i+5)%8) + Bit(b,(i+6)%8) + Bit(b,(i+7)%8) + Bit(99,i)) % 2
Affine(b) == AffBit(b,0) + 2*AffBit(b,1) + 4*AffBit(b,2) + 8*AffBit(b,3) + 16*AffBit(b,4)
             + 32*AffBit(b,5) + 64*AffBit(b,6) + 128*AffBit(b,7)
SBoxT == [a \in 0..255 |-> Affine(Inv(a))]

XorWord(a, b) == <<Xor8(a[1],b[1]), Xor8(a[2],b[2]), Xor8(a[3],b[3]), Xor8(a[4],b[4])>>
SubWord(w) == <<SBoxT[w[1]], SBoxT[w[2]], SBoxT[w[3]], SBoxT[w[4]]>>
RotWord(w) == <<w[2], w[3], w[4], w[1]>>
RECURSIVE RconB(_)
RconB(i) == IF i = 1 THEN 1 ELSE Xtime(RconB(i - 1))

\* the key schedule as a sequence of four-byte words; Nk = 4 or 8
RECURSIVE ExpandTo(_, _, _)
ExpandTo(w, Nk, total) ==
  LET i == Len(w) IN
  IF i = total THEN w
  ELSE LET prev == w[i]
           t == IF i % Nk = 0
                THEN XorWord(SubWord(RotWord(prev)), <<RconB(i \div Nk), 0, 0, 0>>)
                ELSE IF Nk > 6 /\ i % Nk = 4 THEN SubWord(prev) ELSE prev
       IN  ExpandTo(Append(w, XorWord(w[i - Nk + 1], t)), Nk, total)
KeyWords(key) ==
  LET Nk == Len(key) \div 4
      w0 == [i \in 1..Nk |-> <<key[4*i-3], key[4*i-2], key[4*i-1], key[4*i]>>]
  IN  TLCEval(ExpandTo(w0, Nk, 4 * (Nk + 7)))

\* the state is 16 bytes, column by column: byte (row r, column c) at 4c+r+1
RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]
XorState(a, b) == TLCEval([k \in 1..16 |-> Xor8(a[k], b[k])])
SubBytes(s) == TLCEval([k \in 1..16 |-> SBoxT[s[k]]])
ShiftRows(s) == TLCEval([k \in 1..16 |-> LET r == (k-1) % 4
                                             c == (k-1) \div 4
                                         IN  s[4*((c + r) % 4) + r + 1]])
MixColumns(s) == TLCEval([k \in 1..16 |->
                   LET r == (k-1) % 4
                       o == 4 * ((k-1) \div 4)
                       b(j) == s[o + ((r + j) % 4) + 1]
                   IN  Xor8(Xor8(GMul(b(0), 2), GMul(b(1), 3)), Xor8(b(2), b(3)))])
RECURSIVE AesRounds(_, _, _, _)
AesRounds(s, w, r, Nr) ==
  IF r = Nr THEN XorState(ShiftRows(SubBytes(s)), RoundKey(w, Nr))
  ELSE AesRounds(XorState(MixColumns(ShiftRows(SubBytes(s))), RoundKey(w, r)), w, r + 1, Nr)

AesBlockDef(key, blk) ==
  LET w == KeyWords(key) IN AesRounds(XorState(blk, RoundKey(w, 0)), w, 1, (Len(key) \div 4) + 6)
AesBlock(key, blk) == AesBlockDef(key, blk)                  \* accelerated

\* electronic codebook over whole blocks
RECURSIVE AesEcbDef(_, _)
AesEcbDef(key, data) ==
  IF Len(data) = 0 THEN << >>
  ELSE AesBlock(key, SubSeq(data, 1, 16)) \o AesEcbDef(key, SubSeq(data, 17, Len(data)))
AesEcb(key, data) == AesEcbDef(key, data)                    \* accelerated

\* the schedule as the implementation stores it: all round keys one after the other
RECURSIVE Flat(_)
Flat(w) == IF Len(w) = 0 THEN << >> ELSE w[1] \o Flat(Tail(w))
AesSchedule(key) == Flat(KeyWords(key))
=============================================================================
