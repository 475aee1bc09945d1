------------------------------- MODULE Bytes -------------------------------
(* Byte strings and 16-bit words as sequences of integers.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slice(s, from, len) == SubSeq(s, from + 1, from + len)     \* zero-based

Bit(v, i) == (v \div (2^i)) % 2                             \* v non-negative

\* pointwise exclusive or of two integers below 2^w
RECURSIVE XorW(_, _, _)
XorW(a, b, w) ==
  IF w = 0 THEN 0
  ELSE ((a + b) % 2) + 2 * XorW(a \div 2, b \div 2, w - 1)

Xor8(a, b) == XorW(a, b, 8)

\* the little-endian 16-bit words of a byte string
WordsDef(s) == [i \in 1 .. (Len(s) \div 2) |-> s[2*i - 1] + 256 * s[2*i]]
Words(s) == WordsDef(s)                                     \* accelerated

\* integers modulo 2^16 (two's complement) as little-endian byte pairs
UnWordsDef(w) ==
  [k \in 1 .. 2 * Len(w) |->
     LET u == w[(k + 1) \div 2] % 65536 IN IF k % 2 = 1 THEN u % 256 ELSE u \div 256]
UnWords(w) == UnWordsDef(w)                                 \* accelerated

\* two's complement reading of a 16-bit word
Signed16(u) == IF u >= 32768 THEN u - 65536 ELSE u

FlipBitOf(s, pos) ==                                        \* bit pos of byte pos\div 8, least significant first
  LET k == (pos \div 8) + 1
      m == 2^(pos % 8)
  IN  [s EXCEPT ![k] = IF Bit(s[k], pos % 8) = 1 THEN s[k] - m ELSE s[k] + m]

\* how many bytes of an output buffer a call has changed to something other than zero (what the buffer
\* had beyond its old length was 238)
Differs(old, new) ==
  Cardinality({i \in 1..Len(new) : new[i] # 0 /\ new[i] # (IF i <= Len(old) THEN old[i] ELSE 238)})

\* trace plumbing, implemented in Java only: the bytes written in hexadecimal in a string,
\* and back
HexBytes(str) == CHOOSE s \in Seq(0 .. 255) : FALSE
BytesHex(s) == CHOOSE h \in STRING : FALSE

\* some run of w consecutive bytes of needle (starting at a multiple of step) occurs in hay
OccursDef(hay, needle, w, step) ==
  \E i \in 0 .. Len(needle) - w : i % step = 0 /\
    \E j \in 0 .. Len(hay) - w : \A k \in 1..w : hay[j + k] = needle[i + k]
Occurs(hay, needle, w, step) == OccursDef(hay, needle, w, step)   \* accelerated

\* A sparse image of memory: <<spans, bytes>>, each span <<offset, start, length>> saying that the bytes from start (counted
\* from 0) on lie at that offset.
Offsets(im) == UNION {im[1][k][1] .. im[1][k][1] + im[1][k][3] - 1 : k \in DOMAIN im[1]}
At(im, o) == LET k == CHOOSE k \in DOMAIN im[1] : o \in im[1][k][1] .. im[1][k][1] + im[1][k][3] - 1
             IN  im[2][im[1][k][2] + o - im[1][k][1] + 1]
\* there is a place that holds, in each of several images, the same w bytes (starting at a multiple of step) of that image's string
LingersDef(ims, strs, w, step) ==
  \E i \in 0 .. Len(strs[1]) - w : i % step = 0 /\
    \E o \in Offsets(ims[1]) : \A r \in DOMAIN ims : \A k \in 0 .. w - 1 :
       o + k \in Offsets(ims[r]) /\ At(ims[r], o + k) = strs[r][i + k + 1]
Lingers(ims, strs, w, step) == LingersDef(ims, strs, w, step)      \* accelerated
=============================================================================
