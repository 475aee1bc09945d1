---------------------------- MODULE ResidueTrace ---------------------------
(* What calls leave behind in memory (C12).  Each event is a call with its  *)
(* inputs and the memory it changed and left; the specification says which  *)
(* values of that call are secret, and none of them may be there.           *)
EXTENDS Frodo, Json, IOUtils

CONSTANTS Size, Gen
P == ParamsOf(Size, Gen)
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Runs            \* how many calls of a kind are compared place by place
VARIABLES l, searched,
          past              \* kind of call -> what the last calls of that kind left, and their secrets
E == Trace[l]

\* matrices as the machine stores them: two bytes per coefficient
Mat(M) == UnWords([i \in DOMAIN M |-> M[i] % 65536])

\* secrets that come as byte strings, and as matrices
KeyGenSecrets(rnd) ==
  LET s      == Slice(rnd, 0, P.len)
      seedSE == Slice(rnd, P.len, P.len)
      r      == TLCEval(H(P, <<95>> \o seedSE, 4 * P.n * P.nbar))
      w      == TLCEval(Words(r))
  IN  [bytes |-> <<s, seedSE>>, mats |-> <<r, Mat(SampleVec(P.chi, w))>>]
EncSecrets(pk, pkh, mu) ==
  LET g      == TLCEval(H(P, pkh \o mu, 2 * P.len))
      seedSE == Slice(g, 0, P.len)
      k      == Slice(g, P.len, P.len)
      m      == P.n * P.nbar
      r      == TLCEval(H(P, <<150>> \o seedSE, 4 * m + 2 * P.nbar * P.nbar))
      noise  == TLCEval(SampleVec(P.chi, Words(r)))
      Sp     == SubSeq(noise, 1, m)
      Epp    == SubSeq(noise, 2 * m + 1, 2 * m + P.nbar * P.nbar)
      V      == MulAddSB(P.n, P.nbar, P.D, Sp, Unpack(P.D, PkB(P, pk)), Epp)
  IN  [bytes |-> <<mu, seedSE, k>>, mats |-> <<r, Mat(noise), Mat(V), Mat(Encode(P.D, P.B, mu))>>]
DecSecrets(ct, sk) ==
  LET mu == TLCEval(DecodedMu(P, ct, sk))
      W  == SubMod(Unpack(P.D, CtC2(P, ct)), MulBS(P.n, P.nbar, P.D, Unpack(P.D, CtC1(P, ct)), Words(SkMat(P, sk))), Q(P))
      e  == EncSecrets(SkPk(P, sk), SkPkh(P, sk), mu)
  IN  [bytes |-> <<SkS(P, sk)>> \o e.bytes, mats |-> <<SkMat(P, sk), Mat(W)>> \o e.mats]

Secrets(e) == CASE e.e = "keygen" -> KeyGenSecrets(HexBytes(e.rnd))
                [] e.e = "encaps" -> EncSecrets(HexBytes(e.pk), H(P, HexBytes(e.pk), P.len), HexBytes(e.rnd))
                [] e.e = "decaps" -> DecSecrets(HexBytes(e.ct), HexBytes(e.sk))
\* eight bytes in a row of a byte string, or thirty-two coefficients in a row of a matrix
Leaks(hay, s) == (\E i \in DOMAIN s.bytes : Occurs(hay, s.bytes[i], 8, 1)) \/ (\E i \in DOMAIN s.mats : Occurs(hay, s.mats[i], 64, 8))

\* A shorter remnant is one if the same place holds the same part of the secret in every one of several calls: single
\* bytes of a byte string, eight coefficients of a matrix.
Kind(e) == IF e.e # "decaps" THEN e.e
           ELSE IF e.ss = BytesHex(H(P, HexBytes(e.ct) \o SkS(P, HexBytes(e.sk)), P.len)) THEN "rejects" ELSE "accepts"
Kinds == {"keygen", "encaps", "accepts", "rejects"}
Column(h, field, k) == [r \in DOMAIN h |-> h[r].secrets[field][k]]
Lingering(h) ==
  LET ims == [r \in DOMAIN h |-> h[r].image] IN
  \/ \E k \in DOMAIN h[1].secrets.bytes : Lingers(ims, Column(h, "bytes", k), 1, 1)
  \/ \E k \in DOMAIN h[1].secrets.mats : Lingers(ims, Column(h, "mats", k), 16, 2)

Init == l = 1 /\ searched = <<0, 0>> /\ past = [k \in Kinds |-> <<>>]
Call(e) ==
  LET s == TLCEval(Secrets(e))
      left == TLCEval(HexBytes(e.left))
      k == Kind(e)
      h == TLCEval(Append(past[k], [image |-> <<e.spans, left>>, secrets |-> s]))
  IN  /\ e.ret = 0
      /\ ~Leaks(left, s) /\ ~Leaks(HexBytes(e.static), s)
      /\ Len(h) = Runs => ~Lingering(h)
      /\ past' = [past EXCEPT ![k] = IF Len(h) = Runs THEN <<>> ELSE h]
      /\ searched' = [searched EXCEPT ![1] = @ + e.bytes[1] + e.bytes[2], ![2] = @ + (IF Len(h) = Runs THEN 1 ELSE 0)]
Next == /\ l <= Len(Trace)
        /\ CASE E.e = "start" -> UNCHANGED <<searched, past>>
             [] E.e \in {"keygen", "encaps", "decaps"} -> Call(E)
             [] OTHER -> FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, searched, past>>
View == l
Tick == TLCSet(1, searched)
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
            /\ PrintT(<<"SEARCHED", TLCGet(1)>>)
=============================================================================
