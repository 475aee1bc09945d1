----------------------------- MODULE LeakTrace ------------------------------
(* What an observer of control flow and memory addresses learns (C11).      *)
(* The specification divides each call's inputs into public and secret      *)
(* ones; the state remembers what was observed for the public part, and     *)
(* every later call with the same public part has to look the same.         *)
EXTENDS Frodo, Json, IOUtils

CONSTANTS Size, Gen
P == ParamsOf(Size, Gen)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          seen,      \* public part of a call -> what was observed
          met,       \* secrets met for each public part
          outcomes   \* public part of a decapsulation -> whether accepted and rejected ones were met
vars == <<l, seen, met, outcomes>>
E == Trace[l]

\* the values of a call that an observer may know
Public(e) ==
  CASE e.e = "keygen" -> <<"keygen", BytesHex(Slice(HexBytes(e.rnd), 2 * P.len, 16))>>              \* z, and with it seed_A
    [] e.e = "encaps" -> <<"encaps", e.pk>>
    [] e.e = "decaps" -> LET sk == HexBytes(e.sk) IN <<"decaps", e.ct, BytesHex(SkPk(P, sk)), BytesHex(SkPkh(P, sk))>>
\* and those it must not learn
Secret(e) ==
  CASE e.e = "keygen" -> BytesHex(Slice(HexBytes(e.rnd), 0, 2 * P.len))                             \* s and seed_SE
    [] e.e = "encaps" -> e.rnd                                                                       \* mu
    [] e.e = "decaps" -> LET sk == HexBytes(e.sk) IN BytesHex(SkS(P, sk) \o SkMat(P, sk))
Observation(e) == <<e.steps, e.seen>>

\* the same division as positions: the secret bytes of the randomness (key generation, encapsulation) or of the secret key
Hidden(call) ==
  CASE call = "keygen" -> <<<<0, 2 * P.len>>>>
    [] call = "encaps" -> <<<<0, P.len>>>>
    [] call = "decaps" -> <<<<0, P.len>>, <<P.len + LenPk(P), BytesS(P)>>>>
\* a call in which exactly those were followed, and no branch and no address was found to depend on them
Flow(e) == e.hidden = Hidden(e.call) /\ e.ret = 0 /\ e.found = 0

Rejected(e) == e.ss = BytesHex(H(P, HexBytes(e.ct) \o SkS(P, HexBytes(e.sk)), P.len))

Init == l = 1 /\ seen = <<>> /\ met = <<>> /\ outcomes = <<>>
Call(e) ==
  LET p == TLCEval(Public(e)) o == Observation(e) IN
  /\ e.ret = 0
  /\ p \in DOMAIN seen => seen[p] = o
  /\ seen' = IF p \in DOMAIN seen THEN seen ELSE (p :> o) @@ seen
  /\ met' = IF p \in DOMAIN met THEN [met EXCEPT ![p] = @ \union {Secret(e)}] ELSE (p :> {Secret(e)}) @@ met
  /\ outcomes' = IF e.e # "decaps" THEN outcomes
                 ELSE LET x == Rejected(e) IN IF p \in DOMAIN outcomes THEN [outcomes EXCEPT ![p] = @ \union {x}] ELSE (p :> {x}) @@ outcomes
Next == /\ l <= Len(Trace)
        /\ CASE E.e = "start" -> UNCHANGED <<seen, met, outcomes>>
             [] E.e \in {"keygen", "encaps", "decaps"} -> Call(E)
             [] E.e = "flow" -> Flow(E) /\ UNCHANGED <<seen, met, outcomes>>
             [] OTHER -> FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l

\* not vacuous: several secrets for some public part of each kind of call, and one ciphertext both accepted and rejected
Varied == [kind \in {"keygen", "encaps", "decaps"} |-> {Cardinality(met[p]) : p \in {q \in DOMAIN met : q[1] = kind}}]
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Tick == TLCSet(1, <<Max(Varied["keygen"]), Max(Varied["encaps"]), Max(Varied["decaps"]), Max({Cardinality(outcomes[p]) : p \in DOMAIN outcomes})>>)
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
            /\ PrintT(<<"VARIED", TLCGet(1)>>)
=============================================================================
