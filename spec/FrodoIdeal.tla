----------------------------- MODULE FrodoIdeal ----------------------------
(* FrodoKEM's machine over a symbolic algebra: matrices and hashes are      *)
(* terms, an encryption decrypts under its own key and to rubbish under any *)
(* other.  Small enough for TLC to visit every reachable state: overlapping *)
(* calls, shared inputs, failing randomness, tampered keys and ciphertexts, *)
(* mixed-up keys.  The claims of C01, C02, C07 and C10 are invariants here; *)
(* complete behaviours are printed for replay into the library (Record).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, MaxCalls, MaxFail, MaxEdit, Record, Depth

VARIABLES mem, call, status,
          nrnd,     \* random values handed out
          calls, fails, edits,
          snap,     \* per thread: memory when its call began
          log,      \* finished calls: [c, in, rnd, out]
          hist
vars == <<mem, call, status, nrnd, calls, fails, edits, snap, log, hist>>

Thread == 1..Threads
PkB == {"pk1", "pk2"}
SkB == {"sk1", "sk2"}
CtB == {"ct1", "ct2"}
SsB == {"ss1", "ss2"}
Buf == PkB \cup SkB \cup CtB \cup SsB

\* ---- the algebra; terms are sequences of strings and numbers nested as tuples
Blank == <<"blank">>
PK(r) == <<"pk", r>>
HK(pk) == <<"h", pk>>
CT(pk, h, mu) == <<"ct", pk, h, mu>>
KY(h, mu) == <<"k", h, mu>>
F(ct, k) == <<"F", ct, k>>
SK(s, pk, S, h) == <<"sk", s, pk, S, h>>

KG(r) == [pk |-> PK(r), sk |-> SK(<<"s", r>>, PK(r), <<"S", r>>, HK(PK(r)))]
EN(pk, mu) == LET ct == CT(pk, HK(pk), mu) IN [ct |-> ct, ss |-> F(ct, KY(HK(pk), mu))]
\* decoding: the message if the ciphertext was made for the key S belongs to, rubbish that depends on both otherwise
Dec(ct, S) == IF S[1] = "S" /\ ct[1] = "ct" /\ ct[2] = PK(S[2]) THEN ct[4] ELSE <<"junk", ct, S>>
DE(ct, sk) ==
  IF sk[1] # "sk" THEN <<"F", ct, sk>>
  ELSE LET mu == Dec(ct, sk[4]) IN
       F(ct, IF ct = CT(sk[3], sk[5], mu) THEN KY(sk[5], mu) ELSE sk[2])

K == INSTANCE FrodoKEM WITH KeyGenOf <- KG, EncapsOf <- EN, DecapsOf <- DE,
       Withheld <- LAMBDA old, new, got : new \in {old, Blank}

\* ---- behaviour
Log(h) == hist' = IF Record THEN Append(hist, h) ELSE hist
Init == /\ K!KInit([b \in Buf |-> Blank])
        /\ nrnd = 0 /\ calls = 0 /\ fails = 0 /\ edits = 0
        /\ snap = [t \in Thread |-> << >>] /\ log = << >> /\ hist = << >>

Ready(c) == CASE c.op = "encaps" -> mem[c.pk][1] \in {"pk", "bent"}
              [] c.op = "decaps" -> mem[c.ct] # Blank /\ mem[c.sk] # Blank
              [] OTHER -> TRUE
Begin(t, c) ==
  /\ calls < MaxCalls /\ Ready(c)
  /\ K!Begin(t, c)
  /\ calls' = calls + 1
  /\ snap' = [snap EXCEPT ![t] = mem]
  /\ Log([a |-> "begin", t |-> t, c |-> c])
  /\ UNCHANGED <<nrnd, fails, edits, log>>
Draw(t) ==
  /\ nrnd' = nrnd + 1
  /\ K!Draw(t, K!Got(<<"r", nrnd + 1>>))
  /\ Log([a |-> "draw", t |-> t, fail |-> 0])
  /\ UNCHANGED <<calls, fails, edits, snap, log>>
DrawFails(t) ==
  /\ fails < MaxFail
  /\ K!Draw(t, K!Failed)
  /\ fails' = fails + 1
  /\ Log([a |-> "draw", t |-> t, fail |-> 1])
  /\ UNCHANGED <<nrnd, calls, edits, snap, log>>
Outcome(c, m) == CASE c.op = "keygen" -> <<m[c.pk], m[c.sk]>>
                   [] c.op = "encaps" -> <<m[c.ct], m[c.ss]>>
                   [] c.op = "decaps" -> <<m[c.ss]>>
End(t) ==
  /\ K!End(t)
  /\ log' = Append(log, [c |-> call[t], in |-> snap[t], ok |-> TRUE, out |-> Outcome(call[t], mem'), m0 |-> mem])
  /\ Log([a |-> "end", t |-> t])
  /\ UNCHANGED <<nrnd, calls, fails, edits, snap>>
EndFailed(t, wipe) ==
  /\ K!EndFailed(t, IF wipe THEN [b \in Buf |-> IF b \in K!Outs(call[t]) THEN Blank ELSE mem[b]] ELSE mem)
  /\ log' = Append(log, [c |-> call[t], in |-> snap[t], ok |-> FALSE, out |-> Outcome(call[t], mem'), m0 |-> mem])
  /\ Log([a |-> "end", t |-> t])
  /\ UNCHANGED <<nrnd, calls, fails, edits, snap>>
\* somebody tampers with a value in transit or at rest, or mixes values up
Bend(b, part) ==
  /\ edits < MaxEdit /\ mem[b] # Blank
  /\ LET v == mem[b] IN
     K!Write(b, IF b \in SkB /\ v[1] = "sk" THEN [v EXCEPT ![part] = <<"bent", v[part], part>>] ELSE <<"bent", v, part>>)
  /\ edits' = edits + 1
  /\ Log([a |-> "bend", b |-> b, part |-> part])
  /\ UNCHANGED <<nrnd, calls, fails, snap, log>>
Copy(b, s) ==
  /\ edits < MaxEdit /\ b # s /\ mem[s] # Blank /\ K!Fresh(s)
  /\ K!Write(b, mem[s])
  /\ edits' = edits + 1
  /\ Log([a |-> "copy", b |-> b, s |-> s])
  /\ UNCHANGED <<nrnd, calls, fails, snap, log>>

Next ==
  \/ \E t \in Thread :
       \/ \E i \in 1..2 : Begin(t, K!KeyGenCall(<<"pk1", "pk2">>[i], <<"sk1", "sk2">>[i]))
       \/ \E ct \in CtB, ss \in SsB, pk \in PkB : Begin(t, K!EncapsCall(ct, ss, pk))
       \/ \E ct \in CtB, ss \in SsB, sk \in SkB : Begin(t, K!DecapsCall(ss, ct, sk))
       \/ Draw(t) \/ DrawFails(t) \/ End(t) \/ EndFailed(t, FALSE) \/ EndFailed(t, TRUE)
  \/ \E b \in SkB, part \in {2, 3, 4, 5} : Bend(b, part)
  \/ \E b \in PkB \cup CtB, part \in {1, 2} : Bend(b, part)
  \/ \E b \in CtB, s \in CtB : Copy(b, s)
  \/ \E b \in SkB, s \in SkB : Copy(b, s)
Spec == Init /\ [][Next]_vars

\* ---- claims
Encs == {i \in DOMAIN log : log[i].c.op = "encaps" /\ log[i].ok}
Decs == {i \in DOMAIN log : log[i].c.op = "decaps" /\ log[i].ok}
Pairs == {i \in DOMAIN log : log[i].c.op = "keygen" /\ log[i].ok}
\* C01: an encapsulation under the public key of a pair, decapsulated with the pair's secret key, agrees
Agreement == \A d \in Decs, e \in Encs, p \in Pairs :
  (log[d].in[log[d].c.ct] = log[e].out[1] /\ log[e].in[log[e].c.pk] = log[p].out[1] /\ log[d].in[log[d].c.sk] = log[p].out[2])
  => log[d].out[1] = log[e].out[2]
\* C02: whoever decapsulates something that is not an encapsulation under that key gets nobody's secret
Rejection == \A d \in Decs :
  (\A e \in Encs : log[d].in[log[d].c.ct] # log[e].out[1]) => \A e \in Encs : log[d].out[1] # log[e].out[2]
RejectionKey == \A d \in Decs : LET ct == log[d].in[log[d].c.ct]
                                    sk == log[d].in[log[d].c.sk]
  IN  (ct[1] # "ct" \/ ct[2] # sk[3]) => log[d].out[1] = F(ct, sk[2])
\* C10: a call's outcome is that of the same call made alone on the inputs it was given
Isolation == \A i \in DOMAIN log : log[i].ok =>
  log[i].out = Outcome(log[i].c, K!After(log[i].c, log[i].in, IF K!NeedsRnd(log[i].c) THEN log[i].c.rnd.val ELSE K!NoRnd))
\* C07: a call whose source failed hands nothing out; randomness is never used twice
FailClosed == \A i \in DOMAIN log : ~log[i].ok => \A k \in DOMAIN log[i].out : log[i].out[k] \in {Blank, Outcome(log[i].c, log[i].m0)[k]}
FreshRnd == \A i, j \in DOMAIN log : (i # j /\ log[i].ok /\ log[j].ok /\ K!NeedsRnd(log[i].c) /\ K!NeedsRnd(log[j].c)) => log[i].c.rnd # log[j].c.rnd

Bound == Len(log) <= MaxCalls
Quiet == \A t \in Thread : call[t] = K!Idle
Emit == (Record /\ Quiet /\ calls = MaxCalls) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
============================================================================
