----------------------------- MODULE FrodoKEM ------------------------------
(* The KEM as its callers see it: threads call key generation,              *)
(* encapsulation and decapsulation on byte buffers that they own; a         *)
(* randomness source answers or fails; calls by different threads overlap.  *)
(* The cryptographic functions are parameters: FrodoIdeal supplies a        *)
(* symbolic algebra that TLC explores exhaustively, FrodoTrace supplies the *)
(* real algorithms of Frodo.tla and follows recorded executions.            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread, Buf,
          KeyGenOf(_),       \* randomness -> [pk, sk]
          EncapsOf(_, _),    \* public key, randomness -> [ct, ss]
          DecapsOf(_, _),    \* ciphertext, secret key -> ss
          Withheld(_, _, _)  \* old and new contents of an output of a failed call, bytes it had drawn: is nothing given out?

VARIABLES mem,    \* contents of every buffer
          call,   \* the call each thread is in
          status  \* what the last finished call of each thread returned
kvars == <<mem, call, status>>

Idle    == [op |-> "idle"]
NoRnd   == [st |-> "none"]
Got(r)  == [st |-> "ok", val |-> r]
FailedAfter(k) == [st |-> "failed", got |-> k]   \* having delivered k bytes
Failed  == FailedAfter(0)

KeyGenCall(pk, sk)     == [op |-> "keygen", pk |-> pk, sk |-> sk, rnd |-> NoRnd]
EncapsCall(ct, ss, pk) == [op |-> "encaps", ct |-> ct, ss |-> ss, pk |-> pk, rnd |-> NoRnd]
DecapsCall(ss, ct, sk) == [op |-> "decaps", ss |-> ss, ct |-> ct, sk |-> sk, rnd |-> NoRnd]

Outs(c) == CASE c.op = "keygen" -> {c.pk, c.sk}
             [] c.op = "encaps" -> {c.ct, c.ss}
             [] c.op = "decaps" -> {c.ss}
             [] OTHER -> {}
Ins(c)  == CASE c.op = "encaps" -> {c.pk}
             [] c.op = "decaps" -> {c.ct, c.sk}
             [] OTHER -> {}
NeedsRnd(c) == c.op \in {"keygen", "encaps"}

\* memory after call c has run to its end with randomness r
After(c, m, r) ==
  CASE c.op = "keygen" -> LET k == KeyGenOf(r) IN [m EXCEPT ![c.pk] = k.pk, ![c.sk] = k.sk]
    [] c.op = "encaps" -> LET e == EncapsOf(m[c.pk], r) IN [m EXCEPT ![c.ct] = e.ct, ![c.ss] = e.ss]
    [] c.op = "decaps" -> [m EXCEPT ![c.ss] = DecapsOf(m[c.ct], m[c.sk])]

KInit(m0) == mem = m0 /\ call = [t \in Thread |-> Idle] /\ status = [t \in Thread |-> 0]

\* callers share input buffers freely but never write to a buffer that is in use
Free(b)  == \A t \in Thread : b \notin Outs(call[t]) /\ b \notin Ins(call[t])
Fresh(b) == \A t \in Thread : b \notin Outs(call[t])

Write(b, v) == Free(b) /\ mem' = [mem EXCEPT ![b] = v] /\ UNCHANGED <<call, status>>

Begin(t, c) ==
  /\ call[t] = Idle
  /\ \A b \in Outs(c) : Free(b)
  /\ \A b \in Ins(c) : Fresh(b)
  /\ call' = [call EXCEPT ![t] = c]
  /\ UNCHANGED <<mem, status>>

\* the source delivers, once per call, everything the call needs
Draw(t, r) ==
  /\ NeedsRnd(call[t]) /\ call[t].rnd = NoRnd
  /\ call' = [call EXCEPT ![t].rnd = r]
  /\ UNCHANGED <<mem, status>>

End(t) ==
  /\ call[t] # Idle
  /\ NeedsRnd(call[t]) => call[t].rnd.st = "ok"
  /\ mem' = After(call[t], mem, IF NeedsRnd(call[t]) THEN call[t].rnd.val ELSE NoRnd)
  /\ call' = [call EXCEPT ![t] = Idle]
  /\ status' = [status EXCEPT ![t] = 0]

\* a call that got no randomness says so and hands nothing out: its outputs hold what they held or have been wiped
Nothing(c, r, m, m2) == /\ \A b \in DOMAIN m \ Outs(c) : m2[b] = m[b]
                     /\ \A b \in Outs(c) : Withheld(m[b], m2[b], r.got)
EndFailed(t, m2) ==
  /\ NeedsRnd(call[t]) /\ call[t].rnd.st = "failed"
  /\ call' = [call EXCEPT ![t] = Idle]
  /\ status' = [status EXCEPT ![t] = 1]
  /\ Nothing(call[t], call[t].rnd, mem, m2) /\ mem' = m2

\* the whole call in one step, for executions recorded one call at a time
\* (m2: memory after it, of interest if it fails)
Run(t, c, r, m2) ==
  /\ call[t] = Idle
  /\ \A b \in Outs(c) : Free(b)
  /\ \A b \in Ins(c) : Fresh(b)
  /\ IF NeedsRnd(c) /\ r.st = "failed"
     THEN Nothing(c, r, mem, m2) /\ mem' = m2 /\ status' = [status EXCEPT ![t] = 1]
     ELSE mem' = After(c, mem, IF NeedsRnd(c) THEN r.val ELSE NoRnd) /\ status' = [status EXCEPT ![t] = 0]
  /\ call' = call
============================================================================
