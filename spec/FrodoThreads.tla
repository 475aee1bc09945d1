--------------------------- MODULE FrodoThreads ----------------------------
(* Recorded executions of overlapping calls, followed by FrodoKEM's machine *)
(* with "what the same call returns when it is made alone, by a process     *)
(* that has done nothing else" as the meaning of each call.  Byte strings   *)
(* are represented by numbers.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* calls made alone: a sequence of [k |-> <<op, input, input>>, r |-> <<ret, out, out>>]
Alone == ndJsonDeserialize(IOEnv.ALONE)
AloneKeys == {Alone[i].k : i \in DOMAIN Alone}
AloneOf == [k \in AloneKeys |-> Alone[CHOOSE i \in DOMAIN Alone : Alone[i].k = k].r]
Look(k) == IF k \in AloneKeys THEN AloneOf[k] ELSE <<-1, -2, -2>>

VARIABLES l, mem, call, status, overlap
vars == <<l, mem, call, status, overlap>>

KG(r)     == LET x == Look(<<"K", r, -1>>) IN [pk |-> x[2], sk |-> x[3]]
EN(pk, r) == LET x == Look(<<"E", pk, r>>) IN [ct |-> x[2], ss |-> x[3]]
DE(ct, sk) == Look(<<"D", ct, sk>>)[2]
Threads == 1..16
K == INSTANCE FrodoKEM WITH Thread <- Threads, Buf <- 0..63, KeyGenOf <- KG, EncapsOf <- EN, DecapsOf <- DE,
       Withheld <- LAMBDA old, new, got : TRUE   \* (left to C07)

E == Trace[l]
Init == l = 1 /\ K!KInit([b \in 0..63 |-> -1]) /\ overlap = 0

CallOf(e) == CASE e.op = "K" -> K!KeyGenCall(e.pk, e.sk)
               [] e.op = "E" -> K!EncapsCall(e.ct, e.ss, e.pk)
               [] e.op = "D" -> K!DecapsCall(e.ss, e.ct, e.sk)
\* the outputs as recorded at the end of the call are the machine's
Shown(c, m, e) == CASE c.op = "keygen" -> m[c.pk] = e.o1 /\ m[c.sk] = e.o2
                    [] c.op = "encaps" -> m[c.ct] = e.o1 /\ m[c.ss] = e.o2
                    [] c.op = "decaps" -> m[c.ss] = e.o1
End(e) == LET c == call[e.t] IN
  \/ K!End(e.t) /\ e.ret = 0 /\ e.amount = 1 /\ Shown(c, mem', e)
  \/ K!EndFailed(e.t, mem) /\ e.ret # 0
\* a call of a free-running thread, on private outputs: as if alone
Done(e) == /\ IF e.fail = 1 THEN e.ret # 0
              ELSE /\ e.ret = 0 /\ e.amount = 1
                   /\ LET x == Look(CASE e.op = "K" -> <<"K", e.rnd, -1>>
                                      [] e.op = "E" -> <<"E", e.i1, e.rnd>>
                                      [] e.op = "D" -> <<"D", e.i1, e.i2>>)
                      IN  x[1] = 0 /\ x[2] = e.o1 /\ (e.op = "D" \/ x[3] = e.o2)
           /\ UNCHANGED <<mem, call, status>>

Next ==
  /\ l <= Len(Trace)
  /\ CASE E.e = "start" -> UNCHANGED <<mem, call, status>>
       [] E.e = "write" -> K!Write(E.b, E.v)
       [] E.e = "begin" -> K!Begin(E.t, CallOf(E))
       [] E.e = "draw"  -> K!Draw(E.t, IF E.fail = 1 THEN K!Failed ELSE K!Got(E.v))
       [] E.e = "end"   -> End(E)
       [] E.e = "done"  -> Done(E)
       [] E.e = "ran"   -> E.bad = 0 /\ UNCHANGED <<mem, call, status>>
       [] OTHER -> FALSE
  /\ overlap' = LET k == Cardinality({t \in Threads : call'[t] # K!Idle}) IN IF k > overlap THEN k ELSE overlap
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Tick == TLCSet(1, overlap)
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
            /\ PrintT(<<"OVERLAP", TLCGet(1)>>)
=============================================================================
