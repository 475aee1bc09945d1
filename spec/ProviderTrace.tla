--------------------------- MODULE ProviderTrace ----------------------------
(* Recorded calls on a provider that was made to fail, and repeated calls   *)
(* with what the process held before and after: judged by what the calls    *)
(* gave out, not by what they asked for.                                    *)
EXTENDS Frodo, Json, IOUtils
CONSTANTS Size, Gen
P == ParamsOf(Size, Gen)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Mem0 == [b \in {"b" \o ToString(k) : k \in 0..15} |-> << >>]
VARIABLES l, mem, saved, met
vars == <<l, mem, saved, met>>
\* only the predicates of the machine are used here
V == INSTANCE Provider WITH Ops <- {}, Uses <- 0, MaxCalls <- 0, MaxFault <- 0, Careless <- FALSE, Record <- FALSE,
       proc <- "up", op <- "none", step <- 0, missing <- {}, failed <- FALSE, ctx <- 0, outcome <- "none", calls <- 0, faults <- 0, plan <- << >>
E == Trace[l]
Observed(e) ==
  CASE e.e = "keygen" -> [mem EXCEPT ![e.pk] = HexBytes(e.opk), ![e.sk] = HexBytes(e.osk)]
    [] e.e = "encaps" -> [mem EXCEPT ![e.ct] = HexBytes(e.oct), ![e.ss] = HexBytes(e.oss)]
    [] e.e = "decaps" -> [mem EXCEPT ![e.ss] = HexBytes(e.oss)]
\* what of the result differs from what the specification says
Missing(e) ==
  CASE e.e = "keygen" -> LET k == KeyGen(P, HexBytes(e.rnd)) IN {x \in {"pk", "sk"} : k[x] # HexBytes(IF x = "pk" THEN e.opk ELSE e.osk)}
    [] e.e = "encaps" -> LET c == Encaps(P, mem[e.pk], HexBytes(e.rnd)) IN {x \in {"ct", "ss"} : c[x] # HexBytes(IF x = "ct" THEN e.oct ELSE e.oss)}
    [] e.e = "decaps" -> {x \in {"ss"} : Decaps(P, mem[e.ct], mem[e.sk]) # HexBytes(e.oss)}
\* the secret output of a refused call is what it was, or wiped
Kept(e) == LET b == IF e.e = "keygen" THEN e.sk ELSE e.ss IN mem[b] = << >> \/ Differs(mem[b], Observed(e)[b]) = 0
Call(e) == LET out == IF e.ret = 0 THEN "ok" ELSE "refused" IN
  /\ V!Whole(out, IF out = "ok" THEN Missing(e) ELSE {})
  /\ V!Excused(out, e.hit)
  /\ out = "refused" => Kept(e)
  /\ mem' = Observed(e) /\ UNCHANGED saved
  /\ met' = IF e.hit > 0 THEN <<met[1], met[2] + 1, met[3]>> ELSE <<met[1] + 1, met[2], met[3]>>
End(e) ==
  /\ IF e.mid = 0 THEN e.how = "done" ELSE V!Excused("stopped", e.hit) /\ V!Orderly(e.how)
  /\ mem' = saved /\ UNCHANGED saved
  /\ met' = <<met[1], met[2], met[3] + (IF e.mid = 1 THEN 1 ELSE 0)>>
\* repeated calls hold on to nothing (a few bytes once are not a leak)
Steady(e) == e.ret = 0 /\ e.heap < 8 * e.n /\ e.fds <= 0 /\ e.maps <= 0 /\ e.ctx <= 0
Sizes(e) == e.pk = LenPk(P) /\ e.sk = LenSk(P) /\ e.ct = LenCt(P) /\ e.ss = LenSs(P)

Init == l = 1 /\ mem = Mem0 /\ saved = Mem0 /\ met = <<0, 0, 0>>
Next ==
  /\ l <= Len(Trace)
  /\ CASE E.e = "sizes" -> Sizes(E) /\ mem' = Mem0 /\ UNCHANGED <<saved, met>>
       [] E.e \in {"keygen", "encaps", "decaps"} -> Call(E)
       [] E.e = "plan" -> saved' = mem /\ UNCHANGED <<mem, met>>
       [] E.e = "end" -> End(E)
       [] E.e = "steady" -> Steady(E) /\ UNCHANGED <<mem, saved, met>>
       [] OTHER -> FALSE
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Tick == TLCSet(1, met)
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
            /\ PrintT(<<"FAULTS", TLCGet(1)>>)
=============================================================================
