---------------------------- MODULE SourceTrace ----------------------------
(* The randomness of an implementation that has a source of its own on top  *)
(* of the operating system's: what it delivers is determined by what the    *)
(* system served and by nothing else, takes every value evenly, and is      *)
(* never delivered when the system refuses.                                 *)
EXTENDS Bytes, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          drawn,   \* [stream, n] -> what was delivered from it
          ones,    \* how often each of the eight bits of a byte was set
          count,   \* bytes delivered
          values   \* byte values delivered
vars == <<l, drawn, ones, count, values>>
E == Trace[l]
Init == l = 1 /\ drawn = << >> /\ ones = [b \in 0..7 |-> 0] /\ count = 0 /\ values = {}

Draw(e) ==
  LET o == TLCEval(HexBytes(e.out))
  IN  /\ e.refused = 0
      /\ Len(o) = e.n
      /\ e.served >= e.n                                    \* no more randomness comes out than went in
      /\ \A i \in 1..Len(drawn) :                           \* a function of the system's bytes, and a different one for others
           drawn[i].n = e.n => (drawn[i].stream = e.stream) = (drawn[i].out = e.out)
      /\ drawn' = Append(drawn, [stream |-> e.stream, n |-> e.n, out |-> e.out])
      /\ values' = values \cup {o[k] : k \in 1..Len(o)}
      /\ count' = count + Len(o)
      /\ ones' = [b \in 0..7 |-> ones[b] + Cardinality({k \in 1..Len(o) : (o[k] \div 2^b) % 2 = 1})]
Refuse(e) == e.refused = 1 /\ UNCHANGED <<drawn, ones, count, values>>

\* asked of the whole recording: no value is left out and no bit is lopsided (over thousands of bytes a fair bit stays within 3%)
Even == values = 0..255 /\ \A b \in 0..7 : 100 * ones[b] > 47 * count /\ 100 * ones[b] < 53 * count

Next ==
  /\ l <= Len(Trace)
  /\ CASE E.e = "draw" -> Draw(E)
       [] E.e \in {"deny", "call"} -> Refuse(E)
       [] E.e = "absent" -> UNCHANGED <<drawn, ones, count, values>>
       [] E.e = "total" -> (E.draws = 0 \/ Even) /\ UNCHANGED <<drawn, ones, count, values>>
       [] OTHER -> FALSE
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
============================================================================
