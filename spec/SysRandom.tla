----------------------------- MODULE SysRandom -----------------------------
(* The system randomness source: threads ask for bytes, the device is       *)
(* opened once and shared, the system answers every call as it likes        *)
(* (failed opens, interrupted reads, short reads), calls interleave.        *)
(* The device delivers an endless stream whose positions 1, 2, 3, ... stand *)
(* for the bytes, so that freshness is distinctness of positions.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads,     \* number of threads
          Lengths,     \* lengths a thread may ask for
          Requests,    \* requests per thread
          Faults,      \* failures and short reads the system may produce in all
          Publish,     \* "cas": publish the descriptor with compare-and-exchange; "plain": overwrite it
          Record       \* print each complete behaviour, for replay into the code

Thread == 1..Threads
None == -1

VARIABLES dev,     \* the shared descriptor, or None
          open,    \* descriptors open now
          nfd,     \* descriptors handed out so far
          pos,     \* bytes of the stream delivered so far
          pc, fd, len, got, left,   \* per thread: where it is, its descriptor, its request, what it has received
          done,    \* requests answered: the stream positions each delivered
          budget,  \* faults left
          hist     \* what the system did, in order (only with Record)
svars == <<dev, open, nfd, pos, pc, fd, len, got, left, done, budget>>
vars  == <<svars, hist>>

Init ==
  /\ dev = None /\ open = {} /\ nfd = 0 /\ pos = 0 /\ done = << >> /\ budget = Faults
  /\ pc = [t \in Thread |-> "idle"] /\ fd = [t \in Thread |-> None] /\ len = [t \in Thread |-> 0]
  /\ got = [t \in Thread |-> << >>] /\ left = [t \in Thread |-> Requests]
  /\ hist = << >>

Log(h) == hist' = IF Record THEN Append(hist, h) ELSE hist

Ask(t, n) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ len' = [len EXCEPT ![t] = n] /\ got' = [got EXCEPT ![t] = << >>] /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ fd' = [fd EXCEPT ![t] = dev]
  /\ pc' = [pc EXCEPT ![t] = IF dev = None THEN "open" ELSE "read"]
  /\ Log([t |-> t, a |-> "ask", r |-> n])
  /\ UNCHANGED <<dev, open, nfd, pos, done, budget>>

OpenOk(t) ==
  /\ pc[t] = "open"
  /\ nfd' = nfd + 1 /\ open' = open \cup {nfd + 1} /\ fd' = [fd EXCEPT ![t] = nfd + 1]
  /\ pc' = [pc EXCEPT ![t] = "publish"]
  /\ Log([t |-> t, a |-> "open", r |-> 1])
  /\ UNCHANGED <<dev, pos, len, got, left, done, budget>>

OpenFails(t) ==
  /\ pc[t] = "open" /\ budget > 0
  /\ budget' = budget - 1
  /\ Log([t |-> t, a |-> "open", r |-> -1])
  /\ UNCHANGED <<dev, open, nfd, pos, pc, fd, len, got, left, done>>

PublishFd(t) ==
  /\ pc[t] = "publish"
  /\ IF Publish = "cas" /\ dev # None
     THEN /\ open' = open \ {fd[t]} /\ fd' = [fd EXCEPT ![t] = dev] /\ dev' = dev
     ELSE /\ dev' = fd[t] /\ UNCHANGED <<open, fd>>
  /\ pc' = [pc EXCEPT ![t] = "read"]
  /\ UNCHANGED <<nfd, pos, len, got, left, done, budget, hist>>

\* the system delivers k bytes; fewer than asked for counts as a fault
Read(t, k) ==
  LET want == len[t] - Len(got[t]) IN
  /\ pc[t] = "read" /\ want > 0 /\ k \in 0..want
  /\ k < want => budget > 0
  /\ budget' = IF k < want THEN budget - 1 ELSE budget
  /\ pos' = pos + k
  /\ got' = [got EXCEPT ![t] = @ \o [i \in 1..k |-> pos + i]]
  /\ Log([t |-> t, a |-> "read", r |-> k])
  /\ UNCHANGED <<dev, open, nfd, pc, fd, len, left, done>>

ReadFails(t) ==
  /\ pc[t] = "read" /\ Len(got[t]) < len[t] /\ budget > 0
  /\ budget' = budget - 1
  /\ Log([t |-> t, a |-> "read", r |-> -1])
  /\ UNCHANGED <<dev, open, nfd, pos, pc, fd, len, got, left, done>>

Return(t) ==
  /\ pc[t] = "read" /\ Len(got[t]) = len[t]
  /\ done' = Append(done, [n |-> len[t], got |-> got[t]])
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<dev, open, nfd, pos, fd, len, got, left, budget, hist>>

Next == \E t \in Thread :
          \/ \E n \in Lengths : Ask(t, n)
          \/ OpenOk(t) \/ OpenFails(t) \/ PublishFd(t)
          \/ \E k \in 0..(len[t] - Len(got[t])) : Read(t, k)
          \/ ReadFails(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
\* the system keeps answering every thread, so every request is answered once the faults are used up
Live == Spec /\ \A t \in Thread : WF_vars(OpenOk(t) \/ PublishFd(t) \/ Return(t) \/ \E k \in 1..(len[t] - Len(got[t])) : Read(t, k))

----------------------------------------------------------------------------
(* C08 *)
Range(s) == {s[i] : i \in DOMAIN s}
\* every answered request got exactly its bytes, all from the stream
Delivered == \A i \in DOMAIN done : Len(done[i].got) = done[i].n /\ Range(done[i].got) \subseteq 1..pos
\* no byte twice, not within a request and not in two requests
FreshBytes ==
         \A i \in DOMAIN done : /\ Cardinality(Range(done[i].got)) = Len(done[i].got)
                                /\ \A j \in DOMAIN done : i # j => Range(done[i].got) \cap Range(done[j].got) = {}
\* nobody reads from a descriptor that is closed
NoStaleFd == \A t \in Thread : pc[t] = "read" => fd[t] \in open
Quiet == \A t \in Thread : pc[t] = "idle"
\* at most one descriptor stays open
NoLeak == Quiet => Cardinality(open) <= 1
Answered == \A t \in Thread : (pc[t] # "idle") ~> (pc[t] = "idle")

Finished == Quiet /\ \A t \in Thread : left[t] = 0
Emit == (Record /\ Finished) => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
============================================================================
