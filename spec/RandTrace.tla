----------------------------- MODULE RandTrace -----------------------------
(* Recorded behaviour of the library's randomness source, judged against    *)
(* what SysRandom promises: whatever calls the source makes of the system,  *)
(* a request answered with success holds exactly the requested number of    *)
(* bytes, each taken from the device and used once; requests fail only when *)
(* the system has failed for good; at most one descriptor stays open.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bytes

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          req,     \* per thread: the request under way: [n, got (stream position + 1 per byte, 0: nothing yet)]
          used,    \* stream positions handed out, + 1
          pos,     \* bytes the device has delivered
          open,    \* descriptors open
          perm,    \* the system has failed for good
          nought,  \* threads that were told "no bytes" (by a system whose refusal is final)
          kept,    \* descriptors open when a child process was made
          pool     \* intervals of positions delivered elsewhere than into the caller's buffer, not handed out yet
vars == <<l, req, used, pos, open, perm, nought, kept, pool>>

E == Trace[l]
None == [n |-> -1]
Init == l = 1 /\ req = [t \in 0..8 |-> None] /\ used = {} /\ pos = 0 /\ open = {} /\ perm = 0 /\ nought = {} /\ kept = {} /\ pool = << >>

\* the byte the device delivers at position i (0, 1, ...)
Stream(i) == (i * 167 + (i \div 256) * 59 + (i \div 16) * 31 + 13) % 256

\* buffers filled by way of memory of the library's own: each byte has to be a delivered byte nobody got yet. The
\* bytes delivered there are kept as intervals of positions; the buffer is covered with runs taken from them, longest
\* first, preferably from the front of an interval.
RECURSIVE RunLen(_, _, _, _, _)
RunLen(buf, got, k, p, hi) ==
  IF k > Len(buf) \/ p > hi \/ got[k] # 0 \/ Stream(p - 1) # buf[k] THEN 0 ELSE 1 + RunLen(buf, got, k + 1, p + 1, hi)
Without(ivs, j, p, m) ==        \* intervals ivs less the m positions from p on, in interval j
  SubSeq(ivs, 1, j - 1)
  \o (IF p > ivs[j][1] THEN <<<<ivs[j][1], p - 1>>>> ELSE << >>)
  \o (IF p + m <= ivs[j][2] THEN <<<<p + m, ivs[j][2]>>>> ELSE << >>)
  \o SubSeq(ivs, j + 1, Len(ivs))
RECURSIVE Cover(_, _, _, _)
Cover(buf, got, k, ivs) ==
  IF k > Len(buf) THEN [got |-> got, rest |-> ivs]
  ELSE IF got[k] # 0 THEN Cover(buf, got, k + 1, ivs)
  ELSE LET front == {<<j, ivs[j][1]>> : j \in {j \in DOMAIN ivs : Stream(ivs[j][1] - 1) = buf[k]}}
           any   == UNION {{<<j, p>> : p \in {p \in ivs[j][1]..ivs[j][2] : Stream(p - 1) = buf[k]}} : j \in DOMAIN ivs}
           c     == TLCEval(IF front # {} THEN front ELSE any)
           len(x) == RunLen(buf, got, k, x[2], ivs[x[1]][2])
       IN  IF c = {} THEN [got |-> got, rest |-> ivs]
           ELSE LET x == CHOOSE x \in c : \A y \in c : len(y) <= len(x)
                    m == TLCEval(len(x))
                IN  Cover(buf, TLCEval([i \in DOMAIN got |-> IF i >= k /\ i < k + m THEN x[2] + (i - k) ELSE got[i]]),
                          k + m, TLCEval(Without(ivs, x[1], x[2], m)))

Set(s) == {s[i] : i \in DOMAIN s}
AllFresh(buf, got) ==
  /\ \A i \in DOMAIN got : got[i] # 0 /\ got[i] \notin used /\ Stream(got[i] - 1) = buf[i]
  /\ Cardinality(Set(got)) = Len(got)

Call(e) == /\ req[e.t] = None
           /\ req' = [req EXCEPT ![e.t] = [n |-> e.n, got |-> TLCEval([i \in 1..e.n |-> 0])]]
           /\ nought' = nought \ {e.t}
           /\ UNCHANGED <<used, pos, open, perm, pool>>
Open(e) == /\ e.dev = 1
           /\ open' = IF e.fd = -1 THEN open ELSE open \cup {e.fd}
           /\ UNCHANGED <<req, used, pos, perm, nought, pool>>
Close(e) == /\ e.was = 1 /\ open' = open \ {e.fd} /\ UNCHANGED <<req, used, pos, perm, nought, pool>>
Read(e) ==
  /\ e.live = 1
  /\ req[e.t] # None
  /\ e.off >= 0 => e.off + e.cnt <= req[e.t].n          \* never told to write past the caller's buffer
  /\ e.r > 0 => e.pos = pos
  /\ pos' = IF e.r > 0 THEN pos + e.r ELSE pos
  /\ IF e.r > 0 /\ e.off >= 0
     THEN req' = [req EXCEPT ![e.t].got = TLCEval([i \in DOMAIN @ |-> IF i > e.off /\ i <= e.off + e.r THEN e.pos + (i - e.off) ELSE @[i]])]
          /\ pool' = pool
     ELSE req' = req /\ pool' = IF e.r > 0 THEN Append(pool, <<e.pos + 1, e.pos + e.r>>) ELSE pool
  /\ nought' = IF e.r = 0 \/ (e.e = "gen" /\ e.r < 0) THEN nought \cup {e.t} ELSE nought
  /\ UNCHANGED <<used, open, perm>>
Ret(e) ==
  /\ e.over = 0
  /\ req[e.t] # None
  /\ IF e.ret # 0 THEN (perm # 0 \/ e.t \in nought) /\ UNCHANGED <<used, pool>>
     ELSE LET buf == TLCEval(HexBytes(e.buf))
              g0  == req[e.t].got
              cov == IF \A i \in DOMAIN g0 : g0[i] # 0 THEN [got |-> g0, rest |-> pool] ELSE TLCEval(Cover(buf, g0, 1, pool))
              got == cov.got
          IN  /\ Len(buf) = req[e.t].n
              /\ AllFresh(buf, got)
              /\ used' = used \cup Set(got)
              /\ pool' = cov.rest
  /\ req' = [req EXCEPT ![e.t] = None]
  /\ UNCHANGED <<pos, open, perm, nought>>
End(e) == /\ \A t \in DOMAIN req : req[t] = None
          /\ Cardinality(open) = e.open /\ e.open <= 1
          /\ UNCHANGED <<req, used, pos, open, perm, nought, pool>>

\* very large requests: lengths and offsets as (units of 2^20, rest); req.got is the end of the part delivered so far
Plus(a, b) == LET s == a[2] + b[2] IN <<a[1] + b[1] + s \div 1048576, s % 1048576>>
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Big(e) ==
  CASE e.e = "bigcall" -> req' = [req EXCEPT ![1] = [n |-> e.n, got |-> <<0, 0>>, direct |-> TRUE]]
    [] e.e = "bigread" -> IF e.in = 1
                          THEN /\ req[1].direct => e.off = req[1].got
                               /\ LE(Plus(e.off, e.cnt), req[1].n)
                               /\ req' = [req EXCEPT ![1].got = IF e.fail = 1 THEN @ ELSE Plus(@, e.r)]
                          ELSE req' = [req EXCEPT ![1].direct = FALSE]
    [] e.e = "bigret"  -> /\ (e.ret = 0 /\ req[1].direct) => req[1].got = req[1].n
                          /\ e.ret = 0
                          /\ req' = [req EXCEPT ![1] = None]

Next ==
  /\ l <= Len(Trace)
  /\ CASE E.e = "new"   -> /\ req' = [t \in 0..8 |-> None] /\ used' = {} /\ pos' = 0 /\ open' = {} /\ perm' = E.perm
                           /\ nought' = {} /\ pool' = << >>
       [] E.e = "call"  -> Call(E)
       [] E.e = "open"  -> Open(E)
       [] E.e = "close" -> Close(E)
       [] E.e = "read"  -> Read(E)
       [] E.e = "gen"   -> Read(E)            \* a system that answers all or nothing; its refusal may be passed on at once
       [] E.e = "ret"   -> Ret(E)
       [] E.e = "end"   -> End(E)
       [] E.e = "stuck" -> perm # 0 /\ UNCHANGED <<req, used, pos, open, perm, nought, pool>>   \* keeps trying
       [] E.e = "cut" -> UNCHANGED <<req, used, pos, open, perm, nought, pool>>    \* the driver stopped recording
       [] E.e \in {"bigcall", "bigread", "bigret"} -> Big(E) /\ UNCHANGED <<used, pos, open, perm, nought, pool>>
       \* a child process gets a copy of everything but the device, and never the bytes its parent gets
       [] E.e = "fork" -> UNCHANGED <<req, used, pos, open, perm, nought, pool>>
       [] E.e = "joined" -> open' = kept /\ UNCHANGED <<req, used, pos, perm, nought, pool>>
       [] OTHER -> FALSE
  /\ kept' = IF E.e = "fork" THEN open ELSE kept
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
=============================================================================
