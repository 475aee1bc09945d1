----------------------------- MODULE BlockTrace ----------------------------
(* The building blocks of an implementation, called one by one, against the *)
(* definitions of Frodo; and the inputs an implementation has to refuse.    *)
EXTENDS Frodo, Json, IOUtils
CONSTANTS Size, Gen
P == ParamsOf(Size, Gen)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Init == l = 1
Ok(e) ==
  CASE e.e = "sizes"  -> e.pk = LenPk(P) /\ e.sk = LenSk(P) /\ e.ct = LenCt(P) /\ e.ss = LenSs(P)
    [] e.e = "encode" -> e.out = Encode(P.D, P.B, HexBytes(e.v))
    [] e.e = "decode" -> HexBytes(e.out) = Decode(P.D, P.B, e.v)
    [] e.e = "pack"   -> HexBytes(e.out) = Pack(P.D, e.v)
    [] e.e = "unpack" -> e.out = Unpack(P.D, HexBytes(e.v))
    [] e.e = "sample" -> e.out = SampleVec(P.chi, [k \in 1..Len(e.out) |-> e.v + k - 1])
    [] e.e = "dims"   -> e.rows = P.n /\ \A i \in 1..Len(e.cols) : e.cols[i] = P.n
    [] e.e = "arow"   -> LET r == ARow(P.gen, P.n, HexBytes(e.v), e.i) IN Len(e.out) = P.n /\ \A k \in 1..P.n : e.out[k] = r[k] % Q(P)
    [] e.e = "absent" -> TRUE               \* this implementation has no such part of its own
    [] e.e = "refuse" -> e.refused = 1
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Ok(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
============================================================================
