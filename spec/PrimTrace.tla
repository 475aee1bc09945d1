----------------------------- MODULE PrimTrace -----------------------------
(* Recorded uses of the real SHAKE and AES code, as behaviours of Primitives *)
EXTENDS Primitives, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, sp, qd, sc>>
E == Trace[l]
B(x) == HexBytes(x)

Init == l = 1 /\ PInit
Step(e) ==
  CASE e.e = "shake"   -> Oneshot(e.bits, B(e.in), e.len, B(e.out))
    [] e.e = "absorb"  -> AbsorbInto(e.h, e.bits, B(e.in))
    [] e.e = "squeeze" -> SqueezeNext(e.h, e.n, B(e.out))
    [] e.e = "shake4"  -> Oneshot4(<<B(e.in0), B(e.in1), B(e.in2), B(e.in3)>>, e.len, <<B(e.out0), B(e.out1), B(e.out2), B(e.out3)>>)
    [] e.e = "absorb4" -> Absorb4(e.h, <<B(e.in0), B(e.in1), B(e.in2), B(e.in3)>>)
    [] e.e = "squeeze4" -> Squeeze4(e.h, e.n, <<B(e.out0), B(e.out1), B(e.out2), B(e.out3)>>)
    [] e.e = "load"    -> Load(e.h, B(e.key)) /\ 8 * Len(B(e.key)) = e.bits
    [] e.e = "enc"     -> Encrypt(e.h, B(e.pt), B(e.ct))
    [] e.e = "giant"   -> OneshotLong(e.bits, B(e.chunk), e.times, e.rest, e.skip, e.len, [k \in DOMAIN e.out |-> B(e.out[k])])
    [] e.e = "giantenc" -> EncryptLong(e.h, B(e.chunk), e.rest, e.len, B(e.ct))
    [] e.e = "free"    -> Free(e.h)
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ E.e # "crash" /\ E.ok = 1 /\ Step(E) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
============================================================================
