---------------------------- MODULE FrodoTrace -----------------------------
(* Recorded executions of the real library, followed step by step.          *)
(* Each line of the trace is one call (with its arguments, randomness,      *)
(* status and outputs) or one edit of a caller's buffer.  Judge selects     *)
(* the property that every step has to satisfy; "conform" is the full       *)
(* machine of FrodoKEM with the algorithms of Frodo.                        *)
EXTENDS Frodo, Json, IOUtils

CONSTANTS Size, Gen, Judge

P == ParamsOf(Size, Gen)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Mem0 == [b \in {"b" \o ToString(k) : k \in 0..47} |-> << >>]

VARIABLES l, mem, call, status,
          pairs,   \* key pairs key generation has produced, as [pk, sk]
          encs,    \* encapsulations so far, as [pk, mu, ct, ss]
          seen,    \* what each (call, inputs) produced the first time
          acc      \* decapsulations that accepted, and that rejected
vars == <<l, mem, call, status, pairs, encs, seen, acc>>

KG(r) == KeyGen(P, r)
EN(pk, r) == Encaps(P, pk, r)
DE(ct, sk) == Decaps(P, ct, sk)
E == Trace[l]
\* an output of a refused call has changed, other than to zeros, in no more bytes than the source had delivered by then
\* (a call may draw straight into its output and find the second half missing)
Nothing(old, new, got) == Differs(old, new) <= got
K == INSTANCE FrodoKEM WITH Thread <- {"main"}, Buf <- DOMAIN Mem0,
       KeyGenOf <- KG, EncapsOf <- EN, DecapsOf <- DE,
       Withheld <- Nothing

CallOf(e) == CASE e.e = "keygen" -> K!KeyGenCall(e.pk, e.sk)
               [] e.e = "encaps" -> K!EncapsCall(e.ct, e.ss, e.pk)
               [] e.e = "decaps" -> K!DecapsCall(e.ss, e.ct, e.sk)
RECURSIVE Sum(_)
Sum(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + Sum(Tail(s))
\* the source was told to fail at one of the requests the call made
Refused(e) == e.e # "decaps" /\ e.fail > 0 /\ Len(e.draws) >= e.fail
Need(e) == CASE e.e = "keygen" -> LenKgRnd(P) [] e.e = "encaps" -> LenMu(P) [] OTHER -> 0
\* the bytes the call drew, in order
Drawn(e) == IF Refused(e) THEN K!FailedAfter(e.got)
            ELSE IF e.e = "decaps" THEN K!NoRnd ELSE K!Got(TLCEval(SubSeq(HexBytes(e.rnd), 1, Need(e))))

\* memory as recorded after the call
Observed(e) ==
  CASE e.e = "keygen" -> [mem EXCEPT ![e.pk] = HexBytes(e.opk), ![e.sk] = HexBytes(e.osk)]
    [] e.e = "encaps" -> [mem EXCEPT ![e.ct] = HexBytes(e.oct), ![e.ss] = HexBytes(e.oss)]
    [] e.e = "decaps" -> [mem EXCEPT ![e.ss] = HexBytes(e.oss)]

IsCall(e) == e.e \in {"keygen", "encaps", "decaps"}

----------------------------------------------------------------------------
(* the judgements; each reads the state before the call and the event *)

\* the machine takes this step, and the recorded memory is the machine's
Conform(e) == /\ K!Run("main", CallOf(e), Drawn(e), Observed(e))
              /\ mem' = Observed(e)
              /\ (status'["main"] = 0) = (e.ret = 0)
Follow(e) == mem' = Observed(e) /\ UNCHANGED <<call, status>>

\* C01: whoever decapsulates an encapsulation with the matching key gets the encapsulator's secret
Honest(pk, sk) == \E k \in 1..Len(pairs) : pairs[k].pk = pk /\ pairs[k].sk = sk
Agree(e) ==
  /\ e.ret = 0
  /\ e.e = "decaps" =>
       LET ct == mem[e.ct]
           sk == mem[e.sk]
       IN  \A i \in 1..Len(encs) :
             (encs[i].ct = ct /\ encs[i].pk = SkPk(P, sk)
                /\ (Honest(encs[i].pk, sk) \/ (Coherent(P, sk) /\ WithinRadius(P, ct, sk, encs[i].mu))))
             => HexBytes(e.oss) = encs[i].ss
\* C02: a ciphertext that is not the re-encryption of its own decoding gets the key derived from s
Reject(e) ==
  e.e = "decaps" => e.ret = 0 /\ HexBytes(e.oss) = Decaps(P, mem[e.ct], mem[e.sk])
\* C05: the noise in the secret key, and in the public key given the secret, is the exact sample
Noise(e) ==
  CASE e.e = "encaps" -> e.ret = 0 /\ HexBytes(e.oct) = EncryptWith(P, mem[e.pk], H(P, mem[e.pk], P.len), HexBytes(e.rnd)).ct
    [] e.e = "decaps" -> TRUE
    [] OTHER ->
     LET m   == P.n * P.nbar
         r   == TLCEval(Words(H(P, <<95>> \o Slice(HexBytes(e.rnd), P.len, P.len), 4 * m)))
         sk  == HexBytes(e.osk)
         St  == SampleVec(P.chi, SubSeq(r, 1, m))
         Er  == SampleVec(P.chi, SubSeq(r, m + 1, 2 * m))
     IN  /\ SkMat(P, sk) = UnWords(St)
         /\ e.ret = 0
         /\ PkB(P, HexBytes(e.opk)) = Pack(P.D, MulAddAS(P.gen, P.n, P.nbar, P.D, PkSeedA(P, HexBytes(e.opk)), St, Er))
\* C06: sizes and layout of what key generation and encapsulation hand out
Layout(e) ==
  CASE e.e = "keygen" ->
         LET pk == HexBytes(e.opk)
             sk == HexBytes(e.osk)
             r  == HexBytes(e.rnd)
         IN  /\ Len(pk) = LenPk(P) /\ Len(sk) = LenSk(P)
             /\ SkS(P, sk) = Slice(r, 0, P.len)
             /\ SkPk(P, sk) = pk
             /\ Coherent(P, sk)
             /\ PkSeedA(P, pk) = H(P, Slice(r, 2 * P.len, P.lenA), P.lenA)
             /\ LET w == Words(SkMat(P, sk)) IN \A i \in 1..Len(w) : LET v == Signed16(w[i]) IN v < Len(P.chi) /\ -v < Len(P.chi)
    [] e.e = "encaps" -> Len(HexBytes(e.oct)) = LenCt(P) /\ Len(HexBytes(e.oss)) = LenSs(P)
    [] OTHER -> TRUE
\* C07: exactly the bytes needed are drawn; a refusal is reported and nothing is handed out
Draws(e) ==
  IF Refused(e) THEN e.ret # 0
  ELSE e.ret = 0 /\ Sum(e.draws) = Need(e) /\ e.short = 0
\* C09: only the outputs change
Clean(e) == e.dirty = << >>
\* C04/C10: the same call on the same inputs gives the same result wherever and whenever it is made
KeyOf(e) == CASE e.e = "keygen" -> <<"K", e.rnd>>
              [] e.e = "encaps" -> <<"E", mem[e.pk], e.rnd>>
              [] e.e = "decaps" -> <<"D", mem[e.ct], mem[e.sk]>>
ResOf(e) == CASE e.e = "keygen" -> <<e.ret, e.opk, e.osk>>
              [] e.e = "encaps" -> <<e.ret, e.oct, e.oss>>
              [] e.e = "decaps" -> <<e.ret, e.oss>>
Function(e) == e.ret = 0 /\ \A i \in 1..Len(seen) : seen[i].k = KeyOf(e) => seen[i].r = ResOf(e)

\* many round trips recorded together: a, b are the secrets of both sides, one after the other; h condenses all outputs
Trips(e) == /\ e.ret = 0 /\ Len(HexBytes(e.a)) = e.n * P.len
            /\ Judge = "agree" => e.a = e.b
            /\ Judge = "function" => \A i \in 1..Len(seen) : seen[i].k = <<"T", e.seed>> => seen[i].r = <<e.a, e.b, e.h>>
            /\ seen' = IF Judge = "function" /\ \A i \in 1..Len(seen) : seen[i].k # <<"T", e.seed>> THEN Append(seen, [k |-> <<"T", e.seed>>, r |-> <<e.a, e.b, e.h>>]) ELSE seen
            /\ acc' = IF Judge = "agree" \/ seen' = seen THEN <<acc[1] + e.n, acc[2]>> ELSE <<acc[1], acc[2] + e.n>>

\* a key generation, an encapsulation, a decapsulation and one of an altered ciphertext of which only a digest is recorded
Round(e) ==
  LET k  == TLCEval(KeyGen(P, HexBytes(e.kr)))
      c  == TLCEval(Encaps(P, k.pk, HexBytes(e.er)))
      d1 == Decaps(P, c.ct, k.sk)
      d2 == Decaps(P, FlipBitOf(c.ct, e.bit), k.sk)
  IN  e.ret = 0 /\ e.h = BytesHex(Shake(Rate256, k.pk \o k.sk \o c.ct \o c.ss \o d1 \o d2, 32))

Claim(e) == CASE Judge = "conform"  -> Conform(e) /\ e.ret = 0
              [] Judge = "agree"    -> Agree(e) /\ Follow(e)
              [] Judge = "reject"   -> Reject(e) /\ Follow(e)
              [] Judge = "noise"    -> Noise(e) /\ Follow(e)
              [] Judge = "layout"   -> Layout(e) /\ Conform(e)
              [] Judge = "draws"    -> Draws(e) /\ Conform(e)
              [] Judge = "clean"    -> Clean(e) /\ Function(e) /\ Follow(e)
              [] Judge = "function" -> Function(e) /\ Follow(e)
              [] Judge = "refuse"   -> Follow(e)

----------------------------------------------------------------------------
Init == l = 1 /\ K!KInit(Mem0) /\ pairs = << >> /\ encs = << >> /\ seen = << >> /\ acc = <<0, 0>>

RECURSIVE FlipAll(_, _)
FlipAll(s, bits) == IF Len(bits) = 0 THEN s ELSE FlipAll(FlipBitOf(s, Head(bits)), Tail(bits))
PatchAt(s, off, v) == SubSeq(s, 1, off) \o v \o SubSeq(s, off + Len(v) + 1, Len(s))

Edit(e) ==
  CASE e.e = "write" -> K!Write(e.b, HexBytes(e.v))
    [] e.e = "fill"  -> K!Write(e.b, [k \in 1..e.len |-> e.v])
    [] e.e = "copy"  -> K!Write(e.b, mem[e.src])
    [] e.e = "slice" -> K!Write(e.b, Slice(mem[e.src], e.off, e.len))
    [] e.e = "join"  -> K!Write(e.b, Slice(mem[e.src], 0, e.off) \o Slice(mem[e.rest], e.off, Len(mem[e.rest]) - e.off))
    [] e.e = "flip"  -> K!Write(e.b, FlipAll(mem[e.b], e.bits))
    [] e.e = "patch" -> K!Write(e.b, PatchAt(mem[e.b], e.off, HexBytes(e.v)))
Sizes(e) == e.pk = LenPk(P) /\ e.sk = LenSk(P) /\ e.ct = LenCt(P) /\ e.ss = LenSs(P)

Remember(e) ==
  /\ pairs' = IF Judge = "agree" /\ e.e = "keygen" THEN Append(pairs, [pk |-> HexBytes(e.opk), sk |-> HexBytes(e.osk)]) ELSE pairs
  /\ encs'  = IF Judge = "agree" /\ e.e = "encaps" /\ ~Refused(e)
              THEN Append(encs, [pk |-> mem[e.pk], mu |-> Drawn(e).val, ct |-> HexBytes(e.oct), ss |-> HexBytes(e.oss)]) ELSE encs
  /\ seen'  = IF Judge \in {"function", "clean"} /\ \A i \in 1..Len(seen) : seen[i].k # KeyOf(e)
              THEN Append(seen, [k |-> KeyOf(e), r |-> ResOf(e)]) ELSE seen
  /\ acc' = IF Judge \in {"function", "clean"} THEN (IF seen' = seen THEN <<acc[1] + 1, acc[2]>> ELSE <<acc[1], acc[2] + 1>>)
            ELSE IF e.e # "decaps" \/ Judge \notin {"conform", "agree", "reject", "layout"} THEN acc
            ELSE IF HexBytes(e.oss) = RejectKey(P, mem[e.ct], mem[e.sk]) THEN <<acc[1], acc[2] + 1>>
            ELSE <<acc[1] + 1, acc[2]>>

Next ==
  /\ l <= Len(Trace)
  /\ CASE E.e = "sizes" -> Sizes(E) /\ mem' = Mem0 /\ UNCHANGED <<call, status, pairs, encs, seen, acc>>
       [] IsCall(E) -> Claim(E) /\ Remember(E)
       [] E.e \in {"write", "fill", "copy", "slice", "join", "flip", "patch"} -> Edit(E) /\ UNCHANGED <<pairs, encs, seen, acc>>
       [] E.e = "trips" -> Trips(E) /\ UNCHANGED <<mem, call, status, pairs, encs>>
       [] E.e = "round" -> Round(E) /\ UNCHANGED <<mem, call, status, pairs, encs, seen, acc>>
       [] E.e = "refuse" -> E.refused = 1 /\ UNCHANGED <<mem, call, status, pairs, encs, seen, acc>>
       [] OTHER -> FALSE                 \* a call that crashed or never came back
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars

\* executions are linear: the position identifies the state
View == l
\* (TLC forgets the state; the counts of the last step are kept aside)
Tick == TLCSet(1, acc)
Accepted == LET d == TLCGet("stats").diameter IN
            PrintT(<<"TRACE", IF d - 1 = Len(Trace) THEN "ACCEPTED" ELSE "REJECTED", d - 1, Len(Trace)>>)
            /\ PrintT(<<IF Judge \in {"function", "clean"} THEN "REPEATS" ELSE "DECAPS", TLCGet(1)>>)
=============================================================================
