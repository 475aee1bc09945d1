----------------------------- MODULE Primitives ----------------------------
(* The symmetric primitives as stateful interfaces.  A sponge handle holds  *)
(* what was absorbed and how many blocks were squeezed; a cipher handle     *)
(* holds the key it was loaded with.  One-shot and four-way calls are       *)
(* functions.  Handles do not influence each other.                         *)
EXTENDS Frodo

CONSTANTS Sponge, Quad, Sched     \* names of handles
VARIABLES sp, qd, sc
pvars == <<sp, qd, sc>>

Empty == [st |-> "empty"]
RateOf(bits) == IF bits = 128 THEN Rate128 ELSE Rate256

PInit == sp = [h \in Sponge |-> Empty] /\ qd = [h \in Quad |-> Empty] /\ sc = [h \in Sched |-> Empty]

Oneshot(bits, in, len, out) == out = Shake(RateOf(bits), in, len) /\ UNCHANGED pvars
Oneshot4(in, len, out) == (\A k \in 1..4 : out[k] = Shake(Rate128, in[k], len)) /\ UNCHANGED pvars

\* strings of gigabytes: every output in outs is the end of the stream
OneshotLong(bits, chunk, times, rest, skip, len, outs) ==
  (\A k \in DOMAIN outs : outs[k] = ShakeLong(RateOf(bits), chunk, times, rest, 1048576, skip, len)) /\ UNCHANGED pvars

AbsorbInto(h, bits, in) ==
  sp' = [sp EXCEPT ![h] = [st |-> "out", rate |-> RateOf(bits), msg |-> in, at |-> 0]] /\ UNCHANGED <<qd, sc>>
\* the next n blocks of the output stream
SqueezeNext(h, n, out) ==
  /\ sp[h].st = "out"
  /\ LET s == sp[h] IN out = Slice(Shake(s.rate, s.msg, (s.at + n) * s.rate), s.at * s.rate, n * s.rate)
  /\ sp' = [sp EXCEPT ![h].at = @ + n] /\ UNCHANGED <<qd, sc>>

Absorb4(h, in) == qd' = [qd EXCEPT ![h] = [st |-> "out", msg |-> in, at |-> 0]] /\ UNCHANGED <<sp, sc>>
Squeeze4(h, n, out) ==
  /\ qd[h].st = "out"
  /\ LET s == qd[h] IN \A k \in 1..4 : out[k] = Slice(Shake(Rate128, s.msg[k], (s.at + n) * Rate128), s.at * Rate128, n * Rate128)
  /\ qd' = [qd EXCEPT ![h].at = @ + n] /\ UNCHANGED <<sp, sc>>

Load(h, key) == sc' = [sc EXCEPT ![h] = [st |-> "key", key |-> key]] /\ UNCHANGED <<sp, qd>>
Encrypt(h, pt, ct) == sc[h].st = "key" /\ Len(pt) % 16 = 0 /\ ct = AesEcb(sc[h].key, pt) /\ UNCHANGED pvars
\* the end of a long ciphertext is the encryption of the end of the plaintext, which is periodic
EncryptLong(h, chunk, rest, len, ct) ==
  /\ sc[h].st = "key" /\ len % 16 = 0 /\ rest % 16 = 0 /\ Len(chunk) % 16 = 0 /\ len <= Len(chunk)
  /\ LET end == chunk \o SubSeq(chunk, 1, rest) IN ct = AesEcb(sc[h].key, Slice(end, Len(end) - len, len))
  /\ UNCHANGED pvars
Free(h) == sc[h].st = "key" /\ sc' = [sc EXCEPT ![h] = Empty] /\ UNCHANGED <<sp, qd>>
============================================================================
