------------------------------ MODULE FrodoToy -----------------------------
(* The algorithms of Frodo with toy dimensions, explored: every message,    *)
(* many keys, every alteration of up to Bits bits of the ciphertext.  The   *)
(* noise can just leave the decoding interval, so both sides of the border  *)
(* are visited.                                                             *)
EXTENDS Frodo

CONSTANTS Keys, Messages, Bits, ToyGen

P == [n |-> 4, nbar |-> 2, D |-> 6, B |-> 2, len |-> 1, lenA |-> 16, rate |-> Rate128, chi |-> <<16384, 16384, 8192>>, gen |-> ToyGen]

VARIABLES key, mu, ct, ss, sent, got
vars == <<key, mu, ct, ss, sent, got>>
No == << >>
\* s, seedSE and z from one number
Rnd(i) == <<(i * 97 + 11) % 256, i % 256>> \o [k \in 1..16 |-> (i * (k + 3) + (i \div 256) * 5) % 256]

Init == key = No /\ mu = No /\ ct = No /\ ss = No /\ sent = No /\ got = No
Generate == key = No /\ \E i \in 0..Keys-1 : key' = KeyGen(P, Rnd(i)) /\ UNCHANGED <<mu, ct, ss, sent, got>>
Encapsulate == /\ key # No /\ mu = No
               /\ \E m \in Messages : LET e == TLCEval(Encaps(P, key.pk, <<m>>)) IN mu' = <<m>> /\ ct' = e.ct /\ sent' = e.ct /\ ss' = e.ss
               /\ UNCHANGED <<key, got>>
Tamper == /\ ct # No /\ got = No
          /\ Cardinality({b \in 0..(8 * Len(ct) - 1) : Bit(ct[(b \div 8) + 1], b % 8) # Bit(sent[(b \div 8) + 1], b % 8)}) < Bits
          /\ \E b \in 0..(8 * Len(ct) - 1) : ct' = FlipBitOf(ct, b)
          /\ UNCHANGED <<key, mu, ss, sent, got>>
Decapsulate == /\ ct # No /\ got = No
               /\ got' = [ss |-> Decaps(P, ct, key.sk), mu |-> DecodedMu(P, ct, key.sk), ok |-> Accepts(P, ct, key.sk)]
               /\ UNCHANGED <<key, mu, ct, ss, sent>>
Next == Generate \/ Encapsulate \/ Tamper \/ Decapsulate
Spec == Init /\ [][Next]_vars

Over == got # No
\* the formats: sizes, and the secret key carries the public key, its hash and the signed secret
Formats == key # No => /\ Len(key.pk) = LenPk(P) /\ Len(key.sk) = LenSk(P) /\ SkPk(P, key.sk) = key.pk /\ Coherent(P, key.sk)
                       /\ ct # No => Len(ct) = LenCt(P) /\ Len(ss) = LenSs(P)
\* decoding returns the message exactly when the noise is inside the interval
Decodes == Over => ((got.mu = mu) <=> WithinRadius(P, ct, key.sk, mu))
\* C01
Agreement == (Over /\ ct = sent /\ WithinRadius(P, ct, key.sk, mu)) => got.ss = ss /\ got.ok
\* C02: accepted means: it is the encapsulation of what it decodes to; else the key comes from s
Acceptance == Over => /\ got.ok <=> (Encaps(P, key.pk, got.mu).ct = ct)
                      /\ got.ok => got.ss = Encaps(P, key.pk, got.mu).ss
                      /\ ~got.ok => got.ss = RejectKey(P, ct, key.sk)
                      /\ ct # sent /\ got.mu = mu => ~got.ok
\* met on the way (reported, to show that nothing of this is vacuous)
Note(k) == TLCSet(k, TLCGet(k) + 1)
Met == Over => /\ (got.ok => Note(1)) /\ (~got.ok => Note(2))
               /\ (ct = sent /\ ~WithinRadius(P, ct, key.sk, mu) => Note(3))
               /\ ((\E i \in 1..4 : DecErr(P, ct, key.sk, mu)[i] \in {-Radius(P), Radius(P) - 1}) => Note(4))
ASSUME \A k \in 1..4 : TLCSet(k, 0)
Report == PrintT(<<"MET", <<TLCGet(1), TLCGet(2), TLCGet(3), TLCGet(4)>>>>)
============================================================================
