------------------------------ MODULE Provider ------------------------------
(* What a call asks of the cryptographic provider it is built on (a cipher  *)
(* context, a key set-up, then the public matrix piece by piece), and what  *)
(* may become of the call when one of these requests fails: it may ask      *)
(* again, return failure without a result, or stop the process.  It may not *)
(* go on with the piece missing, and it holds nothing once it has returned. *)
(* Careless drops the error checks; TLC then has to find Whole violated.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ops, Uses, MaxCalls, MaxFault, Careless, Record
VARIABLES proc,     \* "up" or "stopped"
          op,       \* the call in progress
          step,     \* the request it makes next: 1 context, 2 key, 3.. pieces, Uses + 3: all there
          missing,  \* requests that failed and were not made good
          failed,   \* the last request failed
          ctx,      \* contexts held
          outcome,  \* of the last call that returned
          calls, faults, plan
vars == <<proc, op, step, missing, failed, ctx, outcome, calls, faults, plan>>

\* ---- what callers rely on, for the trace specification as well
\* given out only if nothing is missing
Whole(out, miss) == out = "ok" => miss = {}
\* ended early only because a request failed
Excused(out, hits) == out # "ok" => hits > 0
Orderly(how) == how \in {"abort", "exit"}

Init == /\ proc = "up" /\ op = "none" /\ step = 0 /\ missing = {} /\ failed = FALSE /\ ctx = 0
        /\ outcome = "none" /\ calls = 0 /\ faults = 0 /\ plan = << >>
Begin(o) ==
  /\ proc = "up" /\ op = "none" /\ calls < MaxCalls
  /\ op' = o /\ step' = 1 /\ missing' = {} /\ failed' = FALSE /\ outcome' = "none"
  /\ calls' = calls + 1
  /\ plan' = IF Record THEN Append(plan, [op |-> o, at |-> 0]) ELSE plan
  /\ UNCHANGED <<proc, ctx, faults>>
Asking == proc = "up" /\ op # "none" /\ step <= Uses + 2 /\ ~failed
Granted ==
  /\ Asking
  /\ step' = step + 1 /\ missing' = missing \ {step}
  /\ ctx' = IF step = 1 THEN ctx + 1 ELSE ctx
  /\ UNCHANGED <<proc, op, failed, outcome, calls, faults, plan>>
Denied ==
  /\ Asking /\ faults < MaxFault
  /\ failed' = TRUE /\ faults' = faults + 1 /\ missing' = missing \cup {step}
  /\ plan' = IF Record THEN [plan EXCEPT ![Len(plan)].at = step] ELSE plan
  /\ UNCHANGED <<proc, op, step, ctx, outcome, calls>>
Retry  == proc = "up" /\ failed /\ failed' = FALSE /\ UNCHANGED <<proc, op, step, missing, ctx, outcome, calls, faults, plan>>
Stop   == proc = "up" /\ failed /\ proc' = "stopped" /\ outcome' = "stopped" /\ UNCHANGED <<op, step, missing, failed, ctx, calls, faults, plan>>
Refuse == proc = "up" /\ failed /\ op' = "none" /\ failed' = FALSE /\ ctx' = 0 /\ outcome' = "refused"
          /\ UNCHANGED <<proc, step, missing, calls, faults, plan>>
Ignore == Careless /\ failed /\ failed' = FALSE /\ step' = step + 1 /\ UNCHANGED <<proc, op, missing, ctx, outcome, calls, faults, plan>>
Return == proc = "up" /\ op # "none" /\ step = Uses + 3 /\ ~failed
          /\ op' = "none" /\ ctx' = 0 /\ outcome' = "ok"
          /\ UNCHANGED <<proc, step, missing, failed, calls, faults, plan>>
Next == (\E o \in Ops : Begin(o)) \/ Granted \/ Denied \/ Retry \/ Stop \/ Refuse \/ Ignore \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Granted \/ Retry \/ Stop \/ Refuse \/ Ignore \/ Return)

NothingMissing == Whole(outcome, missing) /\ Excused(IF outcome = "none" THEN "ok" ELSE outcome, faults)
NothingHeld == (op = "none") => ctx = 0
Ends == (op # "none") ~> (op = "none" \/ proc = "stopped")
Emit == (Record /\ (proc = "stopped" \/ (op = "none" /\ calls = MaxCalls))) => PrintT(<<"PLAN", ToJson(plan)>>)
=============================================================================
