----------------------------- MODULE FrameStackMC -----------------------------
(***************************************************************************)
(* The window implementation: a bounded deque per environment, filled with   *)
(* the first frame at a reset.  Refill FALSE is the broken variant which     *)
(* appends the first frame only once.                                        *)
(***************************************************************************)
EXTENDS FrameStack, TLC, Json
CONSTANTS N, K, Calls, Gen, Refill
VARIABLES s, dq, hist, id, bad
C == [n |-> N, k |-> K]
E == 1..N
RECURSIVE Push(_, _, _)
Push(q, x, t) == IF t = 0 THEN q
    ELSE LET q1 == Append(q, x) IN Push(IF Len(q1) > K THEN Tail(q1) ELSE q1, x, t - 1)
Init == s = InitState(C) /\ dq = [i \in E |-> <<>>] /\ hist = <<>> /\ id = 0 /\ bad = ""
Do(ev0, h) ==
    LET d1 == [i \in E |-> IF ev0.op = "step" THEN Push(dq[i], ev0.raw[i], 1)
                           ELSE IF ev0.mask[i] THEN dq[i]
                           ELSE Push(dq[i], ev0.raw[i], IF Refill \/ dq[i] = <<>> THEN K ELSE 1)]
        ev == [op |-> ev0.op, mask |-> ev0.mask, raw |-> ev0.raw, obs |-> d1, rest |-> TRUE]
    IN /\ bad' = Clause(C, s, ev)
       /\ s' = [Step(C, s, ev) EXCEPT !.given = <<>>]
       /\ dq' = d1 /\ hist' = Append(hist, h) /\ id' = id + N
       /\ (Gen /\ Len(hist') = Calls => PrintT("@@" \o ToJson(hist')))
Next ==
    /\ Len(hist) < Calls /\ bad = ""
    /\ \/ \E m \in [E -> BOOLEAN] :
            /\ (hist = <<>> => \A i \in E : ~m[i])
            /\ Do([op |-> "reset", mask |-> m, raw |-> [i \in E |-> id + i]], m)
       \/ hist # <<>> /\ Do([op |-> "step", mask |-> [i \in E |-> FALSE], raw |-> [i \in E |-> id + i]], <<>>)
Spec == Init /\ [][Next]_<<s, dq, hist, id, bad>>
View == IF Gen THEN <<s, dq, hist>> ELSE <<s, dq, Len(hist), bad>>
Conforms == bad = ""
=============================================================================
