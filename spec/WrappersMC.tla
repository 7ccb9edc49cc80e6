----------------------------- MODULE WrappersMC -----------------------------
(***************************************************************************)
(* Every wrapper over a base environment with arbitrary outcomes: the calls  *)
(* permitted by May never step an ended episode, every call can return, and  *)
(* resets return running episodes.                                          *)
(***************************************************************************)
EXTENDS Wrappers, TLC, Json, FiniteSets
CONSTANTS Kinds, P, MaxBase, Gen
VARIABLES kind, s, script, nb, uo, bad
Q == IF kind \in {"noop"} THEN 0 ELSE 2
C == [kind |-> kind, p |-> P, q |-> Q]
vars == <<kind, s, script, nb, uo, bad>>
Outs == { [r |-> r, done |-> d, need |-> n, lives |-> l] :
            r \in {1}, d \in BOOLEAN, n \in BOOLEAN, l \in {0, 1, 2} }
Init == kind \in Kinds /\ s = InitState([kind |-> kind]) /\ script = <<>> /\ nb = 0
        /\ uo = "end" /\ bad = ""   \* uo: what the user must/may do
Apply(ev) == bad' = Clause(C, s, ev) /\ s' = [Step(C, s, ev) EXCEPT !.eps = <<>>, !.cur = [len |-> 0, r |-> 0]]
User ==
    /\ s.call.what = "none" /\ bad = "" /\ nb < MaxBase
    /\ \/ Apply([op |-> "call", what |-> "reset", a |-> 0]) /\ uo' = "reset"
       \/ uo = "run" /\ Apply([op |-> "call", what |-> "step", a |-> 1]) /\ uo' = "step"
    /\ UNCHANGED <<kind, script, nb>>
Base ==
    /\ bad = "" /\ nb < MaxBase
    /\ \E m \in May(C, s) :
       \/ /\ m.t = "breset" /\ Apply([op |-> "breset", a |-> 0, obs |-> nb + 1, lives |-> 2])
          /\ UNCHANGED script
       \/ /\ m.t = "bstep"
          /\ \E o \in Outs :
               /\ Apply([op |-> "bstep", a |-> m.a, obs |-> nb + 1, r |-> o.r, done |-> o.done,
                         need |-> o.need, lives |-> o.lives])
               /\ script' = IF Gen THEN Append(script, o) ELSE script
    /\ nb' = nb + 1
    /\ (Gen /\ nb' = MaxBase => PrintT("@@" \o ToJson([kind |-> kind, script |-> script'])))
    /\ UNCHANGED <<kind, uo>>
Ret ==
    /\ bad = "" /\ Return \in May(C, s)
    /\ LET r == IF s.call.what = "step" THEN Reward(C, s) ELSE 0
           d == s.call.what = "step" /\ Done(C, s)
           n == s.call.what = "step" /\ Need(C, s)
       IN /\ Apply([op |-> "ret", obs |-> IF Obs(C, s) = {} THEN 0 ELSE CHOOSE x \in Obs(C, s) : TRUE,
                    r |-> r, done |-> d, need |-> n])
          /\ uo' = IF d \/ n THEN "end" ELSE "run"
    /\ UNCHANGED <<kind, script, nb>>
Next == User \/ Base \/ Ret
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
NoStepAfterEnd == \A m \in May(C, s) : m.t = "bstep" => ~s.over \/ Gen
NeverStuck == s.call.what # "none" => May(C, s) # {}
\* the user may step exactly while the base episode runs
UserSound == (s.call.what = "none" /\ uo = "run") => ~s.over
View == IF Gen THEN vars ELSE <<kind, s, nb, uo, bad>>
=============================================================================
