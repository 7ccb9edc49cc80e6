----------------------------- MODULE TrainLoopMC -----------------------------
(* The loop against every environment: all (done, needs_reset) histories and a
   failure at any call. *)
EXTENDS TrainLoop, TLC, Json
CONSTANTS Steps, MaxLen, Ckpt, Hooks, Faults, Gen, EvalDuring
c == [steps |-> Steps, offset |-> 0, maxlen |-> MaxLen, ckpt |-> Ckpt, hooks |-> Hooks,
      eval |-> TRUE, evalDuring |-> EvalDuring, succ |-> 1]
VARIABLES s, script, nobs, log, ended
vars == <<s, script, nobs, log, ended>>
Init == s = InitState(c) /\ script = << >> /\ nobs = 1 /\ log = [act |-> 0, observe |-> 0] /\ ended = FALSE

F == IF Faults THEN BOOLEAN ELSE {FALSE}
Events ==
    { [op |-> "reset", obs |-> nobs, fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "act", obs |-> s.obs, a |-> 7, agent_t |-> 0, fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "step", a |-> 7, obs |-> nobs, r |-> 1, done |-> d, need |-> n, fault |-> f, kind |-> "X"]
             : d \in BOOLEAN, n \in BOOLEAN, f \in F }
    \cup { [op |-> "observe", obs |-> s.out.obs, r |-> s.out.r, done |-> s.out.done,
            reset |-> ResetFlag(c, s), fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "hook", i |-> s.hook + 1, t |-> s.t, fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "eval", t |-> s.t, episodes |-> s.epi, score |-> q, best |-> q, fault |-> FALSE]
             : q \in (IF Gen THEN {-1} ELSE {-1, 0, 1}) }
    \cup { [op |-> "save", t |-> s.t, suffix |-> x, fault |-> FALSE]
             : x \in {"_checkpoint", "_except", "_finish"} }
    \cup { [op |-> "end", kind |-> k, scores |-> s.scores] : k \in {"return", "X"} }
Next ==
    /\ ~ended
    /\ \E ev \in Events :
        /\ Clause(c, s, ev) = ""
        /\ ev.op = "hook" => s.hook < c.hooks
        /\ s' = Step(c, s, ev)
        /\ nobs' = IF ev.op \in {"reset", "step"} THEN nobs + 1 ELSE nobs
        /\ script' = IF Gen /\ ev.op = "step" /\ ~ev.fault THEN Append(script, <<ev.done, ev.need>>) ELSE script
        /\ log' = IF ev.op \in {"act", "observe"} THEN [log EXCEPT ![ev.op] = @ + 1] ELSE log
        /\ ended' = (ev.op = "end")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* with or without failures the loop never gets stuck and always ends
Terminates == <>ended
NoStuck == ended \/ ENABLED Next
\* never stepped after an end without a reset in between
StepsWithinEpisodes == s.pc = "acted" => ~s.over
ExactSteps == (ended /\ s.exc = "" /\ ~s.stop) => s.t = c.steps
AllObserved == ended /\ s.exc = "" => log["act"] = s.t /\ log["observe"] = s.t
SavedAlways == ended => (s.pc = "finished" \/ s.savedExc \/ s.pc = "init")
CheckpointsExact ==
    ended /\ s.exc = "" /\ c.ckpt > 0 =>
      \A k \in 1..(s.t - 1) : (k % c.ckpt = 0) <=> (\E i \in 1..Len(s.ckpts) : s.ckpts[i] = k)
GenView == <<s, nobs, ended, script>>
GenInv == IF Gen /\ ended THEN PrintT("@@" \o ToJson(script)) ELSE TRUE
=============================================================================
