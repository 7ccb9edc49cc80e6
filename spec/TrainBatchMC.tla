----------------------------- MODULE TrainBatchMC -----------------------------
EXTENDS TrainBatch, TLC, Json
CONSTANTS N, Steps, MaxLen, Ckpt, Hooks, Faults, Gen
c == [n |-> N, steps |-> Steps, offset |-> 0, maxlen |-> MaxLen, ckpt |-> Ckpt, hooks |-> Hooks,
      eval |-> TRUE, succ |-> 1]
VARIABLES s, script, nobs, epStart, ended
vars == <<s, script, nobs, epStart, ended>>
Init == s = InitState(c) /\ script = << >> /\ nobs = 1 /\ epStart = Rep(c, 0) /\ ended = FALSE

F == IF Faults THEN BOOLEAN ELSE {FALSE}
B == [1..N -> BOOLEAN]
NewObs == [i \in 1..N |-> nobs * 10 + i]
Events ==
    { [op |-> "reset", mask |-> m, obs |-> [i \in 1..N |-> IF m[i] THEN s.obs[i] ELSE NewObs[i]],
       fault |-> f, kind |-> "X"] : f \in F, m \in B }
    \cup { [op |-> "act", obs |-> s.obs, a |-> Rep(c, 7), agent_t |-> 0, fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "step", a |-> s.act, obs |-> NewObs, r |-> Rep(c, 1), done |-> d, need |-> n,
            fault |-> f, kind |-> "X"] : d \in B, n \in B, f \in F }
    \cup { [op |-> "observe", obs |-> s.out.obs, r |-> s.out.r, done |-> s.out.done,
            reset |-> ResetFlags(c, s), fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "hook", i |-> (s.hook % Hooks) + 1, t |-> s.t - N + 1 + (s.hook \div Hooks),
            fault |-> f, kind |-> "X"] : f \in F }
    \cup { [op |-> "eval", t |-> s.t, episodes |-> s.epi, score |-> q, best |-> q, fault |-> FALSE]
             : q \in (IF Gen THEN {-1} ELSE {-1, 0, 1}) }
    \cup { [op |-> "save", t |-> k, suffix |-> x, fault |-> FALSE]
             : x \in {"_checkpoint", "_except", "_finish"}, k \in 0..(Steps + N) }
    \cup { [op |-> "end", kind |-> k, scores |-> s.scores] : k \in {"return", "X"} }
Next ==
    /\ ~ended
    /\ \E ev \in Events :
        /\ Clause(c, s, ev) = ""
        \* a masked reset that resets nothing changes nothing: leave it out
        /\ ev.op = "reset" /\ s.pc = "between" => \E i \in 1..N : s.over[i]
        /\ s' = Step(c, s, ev)
        /\ nobs' = IF ev.op \in {"reset", "step"} THEN nobs + 1 ELSE nobs
        /\ epStart' = IF ev.op = "reset"
                      THEN [i \in 1..N |-> IF ev.mask[i] THEN epStart[i] ELSE s.t \div N] ELSE epStart
        /\ script' = IF Gen /\ ev.op = "step" /\ ~ev.fault THEN Append(script, <<ev.done, ev.need>>) ELSE script
        /\ ended' = (ev.op = "end")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>ended
NoStuck == ended \/ ENABLED Next
NeverStepOver == s.pc = "acted" => \A i \in 1..N : ~s.over[i]
StepCount == (ended /\ s.exc = "" /\ ~s.stop) => s.t >= Steps /\ s.t < Steps + N
SavedAlways == ended => (s.pc = "finished" \/ s.savedExc \/ s.pc = "init")
\* each slot's episode length is its own number of steps since its own reset
OwnLength == s.pc = "acted" => \A i \in 1..N : s.elen[i] = (s.t \div N) - epStart[i]
LengthLimited == MaxLen > 0 => \A i \in 1..N : s.elen[i] <= MaxLen
GenView == <<s, nobs, ended, script>>
GenInv == IF Gen /\ ended THEN PrintT("@@" \o ToJson(script)) ELSE TRUE
=============================================================================
