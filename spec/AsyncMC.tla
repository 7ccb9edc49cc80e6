------------------------------ MODULE AsyncMC ------------------------------
(***************************************************************************)
(* The algorithm: workers sharing a step counter, an evaluation mark, a best*)
(* score and a stop flag, at the granularity of single reads and writes of  *)
(* shared memory.  What it does is fed to the rules of Async as events; the *)
(* rules must hold in every interleaving.  Locked = FALSE removes the locks *)
(* (the rules must then be violated: the check expects that).               *)
(***************************************************************************)
EXTENDS Async, TLC, Json
CONSTANTS N, Steps, Interval, Succ, Locked, Faults, Gen, ExtStop
c == [w |-> N, steps |-> Steps, offset |-> 0, maxlen |-> 0, hooks |-> 1, interval |-> Interval,
      succ |-> Succ]
VARIABLES s, err, counter, prev, best, stop, lk, pc, loc, sched
vars == <<s, err, counter, prev, best, stop, lk, pc, loc, sched>>
Ws == 1..N
Init ==
    /\ s = InitState(c) /\ err = "" /\ counter = 0 /\ prev = 0 /\ best = -1 /\ stop = FALSE
    /\ lk = [x \in {"c", "p", "m"} |-> 0]
    /\ pc = [i \in Ws |-> "start"]
    /\ loc = [i \in Ws |-> [t |-> 0, tmp |-> 0, mean |-> -1, due |-> FALSE, ok |-> FALSE]]
    /\ sched = << >>

RECURSIVE Feed(_, _, _)
Feed(st, e, evs) ==
    IF evs = << >> \/ e # "" THEN <<st, e>>
    ELSE LET v == Clause(c, st, evs[1]) IN Feed(IF v = "" THEN Step(c, st, evs[1]) ELSE st, v, Tail(evs))
Emit(evs) == LET r == Feed(s, err, evs) IN s' = r[1] /\ err' = r[2]
Silent == UNCHANGED <<s, err>>
E(i, op) == [op |-> op, w |-> i, obs |-> 0, a |-> 0, r |-> 0, done |-> FALSE, need |-> FALSE,
             reset |-> FALSE, fault |-> FALSE]
Goto(i, x) == pc' = [pc EXCEPT ![i] = x]
Acquire(i, x) == Locked => lk[x] = 0
Lock(i, x) == lk' = IF Locked THEN [lk EXCEPT ![x] = i] ELSE lk
Unlock(x) == lk' = IF Locked THEN [lk EXCEPT ![x] = 0] ELSE lk

Do(i) ==
  \/ /\ pc[i] = "start" /\ Emit(<<E(i, "reset")>>) /\ Goto(i, "play")
     /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
  \/ /\ pc[i] = "play"
     /\ \E d \in BOOLEAN, f \in (IF Faults THEN BOOLEAN ELSE {FALSE}) :
        /\ Emit(IF f THEN <<E(i, "act"), [E(i, "step") EXCEPT !.fault = TRUE]>>
                ELSE <<E(i, "act"), [E(i, "step") EXCEPT !.done = d], [E(i, "observe") EXCEPT !.done = d]>>)
        /\ Goto(i, IF f THEN "fail" ELSE "inc")
        /\ loc' = [loc EXCEPT ![i].due = d]
     /\ UNCHANGED <<counter, prev, best, stop, lk>>
  \/ /\ pc[i] = "inc" /\ Acquire(i, "c") /\ Lock(i, "c") /\ Silent
     /\ loc' = [loc EXCEPT ![i].tmp = counter] /\ Goto(i, "inc2")
     /\ UNCHANGED <<counter, prev, best, stop>>
  \/ /\ pc[i] = "inc2" /\ Unlock("c") /\ Silent
     /\ counter' = loc[i].tmp + 1 /\ loc' = [loc EXCEPT ![i].t = loc[i].tmp + 1]
     /\ Goto(i, "hook") /\ UNCHANGED <<prev, best, stop>>
  \/ /\ pc[i] = "hook"
     /\ Emit(<<[op |-> "hook", w |-> i, i |-> 1, t |-> loc[i].t, fault |-> FALSE]>>)
     /\ Goto(i, IF loc[i].due \/ loc[i].t >= Steps \/ stop THEN "claim" ELSE "play")
     /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
  \/ /\ pc[i] = "claim" /\ Acquire(i, "p") /\ Lock(i, "p") /\ Silent
     /\ loc' = [loc EXCEPT ![i].tmp = prev] /\ Goto(i, "claim2")
     /\ UNCHANGED <<counter, prev, best, stop>>
  \/ /\ pc[i] = "claim2" /\ Unlock("p") /\ Silent
     /\ LET due == loc[i].t >= loc[i].tmp + Interval IN
        /\ prev' = IF due THEN loc[i].tmp + Interval ELSE prev
        /\ Goto(i, IF due THEN "eval" ELSE "next")
     /\ UNCHANGED <<counter, best, stop, loc>>
  \/ /\ pc[i] = "eval" /\ Emit(<<[op |-> "evalstart", w |-> i]>>) /\ Goto(i, "eval2")
     /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
  \/ /\ pc[i] = "eval2"
     /\ \E m \in 0..2 : /\ Emit(<<[op |-> "evald", w |-> i, t |-> loc[i].t, mean |-> m]>>)
                        /\ loc' = [loc EXCEPT ![i].mean = m]
     /\ Goto(i, "max") /\ UNCHANGED <<counter, prev, best, stop, lk>>
  \/ /\ pc[i] = "max" /\ Acquire(i, "m") /\ Lock(i, "m") /\ Silent
     /\ loc' = [loc EXCEPT ![i].tmp = best] /\ Goto(i, "max2")
     /\ UNCHANGED <<counter, prev, best, stop>>
  \/ /\ pc[i] = "max2" /\ Unlock("m")
     /\ LET better == loc[i].mean > loc[i].tmp IN
        /\ best' = IF better THEN loc[i].mean ELSE best
        /\ Emit(IF better THEN <<[op |-> "save", w |-> i, t |-> 0, suffix |-> "best"]>> ELSE << >>)
     /\ Goto(i, IF Succ >= 0 /\ loc[i].mean >= Succ THEN "succeed" ELSE "next")
     /\ UNCHANGED <<counter, prev, stop, loc>>
  \/ /\ pc[i] = "succeed" /\ stop' = TRUE /\ Silent /\ loc' = [loc EXCEPT ![i].ok = TRUE]
     /\ Goto(i, "fin") /\ UNCHANGED <<counter, prev, best, lk>>
  \/ /\ pc[i] = "next"
     /\ IF loc[i].t >= Steps \/ stop THEN Goto(i, "fin") /\ Silent
        ELSE Goto(i, "play") /\ Emit(<<E(i, "reset")>>)
     /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
  \/ /\ pc[i] = "fin"
     /\ Emit((IF loc[i].t = Steps THEN <<[op |-> "save", w |-> i, t |-> Steps, suffix |-> "_finish"]>> ELSE << >>)
             \o (IF loc[i].ok THEN <<[op |-> "save", w |-> i, t |-> 0, suffix |-> "successful"]>> ELSE << >>)
             \o <<[op |-> "exit", w |-> i, code |-> 0]>>)
     /\ Goto(i, "done") /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
  \/ /\ pc[i] = "fail"
     /\ Emit((IF i = 1 THEN <<[op |-> "save", w |-> i, t |-> loc[i].t, suffix |-> "_except"]>> ELSE << >>)
             \o <<[op |-> "exit", w |-> i, code |-> 1]>>)
     /\ Goto(i, "done") /\ UNCHANGED <<counter, prev, best, stop, lk, loc>>
Work == \E i \in Ws : Do(i) /\ sched' = IF Gen THEN Append(sched, i) ELSE sched
Stopper == /\ ExtStop /\ ~stop /\ Emit(<<[op |-> "stopreq"], [op |-> "stopset"]>>) /\ stop' = TRUE
           /\ UNCHANGED <<counter, prev, best, lk, pc, loc, sched>>
AllDone == \A i \in Ws : pc[i] = "done"
End == /\ AllDone /\ err = ""
       /\ ~(\E i \in Ws : pc[i] = "closed")
       /\ Emit(<<[op |-> "final", deadlock |-> FALSE, max |-> best,
                  warn |-> Cardinality({ i \in Ws : s.w[i].code # 0 })]>>)
       /\ pc' = [i \in Ws |-> "closed"] /\ UNCHANGED <<counter, prev, best, stop, lk, loc, sched>>
Next == Work \/ Stopper \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Work \/ End)
Correct == err = ""
Finishes == <>(\A i \in Ws : pc[i] = "closed")
MCView == <<s, err, counter, prev, best, stop, lk, pc, loc>>
GenInv == IF Gen /\ AllDone THEN PrintT("@@" \o ToJson(sched)) ELSE TRUE
=============================================================================
