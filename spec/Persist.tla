------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* Saving and loading an agent.  A reference agent is trained without being    *)
(* saved ("ref"); its twin ("A") is trained alike and saved now and then; other  *)
(* agents (built differently, fresh "B" or used "C") load the last save and go    *)
(* on from there with the same inputs as A.  Every call reports a fingerprint of   *)
(* what it returned and of the parameters and optimizer state it left behind.       *)
(* c = [n, e, m   numbers of training, evaluation and continued steps,               *)
(*      quiet     nothing was pending when A was saved, so A itself can be compared] *)
(* Events: begin [who]; train [who, i, f]; save [p, q] fingerprints around it;        *)
(* load [who, p]; eval [who, i, f]; cont [who, i, f]; stop.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Whos == {"ref", "A", "B", "C"}
InitState(c) == [train |-> [w \in Whos |-> <<>>], eval |-> [w \in Whos |-> <<>>],
                 cont |-> [w \in Whos |-> <<>>], saved |-> "", loaded |-> {}]
\* whose behaviour this agent has to repeat
Model(c, w) == IF w = "C" THEN (IF c.quiet THEN "A" ELSE "B") ELSE IF w = "B" /\ c.quiet THEN "A" ELSE ""

Clause(c, s, ev) ==
  CASE ev.op = "train" ->
        IF ev.i # Len(s.train[ev.who]) + 1 THEN "unexpected-train"
        ELSE IF ev.who = "A" /\ ev.f # s.train["ref"][ev.i] THEN "saving-changed-training" ELSE ""
    [] ev.op = "save" -> IF ev.p # ev.q THEN "saving-changed-the-parameters" ELSE ""
    [] ev.op = "load" ->
        IF s.saved = "" THEN "unexpected-load"
        ELSE IF ev.p # s.saved THEN "loaded-parameters-differ" ELSE ""
    [] ev.op = "eval" ->
        IF ev.i # Len(s.eval[ev.who]) + 1 \/ (ev.who # "A" /\ ev.who \notin s.loaded) THEN "unexpected-eval"
        ELSE IF ev.who # "A" /\ ev.f # s.eval["A"][ev.i] THEN "loaded-agent-acts-differently" ELSE ""
    [] ev.op = "cont" ->
        IF ev.i # Len(s.cont[ev.who]) + 1 \/ (ev.who # "A" /\ ev.who \notin s.loaded) THEN "unexpected-cont"
        ELSE IF Model(c, ev.who) # "" /\ ev.f # s.cont[Model(c, ev.who)][ev.i] THEN "loaded-agent-learns-differently" ELSE ""
    [] ev.op = "stop" ->
        IF \E w \in s.loaded : Len(s.eval[w]) # c.e \/ Len(s.cont[w]) # c.m THEN "ended-early"
        ELSE IF s.loaded # {"B", "C"} \/ Len(s.train["A"]) # c.n THEN "ended-early" ELSE ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  CASE ev.op = "train" -> [s EXCEPT !.train[ev.who] = Append(@, ev.f)]
    [] ev.op = "save" -> [s EXCEPT !.saved = ev.p]
    [] ev.op = "load" -> [s EXCEPT !.loaded = @ \cup {ev.who}]
    [] ev.op = "eval" -> [s EXCEPT !.eval[ev.who] = Append(@, ev.f)]
    [] ev.op = "cont" -> [s EXCEPT !.cont[ev.who] = Append(@, ev.f)]
    [] OTHER -> s
=============================================================================
