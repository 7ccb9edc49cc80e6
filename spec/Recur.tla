-------------------------------- MODULE Recur --------------------------------
(***************************************************************************)
(* Whose recurrent state is used.  The recurrent module under the agent has  *)
(* the previous observation as its state (0: fresh); every observation is     *)
(* unique, so its rightful state is the observation before it in its episode. *)
(* c = [N  number of observations, freshok  replay may start afresh]           *)
(* Events: act [m, obs], acted, observe [m, nobs, ended], observed,            *)
(* fwd [p: pairs [id, h]] every forward computation of any network,            *)
(* sample [heads] sequences drawn for replay, with their first observations,   *)
(* stored [id, h, nid, nh] a transition handed over with its states.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitState(c) == [pred |-> [i \in 1..c.N |-> -1], phase |-> "idle", obs |-> <<>>, seen |-> {}, heads |-> {}]

Range(q) == { q[i] : i \in 1..Len(q) }
BadPair(c, s, x) ==
    \/ x.id \notin 1..c.N \/ s.pred[x.id] = -1
    \/ /\ x.h # s.pred[x.id]
       /\ ~(c.freshok /\ s.phase = "observing" /\ x.h = 0 /\ x.id \in s.heads)

Clause(c, s, ev) ==
  CASE ev.op = "act" -> IF s.phase # "idle" THEN "unexpected-act" ELSE ""
    [] ev.op = "acted" ->
        IF s.phase # "acting" THEN "unexpected-acted"
        ELSE IF ~(Range(s.obs) \subseteq s.seen) THEN "observation-not-processed" ELSE ""
    [] ev.op = "observe" -> IF s.phase # "acted" THEN "unexpected-observe" ELSE ""
    [] ev.op = "observed" -> IF s.phase # "observing" THEN "unexpected-observed" ELSE ""
    [] ev.op = "fwd" ->
        IF \E i \in 1..Len(ev.p) : BadPair(c, s, ev.p[i]) THEN
            (IF s.phase = "acting" THEN "acting-with-a-foreign-state" ELSE "training-with-a-foreign-state")
        ELSE ""
    [] ev.op = "stored" ->
        IF BadPair(c, s, [id |-> ev.id, h |-> ev.h]) \/ BadPair(c, s, [id |-> ev.nid, h |-> ev.nh])
        THEN "foreign-state-stored" ELSE ""
    [] ev.op = "sample" -> ""
    [] OTHER -> "unknown-event"

Step(c, s, ev) ==
  CASE ev.op = "act" -> [s EXCEPT !.phase = "acting", !.obs = ev.obs, !.seen = {},
                            !.pred = [i \in 1..c.N |-> IF @[i] = -1 /\ i \in Range(ev.obs) THEN 0 ELSE @[i]]]
    [] ev.op = "acted" -> [s EXCEPT !.phase = "acted"]
    [] ev.op = "observe" -> [s EXCEPT !.phase = "observing",
                            !.pred = [i \in 1..c.N |->
                                IF \E e \in 1..Len(ev.nobs) : ev.nobs[e] = i
                                THEN s.obs[CHOOSE e \in 1..Len(ev.nobs) : ev.nobs[e] = i] ELSE @[i]]]
    [] ev.op = "observed" -> [s EXCEPT !.phase = "idle", !.heads = {}]
    [] ev.op = "sample" -> [s EXCEPT !.heads = Range(ev.heads)]
    [] ev.op = "fwd" -> [s EXCEPT !.seen = @ \cup { ev.p[i].id : i \in 1..Len(ev.p) }]
    [] OTHER -> s
=============================================================================
