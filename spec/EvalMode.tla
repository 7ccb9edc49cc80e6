------------------------------ MODULE EvalMode ------------------------------
(***************************************************************************)
(* Training with and without evaluation in between.  The same training is     *)
(* run twice, first alone, then with evaluation phases inserted; each          *)
(* training call reports a fingerprint of what it returned and of the           *)
(* parameters it left behind.  The second run has to repeat the first one.      *)
(* Events: run [k]; act [i, a], observed [i, p] training step i;                 *)
(* evalin [mode], within [mode], evalout [mode]: the mode before, during and      *)
(* after an evaluation (left by returning or by raising); stop.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

InitState(c) == [run |-> -1, acts |-> <<>>, obs |-> <<>>, pos |-> <<0, 0>>, modes |-> <<>>]

Clause(c, s, ev) ==
  CASE ev.op = "run" -> IF ev.k # s.run + 1 \/ s.modes # <<>> THEN "unexpected-run"
                        ELSE IF ev.k = 1 /\ (Len(s.obs) # c.n \/ Len(s.acts) # c.n) THEN "reference-incomplete" ELSE ""
    [] ev.op = "act" ->
        IF ev.i # s.pos[1] + 1 THEN "unexpected-act"
        ELSE IF s.modes # <<>> THEN "training-call-during-evaluation"
        ELSE IF ~ev.mode THEN "acting-for-training-in-evaluation-mode"
        ELSE IF s.run = 1 /\ ev.a # s.acts[ev.i] THEN "evaluation-changed-a-training-action" ELSE ""
    [] ev.op = "observed" ->
        IF ev.i # s.pos[2] + 1 \/ ev.i # s.pos[1] THEN "unexpected-observed"
        ELSE IF ~ev.mode THEN "observing-for-training-in-evaluation-mode"
        ELSE IF s.run = 1 /\ ev.p # s.obs[ev.i] THEN "evaluation-changed-training" ELSE ""
    [] ev.op = "evalin" -> IF s.run # 1 THEN "unexpected-evaluation" ELSE ""
    [] ev.op = "within" -> IF s.modes = <<>> THEN "unexpected-within"
                           ELSE IF ev.mode THEN "training-mode-within-evaluation" ELSE ""
    [] ev.op = "evalout" -> IF s.modes = <<>> THEN "unexpected-evalout"
                            ELSE IF ev.mode # s.modes[Len(s.modes)] THEN "mode-not-restored"
                            ELSE IF ev.p # s.modes[Len(s.modes)-1] THEN "parameters-changed-by-evaluation" ELSE ""
    [] ev.op = "stop" -> IF s.run # 1 \/ s.pos # <<c.n, c.n>> \/ s.modes # <<>> THEN "ended-early" ELSE ""
    [] OTHER -> "unknown-event"

\* modes: stack of (fingerprint, mode) pairs of the evaluations being inside of
Step(c, s, ev) ==
  CASE ev.op = "run" -> [s EXCEPT !.run = ev.k, !.pos = <<0, 0>>]
    [] ev.op = "act" -> [s EXCEPT !.pos[1] = ev.i, !.acts = IF s.run = 0 THEN Append(@, ev.a) ELSE @]
    [] ev.op = "observed" -> [s EXCEPT !.pos[2] = ev.i, !.obs = IF s.run = 0 THEN Append(@, ev.p) ELSE @]
    [] ev.op = "evalin" -> [s EXCEPT !.modes = @ \o <<ev.p, ev.mode>>]
    [] ev.op = "evalout" -> [s EXCEPT !.modes = SubSeq(@, 1, Len(@) - 2)]
    [] OTHER -> s
=============================================================================
