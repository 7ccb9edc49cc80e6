----------------------------- MODULE FrameStack -----------------------------
(***************************************************************************)
(* Frame stacking over n environments (n = 1 also for the single-environment *)
(* wrapper).  c = [n, k]; frames are numbered in order of production.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

InitState(c) == [ep |-> [i \in 1..c.n |-> <<>>],    \* frames of the current episode
                 given |-> <<>>]                    \* observations handed out
\* the last k frames, the first one standing in for missing ones
Window(k, ep) == [j \in 1..k |-> LET p == Len(ep) - k + j IN ep[IF p < 1 THEN 1 ELSE p]]
Stacks(c, ep) == [i \in 1..c.n |-> Window(c.k, ep[i])]

NewEp(c, s, ev) ==
    IF ev.op = "reset"
    THEN [i \in 1..c.n |-> IF ev.mask[i] THEN s.ep[i] ELSE <<ev.raw[i]>>]
    ELSE [i \in 1..c.n |-> Append(s.ep[i], ev.raw[i])]

Clause(c, s, ev) ==
  CASE ev.op \in {"reset", "step"} ->
        IF ev.obs # Stacks(c, NewEp(c, s, ev)) THEN "wrong-frames"
        ELSE IF ev.op = "step" /\ ~ev.rest THEN "outcome-changed" ELSE ""
    [] ev.op = "reread" -> IF ev.obs # s.given[ev.k] THEN "old-observation-changed" ELSE ""
    [] ev.op = "space" -> IF ev.ok THEN "" ELSE "wrong-observation-space"
    [] OTHER -> "unknown-event"
Step(c, s, ev) ==
  CASE ev.op \in {"reset", "step"} -> [s EXCEPT !.ep = NewEp(c, s, ev), !.given = Append(@, ev.obs)]
    [] OTHER -> s
=============================================================================
