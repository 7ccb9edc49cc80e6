----------------------------- MODULE ExploreMC -----------------------------
(***************************************************************************)
(* Every schedule with end points from Ends and lengths from Lens, followed    *)
(* step by step: values stay between the end points, never turn back and reach  *)
(* the second one.  An implementation (Impl, with broken variants Mut) is held    *)
(* against the rules.                                                             *)
(***************************************************************************)
EXTENDS Explore, TLC, Json
CONSTANTS Ends, Lens, T, Gen, Mut
VARIABLES c, t, bad, prev
vars == <<c, t, bad, prev>>
Cfgs == [kind : {"linear"}, start : Ends, stop : Ends, steps : Lens, dn : {1}, dd : {1}]
        \cup { x \in [kind : {"exp"}, start : Ends, stop : Ends, steps : {0}, dn : {1, 2, 9}, dd : {2, 3, 10}] :
                x.dn < x.dd /\ x.stop <= x.start }
        \cup [kind : {"constant"}, start : Ends, stop : Ends, steps : {0}, dn : {1}, dd : {1}]
Consistent == c.kind = "constant" => c.stop = c.start
Impl(k) ==
    CASE c.kind = "constant" -> c.start
      [] c.kind = "linear" -> IF k >= (IF Mut = "late" THEN c.steps + 2 ELSE c.steps) THEN c.stop
                              ELSE IF c.steps = 0 THEN c.start
                              ELSE LET n == IF Mut = "off" THEN k + 1 ELSE k IN
                                   c.start + (IF c.stop >= c.start THEN Part(c.stop - c.start, n, c.steps) ELSE 0 - Part(c.start - c.stop, n, c.steps))
      [] OTHER -> IF Mut = "nofloor" THEN Decayed(c, c.start, k) ELSE Max2(c.stop, Decayed(c, c.start, k))
Init == /\ c \in Cfgs /\ Consistent /\ t = 0 /\ prev = c.start /\ bad = ""
        /\ (Gen => PrintT("@@" \o ToJson(c)))
Next == /\ t < T /\ bad = "" /\ t' = t + 1 /\ UNCHANGED c
        /\ prev' = Impl(t)
        /\ bad' = Clause(c, InitState(c), [op |-> "eps", t |-> t, e |-> Impl(t)])
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Bounded == t > 0 => Min2(c.start, c.stop) <= Eps(c, t) /\ Eps(c, t) <= Max2(c.start, c.stop)
Monotone == t > 0 => IF c.stop >= c.start THEN Eps(c, t) >= prev ELSE Eps(c, t) <= prev
Arrives == c.kind = "linear" /\ t >= c.steps => Eps(c, t) = c.stop
=============================================================================
