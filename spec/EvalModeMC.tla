----------------------------- MODULE EvalModeMC -----------------------------
(***************************************************************************)
(* An agent with parameters w, a pending experience, a recurrent state per    *)
(* mode, an observation statistic and a step counter, trained twice: alone    *)
(* and with every placement of evaluation phases (of up to MaxE steps, left    *)
(* by returning or by raising, nested or not) before and after training calls. *)
(* Mut names deliberately broken variants.                                     *)
(***************************************************************************)
EXTENDS EvalMode, TLC, Json
CONSTANTS N, MaxE, MaxP, Gen, Mut
VARIABLES s, bad, ag, pc, left, depth, hist, phases, over
vars == <<s, bad, ag, pc, left, depth, hist, phases, over>>
C == [n |-> N]
M == 97
Fresh == [w |-> 1, pend |-> 0, tr |-> 0, te |-> 0, stat |-> 0, t |-> 0, mode |-> TRUE]
Feed(x, ev) == IF x[1] # "" THEN x ELSE <<Clause(C, x[2], ev), Step(C, x[2], ev)>>
Fp(a) == ToString(a.w) \o "," \o ToString(a.stat)
Obs(i) == (7 * i + 3) % M
Init == /\ s = Step(C, InitState(C), [op |-> "run", k |-> 0]) /\ bad = "" /\ ag = Fresh /\ pc = <<"act", 1>>
        /\ left = 0 /\ depth = 0 /\ hist = <<>> /\ phases = 0 /\ over = FALSE
Out(x) == bad' = x[1] /\ s' = x[2]
\* what a training action depends on
Choice(a, o) == ToString((a.w * o + 5 * a.tr + a.stat + a.t) % M)
Act == /\ pc[1] = "act" /\ pc[2] <= N /\ depth = 0
       /\ LET o == Obs(pc[2]) IN
          /\ Out(Feed(<<"", s>>, [op |-> "act", i |-> pc[2], a |-> Choice(ag, o), mode |-> ag.mode]))
          /\ ag' = [ag EXCEPT !.pend = o, !.tr = (3 * @ + o) % M, !.stat = (@ + o) % M]
       /\ pc' = <<"observe", pc[2]>>
       /\ UNCHANGED <<left, depth, phases, over, hist>>
Observe == /\ pc[1] = "observe" /\ depth = 0
       /\ LET a1 == [ag EXCEPT !.t = @ + 1, !.w = (@ * 5 + ag.pend + ag.t) % M,
                                !.tr = IF pc[2] % 2 = 0 THEN 0 ELSE @, !.pend = 0] IN
          /\ Out(Feed(<<"", s>>, [op |-> "observed", i |-> pc[2], p |-> Fp(a1), mode |-> ag.mode]))
          /\ ag' = a1
       /\ pc' = <<"act", pc[2] + 1>>
       /\ UNCHANGED <<left, depth, phases, over, hist>>
Second == /\ s.run = 0 /\ pc = <<"act", N + 1>>
          /\ Out(Feed(<<"", s>>, [op |-> "run", k |-> 1])) /\ ag' = Fresh /\ pc' = <<"act", 1>>
          /\ UNCHANGED <<left, depth, phases, over, hist>>
EvalIn == /\ s.run = 1 /\ phases < MaxP /\ depth < 2
          /\ Out(Feed(<<"", s>>, [op |-> "evalin", mode |-> ag.mode, p |-> Fp(ag)]))
          /\ ag' = [ag EXCEPT !.mode = FALSE] /\ depth' = depth + 1 /\ phases' = phases + 1
          /\ left' = MaxE
          /\ hist' = Append(hist, [at |-> pc, k |-> "in"])
          /\ UNCHANGED <<pc, over>>
EvalStep == /\ depth > 0 /\ left > 0 /\ left' = left - 1
            /\ LET o == (11 * left + 2) % M IN
               /\ Out(Feed(<<"", s>>, [op |-> "within", mode |-> ag.mode]))
               /\ ag' = CASE Mut = "stat" -> [ag EXCEPT !.te = (@ + o) % M, !.stat = (@ + o) % M]
                          [] Mut = "recurrent" -> [ag EXCEPT !.tr = (@ + o) % M]
                          [] Mut = "counter" -> [ag EXCEPT !.t = @ + 1]
                          [] Mut = "pending" -> [ag EXCEPT !.pend = o]
                          [] OTHER -> [ag EXCEPT !.te = (@ + o) % M]
            /\ hist' = Append(hist, [at |-> pc, k |-> "step"])
            /\ UNCHANGED <<pc, depth, phases, over>>
EvalOut == /\ depth > 0
           /\ \E raises \in BOOLEAN :
              LET prev == s.modes[Len(s.modes)]
                  back == IF Mut = "noreset" /\ raises THEN FALSE ELSE IF Mut = "always" THEN TRUE ELSE prev
              IN /\ ag' = [ag EXCEPT !.mode = back]
                 /\ Out(Feed(<<"", s>>, [op |-> "evalout", mode |-> back, p |-> Fp(ag)]))
                 /\ hist' = Append(hist, [at |-> pc, k |-> IF raises THEN "raise" ELSE "out"])
           /\ depth' = depth - 1 /\ left' = IF depth' = 0 THEN 0 ELSE left
           /\ UNCHANGED <<pc, phases, over>>
Done == /\ s.run = 1 /\ pc = <<"act", N + 1>> /\ depth = 0 /\ ~over /\ over' = TRUE
        /\ Out(Feed(<<"", s>>, [op |-> "stop"]))
        /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ UNCHANGED <<ag, pc, left, depth, hist, phases>>
Next == bad = "" /\ ~over /\ (Act \/ Observe \/ Second \/ EvalIn \/ EvalStep \/ EvalOut \/ Done)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
TrainingMode == depth = 0 => ag.mode
=============================================================================
