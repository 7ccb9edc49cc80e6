------------------------------ MODULE OnPolicyMC ------------------------------
(***************************************************************************)
(* A learner which keeps one flat log and sums discounted rewards forward,   *)
(* over every history of ends; Mut names deliberately broken variants.        *)
(***************************************************************************)
EXTENDS OnPolicy, TLC, Json
CONSTANTS Algo, NEnv, T, MaxT, Gen, Mut
VARIABLES log, obs, t, s, bad, nextid, hist, over
vars == <<log, obs, t, s, bad, nextid, hist, over>>
Envs == 1..NEnv
NID == NEnv * (2 * MaxT + 2)
Half == Algo # "reinforce"
C == [algo |-> Algo, n |-> NEnv, T |-> T, V |-> [i \in 1..NID |-> (((i * 5) % 7) - 3) * S],
      gn |-> 1, gd |-> (IF Half THEN 2 ELSE 1), gae |-> FALSE, ln |-> 1, ld |-> 1, pn |-> 1, pd |-> 1, vn |-> 1, vd |-> 1,
      ent |-> S \div 4, keep |-> FALSE, bymax |-> FALSE]
RewOf(k) == ((k % 3) - 1) * S
Feed(st, ev) == <<Clause(C, st, ev), Step(C, st, ev)>>
\* --- the learner: log of [env, id, a, r, nid, done, end] --------------------------
Last(i) == \* last transition of the segment of i
    CHOOSE j \in i..Len(log) : /\ log[j].env = log[i].env
        /\ (log[j].end \/ \A k \in (j + 1)..Len(log) : log[k].env # log[i].env)
        /\ \A k \in i..(j - 1) : log[k].env = log[i].env => ~log[k].end
From(i) == IF Mut = "before" /\ i > 1 /\ log[i - 1].env = log[i].env THEN i - 1 ELSE i
RECURSIVE Fwd(_, _, _, _)
Fwd(i, j, last, w) ==
    IF j > last
    THEN (IF log[last].end /\ (log[last].done \/ Algo # "a3c") /\ Mut # "noterm" THEN 0
          ELSE IF Algo = "reinforce" THEN 0 ELSE C.V[log[last].nid] \div w)
    ELSE IF log[j].env # log[i].env /\ Mut # "envs" THEN Fwd(i, j + 1, last, w)
    ELSE log[j].r \div w + Fwd(i, j + 1, last, IF Half THEN w * 2 ELSE 1)
Return(i) == Fwd(i, From(i), Last(i), 1)
Wt(i) == Return(i) - (IF Half THEN C.V[log[i].id] ELSE 0)
Item(i) == [id |-> log[i].id, gl |-> [b \in 1..2 |-> IF b = log[i].a + 1 THEN 0 - Wt(i) ELSE 0],
            gv |-> (IF Half THEN 0 - (IF Algo = "a2c" THEN 2 ELSE 1) * Wt(i) ELSE 0), ge |-> 0 - C.ent]
Lim == IF Mut = "early" THEN T - 1 ELSE T
Dones == Cardinality({ i \in 1..Len(log) : log[i].done })
Ready == CASE Algo = "a2c" -> Len(log) = NEnv * Lim
           [] Algo = "a3c" -> Len(log) = Lim \/ log[Len(log)].end
           [] OTHER -> Dones = Lim
\* ---------------------------------------------------------------------------------
Ends == {"no", "done", "reset"}
Init == /\ log = <<>> /\ obs = [e \in Envs |-> e] /\ t = 0 /\ s = InitState(C) /\ bad = ""
        /\ nextid = NEnv + 1 /\ hist = <<>> /\ over = FALSE
Turn ==
    /\ s.pc = "idle" /\ t < MaxT /\ bad = "" /\ t' = t + 1
    /\ \E ends \in [Envs -> Ends] :
        LET act == [op |-> "act", obs |-> obs, a |-> [e \in Envs |-> (t + e) % 2]]
            nobs == [e \in Envs |-> nextid + e - 1]
            ob == [op |-> "observe", nobs |-> nobs, r |-> [e \in Envs |-> RewOf(t + 2 * e)],
                   done |-> [e \in Envs |-> ends[e] = "done"], reset |-> [e \in Envs |-> ends[e] = "reset"]]
            f1 == Feed(s, act)
            f2 == Feed(f1[2], ob)
            new == [e \in Envs |-> [env |-> e, id |-> obs[e], a |-> act.a[e], r |-> ob.r[e], nid |-> nobs[e],
                                    done |-> ob.done[e], end |-> ends[e] # "no"]]
            all == log \o new
            \* REINFORCE drops an interrupted episode
            open == { i \in 1..Len(all) : \A k \in i..(Len(all) - 1) : ~all[k].end }
        IN  /\ s' = f2[2] /\ bad' = (IF f1[1] # "" THEN f1[1] ELSE f2[1])
            /\ log' = (IF Algo = "reinforce" /\ ends[1] = "reset" /\ Mut # "nodrop"
                       THEN SubSeq(all, 1, Len(all) - Cardinality(open)) ELSE all)
            /\ nextid' = nextid + 2 * NEnv
            /\ obs' = [e \in Envs |-> IF ends[e] = "no" THEN nobs[e] ELSE nextid + NEnv + e - 1]
            /\ hist' = Append(hist, ends)
    /\ UNCHANGED over
Learn ==
    /\ s.pc = "observed" /\ bad = ""
    /\ LET go == log # <<>> /\ Ready
           f1 == IF go THEN Feed(s, [op |-> "step", items |-> [i \in 1..Len(log) |-> Item(i)], dv |-> 0]) ELSE <<"", s>>
           f2 == Feed(f1[2], [op |-> "end"])
       IN  /\ bad' = (IF f1[1] # "" THEN f1[1] ELSE f2[1]) /\ s' = f2[2]
           /\ log' = (IF go THEN <<>> ELSE log)
    /\ UNCHANGED <<obs, t, nextid, hist, over>>
Done == /\ s.pc = "idle" /\ t = MaxT /\ ~over /\ bad = "" /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ over' = TRUE /\ UNCHANGED <<log, obs, t, s, bad, nextid, hist>>
Next == Turn \/ Learn \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* the rollout never outgrows what was promised
Bounded == s.pc = "idle" => (Algo # "reinforce" => s.len < T) /\ (Algo = "reinforce" => Len(s.eps) < T)
=============================================================================
