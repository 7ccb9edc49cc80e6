------------------------------- MODULE GaeMC -------------------------------
(***************************************************************************)
(* An on-policy learner over two environments which keeps one flat log of    *)
(* its transitions and sums discounted errors forward; Mut names             *)
(* deliberately broken variants.                                             *)
(***************************************************************************)
EXTENDS Gae, TLC, Json
CONSTANTS NEnv, UI, MaxT, Mb, Epochs, Rew, Gen, Mut
VARIABLES log, obs, t, s, bad, phase, order, nextid, hist
vars == <<log, obs, t, s, bad, phase, order, nextid, hist>>
NID == NEnv * (2 * MaxT + 2)
C == [algo |-> "ppo", n |-> NEnv, ui |-> UI, mb |-> Mb, epochs |-> Epochs, rec |-> FALSE,
      V |-> [i \in 1..NID |-> (((i * 5) % 7) - 3) * S], gn |-> 1, gd |-> 2, ln |-> 1, ld |-> 2, std |-> FALSE,
      vn |-> 1, vd |-> 1, eps |-> S \div 4, veps |-> 0, norm |-> FALSE, maxkl |-> 0]
Envs == 1..NEnv
Ends == {"no", "done", "reset"}
RewOf(k) == Rew * ((k % 3) - 1) * S
Feed(st, ev) == <<Clause(C, st, ev), Step(C, st, ev)>>
\* --- the learner -------------------------------------------------------------
\* log: sequence of [env, id, a, r, nid, done, end]
Delta(x) == x.r - C.V[x.id] + (IF x.done /\ Mut # "noterm" THEN 0 ELSE C.V[x.nid] \div 2)
Follows(i, j) == j > i /\ (log[j].env = log[i].env \/ Mut = "envs")
    /\ \A k \in i..(j - 1) : (log[k].env = log[i].env \/ Mut = "envs") => (~log[k].end \/ Mut = "cross")
RECURSIVE Fwd(_, _, _)
Fwd(i, j, w) ==      \* sum over the transitions that follow i
    IF j > Len(log) THEN 0
    ELSE IF j = i THEN Delta(log[i]) + Fwd(i, j + 1, 4)
    ELSE IF Follows(i, j) THEN Delta(log[j]) \div w + Fwd(i, j + 1, w * 4)
    ELSE Fwd(i, j + 1, w)
Adv(i) == Fwd(i, i, 1)
Item(i) == [id |-> log[i].id, mult |-> 1, gv |-> 0 - 2 * Adv(i),
            gl |-> [b \in 1..2 |-> IF b = log[i].a + 1 THEN 0 - Adv(i) ELSE 0]]
\* ---------------------------------------------------------------------------------
Init == /\ log = <<>> /\ obs = [e \in Envs |-> e] /\ t = 0 /\ s = InitState(C) /\ bad = "" /\ phase = "act"
        /\ order = <<>> /\ nextid = NEnv + 1 /\ hist = <<>>
Turn ==
    /\ phase = "act" /\ t < MaxT /\ bad = ""
    /\ \E ends \in [Envs -> Ends] :
        LET act == [op |-> "act", obs |-> obs, a |-> [e \in Envs |-> (t + e) % 2]]
            nobs == [e \in Envs |-> nextid + e - 1]
            ob == [op |-> "observe", nobs |-> nobs, r |-> [e \in Envs |-> RewOf(t + 2 * e)],
                   done |-> [e \in Envs |-> ends[e] = "done"], reset |-> [e \in Envs |-> ends[e] = "reset"]]
            f1 == Feed(s, act)
            f2 == Feed(f1[2], ob)
            new == [e \in Envs |-> [env |-> e, id |-> obs[e], a |-> act.a[e], r |-> ob.r[e], nid |-> nobs[e],
                                    done |-> ob.done[e], end |-> ends[e] # "no"]]
        IN  /\ s' = f2[2] /\ bad' = (IF f1[1] # "" THEN f1[1] ELSE f2[1])
            /\ log' = log \o new /\ nextid' = nextid + 2 * NEnv
            /\ obs' = [e \in Envs |-> IF ends[e] = "no" THEN nobs[e] ELSE nextid + NEnv + e - 1]
            /\ hist' = Append(hist, ends)
    /\ t' = t + 1 /\ phase' = "learn" /\ UNCHANGED order
Enough == Len(log) >= (IF Mut = "early" THEN UI - 1 ELSE UI)
Learn ==
    /\ phase = "learn" /\ bad = ""
    /\ IF Enough
       THEN \* any order of visiting, in minibatches
            /\ order' = [k \in 1..(Epochs * Len(log)) |-> 1 + ((k - 1) % (IF Mut = "skiplast" THEN Len(log) - 1 ELSE Len(log)))]
            /\ phase' = "visit" /\ UNCHANGED <<s, bad, log>>
       ELSE LET f == Feed(s, [op |-> "end"]) IN
            /\ s' = f[2] /\ bad' = f[1] /\ phase' = "act" /\ UNCHANGED <<order, log>>
    /\ UNCHANGED <<obs, t, nextid, hist>>
Visit ==
    /\ phase = "visit" /\ bad = ""
    /\ IF order # <<>>
       THEN LET k == Min2(Mb, Len(order))
                short == Mb - k                     \* the last minibatch starts over
                ids == SubSeq(order, 1, k) \o [i \in 1..short |-> i]
                items == [i \in 1..Mb |-> Item(ids[i])]
                f == Feed(s, [op |-> "step", items |-> items, stray |-> FALSE, lk |-> 0, dv |-> 0])
            IN  /\ s' = f[2] /\ bad' = f[1] /\ order' = SubSeq(order, k + 1, Len(order))
                /\ UNCHANGED <<phase, log>>
       ELSE LET f == Feed(s, [op |-> "end"]) IN
            /\ s' = f[2] /\ bad' = f[1] /\ phase' = "act" /\ UNCHANGED order
            /\ log' = IF Mut = "keep" THEN <<log[Len(log)]>> ELSE <<>>
    /\ UNCHANGED <<obs, t, nextid, hist>>
Done == /\ phase = "act" /\ t = MaxT /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ phase' = "over" /\ UNCHANGED <<log, obs, t, s, bad, order, nextid, hist>>
Next == Turn \/ Learn \/ Visit \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* nothing is forgotten and nothing is kept twice
Bounded == phase = "act" /\ Mut = "" => SizeOf(s.mem) + SizeOf(Open(s)) = Len(log) /\ Len(log) < UI + NEnv
=============================================================================
