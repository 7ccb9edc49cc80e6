------------------------------- MODULE RecurMC -------------------------------
(***************************************************************************)
(* An agent which keeps one recurrent state per environment and mode and     *)
(* trains on what it stored, under every interleaving of episode ends and     *)
(* evaluation phases; Mut names deliberately broken variants.                 *)
(***************************************************************************)
EXTENDS Recur, TLC, Json
CONSTANTS NEnv, MaxT, Gen, Mut
VARIABLES s, bad, rs, obs, mode, t, nextid, mem, hist, over
vars == <<s, bad, rs, obs, mode, t, nextid, mem, hist, over>>
Envs == 1..NEnv
C == [N |-> 2 * NEnv * (MaxT + 2) + NEnv, freshok |-> FALSE]
Feed(x, ev) == IF x[1] # "" THEN x ELSE <<Clause(C, x[2], ev), Step(C, x[2], ev)>>
Key(m) == IF Mut = "shared" THEN "train" ELSE m
Init == /\ s = InitState(C) /\ bad = "" /\ rs = [m \in {"train", "eval"} |-> [e \in Envs |-> 0]]
        /\ obs = [m \in {"train", "eval"} |-> <<>>] /\ mode = "train" /\ t = 0 /\ nextid = 1
        /\ mem = <<>> /\ hist = <<>> /\ over = FALSE
FirstObs == [e \in Envs |-> nextid + e - 1]
Turn ==
    /\ bad = "" /\ t < MaxT
    /\ \E ends \in [Envs -> BOOLEAN], m \in {"train", "eval"} :
        LET new == m # mode /\ m = "eval"                     \* an evaluation begins
            o == IF obs[m] = <<>> \/ new THEN FirstObs ELSE obs[m]
            id1 == IF obs[m] = <<>> \/ new THEN nextid + NEnv ELSE nextid
            r == rs[Key(m)]
            nobs == [e \in Envs |-> id1 + e - 1]
            anyEnd == \E e \in Envs : ends[e]
            mask(e) == IF Mut = "all" THEN anyEnd ELSE IF Mut = "never" THEN FALSE ELSE ends[e]
            x1 == Feed(<<"", s>>, [op |-> "act", m |-> m, obs |-> o])
            x2 == Feed(x1, [op |-> "fwd", p |-> [e \in Envs |-> [id |-> o[e], h |-> r[e]]]])
            x3 == Feed(x2, [op |-> "acted"])
            x4 == Feed(x3, [op |-> "observe", m |-> m, nobs |-> nobs, ended |-> ends])
            mem1 == IF m = "train" THEN mem \o [e \in Envs |-> [id |-> o[e], h |-> r[e], nid |-> nobs[e]]] ELSE mem
            \* training on everything stored
            x5 == IF m = "train" THEN Feed(x4, [op |-> "fwd", p |-> [i \in 1..Len(mem1) |-> [id |-> mem1[i].id, h |-> mem1[i].h]]]) ELSE x4
            x6 == IF m = "train" THEN Feed(x5, [op |-> "fwd", p |-> [i \in 1..Len(mem1) |->
                        [id |-> mem1[i].nid, h |-> IF Mut = "next" THEN mem1[i].h ELSE mem1[i].id]]]) ELSE x5
            x7 == Feed(x6, [op |-> "observed"])
            fresh == id1 + NEnv
            \* leaving an evaluation ends its episodes
        IN  /\ bad' = x7[1] /\ s' = x7[2] /\ mem' = mem1
            /\ (m = "eval" => \A e \in Envs : ends[e] = ends[1])
            /\ (m = "train" /\ mode = "eval" => obs["eval"] = <<>>)
            /\ rs' = [rs EXCEPT ![Key(m)] = [e \in Envs |-> IF mask(e) THEN 0 ELSE o[e]]]
            /\ obs' = [obs EXCEPT ![m] = IF m = "eval" /\ ends[1] THEN <<>>
                                         ELSE [e \in Envs |-> IF ends[e] THEN fresh + e - 1 ELSE nobs[e]]]
            /\ nextid' = fresh + NEnv /\ mode' = m /\ t' = t + 1
            /\ hist' = Append(hist, [m |-> m, ends |-> ends])
    /\ UNCHANGED over
Done == /\ t = MaxT /\ bad = "" /\ ~over /\ over' = TRUE /\ (Gen => PrintT("@@" \o ToJson(hist)))
        /\ UNCHANGED <<s, bad, rs, obs, mode, t, nextid, mem, hist>>
Next == Turn \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* predecessors never cross episodes: they form chains of distinct observations
Chains == \A i, j \in 1..C.N : i # j /\ s.pred[i] > 0 => s.pred[i] # s.pred[j]
=============================================================================
