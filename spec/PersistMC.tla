------------------------------ MODULE PersistMC ------------------------------
(***************************************************************************)
(* An agent made of an acting network w, a lagging copy of it (target or         *)
(* shared), an optimizer state, an input statistic with a cached inverse, and     *)
(* pending experience; saved at every set of points, loaded into a fresh and into  *)
(* a used agent.  Mut names broken variants.                                        *)
(***************************************************************************)
EXTENDS Persist, TLC, Json
CONSTANTS N, K, Gen, Mut
VARIABLES s, bad, ag, file, who, pc, t, saves, over
vars == <<s, bad, ag, file, who, pc, t, saves, over>>
M == 97
Parts == {"w", "tgt", "opt", "stat"}
New(x) == [w |-> x, tgt |-> x, opt |-> 0, stat |-> x, cache |-> 0, pend |-> 0]
Upd(a, o) ==   \* learning every second step from what is pending
    LET st == (a.stat + o) % M IN
    IF a.pend = 0 THEN [a EXCEPT !.pend = o + 1, !.stat = st, !.cache = st]
    ELSE LET op == (3 * a.opt + a.pend) % M IN
         [a EXCEPT !.pend = 0, !.opt = op, !.w = (a.w + op + 5 * a.tgt + a.cache) % M,
                   !.tgt = IF o % 2 = 0 THEN a.w ELSE @, !.stat = st, !.cache = st]
Fp(a) == ToString(<<a.w, a.opt, a.stat>>)
Act(a, o) == ToString((a.w * o + a.cache) % M)
Saved == IF Mut = "notarget" THEN Parts \ {"tgt"} ELSE IF Mut = "noopt" THEN Parts \ {"opt"} ELSE Parts
Load(a) == LET b == [x \in DOMAIN a |-> IF x \in Parts /\ x \in Saved THEN file[x] ELSE a[x]]
           IN IF Mut = "stale" THEN b ELSE [b EXCEPT !.cache = b.stat]
Quiet == N % 2 = 0
C == [n |-> N, e |-> 2, m |-> K, quiet |-> Quiet]
Feed(x, ev) == IF x[1] # "" THEN x ELSE <<Clause(C, x[2], ev), Step(C, x[2], ev)>>
Out(x) == bad' = x[1] /\ s' = x[2]
Init == /\ s = InitState(C) /\ bad = "" /\ ag = [x \in Whos |-> New(CASE x = "B" -> 7 [] x = "C" -> 11 [] OTHER -> 3)]
        /\ file = New(0) /\ who = "ref" /\ pc = "train" /\ t = 0 /\ saves = {} /\ over = FALSE
Train == /\ pc = "train" /\ t < N
         /\ LET a == Upd(ag[who], (5 * t + 2) % M) IN
            /\ ag' = [ag EXCEPT ![who] = a]
            /\ Out(IF who \in {"ref", "A"} THEN Feed(<<"", s>>, [op |-> "train", who |-> who, i |-> t + 1, f |-> Fp(a)]) ELSE <<"", s>>)
         /\ t' = t + 1 /\ UNCHANGED <<file, who, pc, saves, over>>
Turn == /\ pc = "train" /\ t = N /\ who = "ref" /\ who' = "A" /\ t' = 0
        /\ UNCHANGED <<s, bad, ag, file, pc, saves, over>>
Save == /\ pc = "train" /\ who = "A" /\ t \notin saves /\ saves' = saves \cup {t}
        /\ file' = ag["A"]
        /\ ag' = IF Mut = "mutates" THEN [ag EXCEPT !["A"].pend = 0, !["A"].cache = 0] ELSE ag
        /\ Out(Feed(<<"", s>>, [op |-> "save", p |-> Fp(ag["A"]), q |-> Fp(ag'["A"])]))
        /\ UNCHANGED <<who, pc, t, over>>
\* the used agent trains on its own first
Used == /\ pc = "train" /\ who = "A" /\ t = N /\ N \in saves /\ pc' = "eval" /\ t' = 0
        /\ ag' = [ag EXCEPT !["C"] = IF Quiet THEN Upd(Upd(@, 9), 4) ELSE @]
        /\ UNCHANGED <<s, bad, file, who, saves, over>>
Eval == /\ pc = "eval" /\ t < 2
        /\ Out(Feed(<<"", s>>, [op |-> "eval", who |-> who, i |-> t + 1, f |-> Act(ag[who], t + 1)]))
        /\ t' = t + 1 /\ UNCHANGED <<ag, file, who, pc, saves, over>>
Go == /\ pc = "eval" /\ t = 2 /\ pc' = "cont" /\ t' = 0 /\ UNCHANGED <<s, bad, ag, file, who, saves, over>>
Cont == /\ pc = "cont" /\ t < K
        /\ LET a == Upd(ag[who], (7 * t + 1) % M) IN
           /\ ag' = [ag EXCEPT ![who] = a]
           /\ Out(Feed(<<"", s>>, [op |-> "cont", who |-> who, i |-> t + 1, f |-> Fp(a)]))
        /\ t' = t + 1 /\ UNCHANGED <<file, who, pc, saves, over>>
NextOne == /\ pc = "cont" /\ t = K /\ who \in {"A", "B"}
           /\ LET x == IF who = "A" THEN "B" ELSE "C"
                  a == Load(ag[x]) IN
              /\ who' = x /\ ag' = [ag EXCEPT ![x] = a]
              /\ Out(Feed(<<"", s>>, [op |-> "load", who |-> x, p |-> Fp(a)]))
           /\ pc' = "eval" /\ t' = 0 /\ UNCHANGED <<file, saves, over>>
Done == /\ pc = "cont" /\ t = K /\ who = "C" /\ ~over /\ over' = TRUE
        /\ Out(Feed(<<"", s>>, [op |-> "stop"]))
        /\ (Gen => PrintT("@@" \o ToJson([n |-> N, saves |-> saves])))
        /\ UNCHANGED <<ag, file, who, pc, t, saves>>
Next == bad = "" /\ ~over /\ (Train \/ Turn \/ Save \/ Used \/ Eval \/ Go \/ Cont \/ NextOne \/ Done)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* at the end all of them are alike
Alike == over /\ Quiet => ag["B"] = ag["A"] /\ ag["C"] = ag["A"]
=============================================================================
