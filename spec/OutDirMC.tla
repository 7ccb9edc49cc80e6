------------------------------ MODULE OutDirMC ------------------------------
(***************************************************************************)
(* The preparation as a sequence of file operations, which may be cut off   *)
(* after any of them: copy the files of an existing directory one by one to *)
(* a backup named by the time, then write the records.  Bad:                *)
(*   1 the backup's name does not depend on the time (an old one is merged) *)
(*   2 the directory is emptied before the copy                             *)
(*   3 the records are written before the copy                              *)
(***************************************************************************)
EXTENDS OutDir, TLC, Json
CONSTANTS Ops, Bad, Gen
Exps == {1, 2}
VARIABLES s, err, fs, job, clk, n, hist
vars == <<s, err, fs, job, clk, n, hist>>
c == [git |-> FALSE]
Init == s = InitState(c) /\ err = "" /\ fs = {} /\ job = [pc |-> "idle"] /\ clk = 0 /\ n = 0 /\ hist = << >>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
After(T) == SeqOf({ [d |-> x.d, files |-> SeqOf(x.files)] : x \in T })
Emit(ev) == LET v == IF err # "" THEN err ELSE Clause(c, s, ev) IN
            err' = v /\ s' = IF v = "" THEN Step(c, s, ev) ELSE s
Silent == UNCHANGED <<s, err>>
Put(T, d, F) == { x \in T : x.d # d } \cup {[d |-> d, files |-> F]}
Bak(e) == IF Bad = 1 THEN 100 + e ELSE 100 * (clk + 1) + e
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist

Result(e) ==     \* the experiment writes a result
    /\ job.pc = "idle" /\ n < Ops /\ e \in Names(fs)
    /\ \E f \in {10, 11} :
       /\ fs' = Put(fs, e, { x \in Files(fs, e) : x.f # f } \cup {[f |-> f, c |-> 50 + n]})
       /\ H(<<"result", e, f>>)
    /\ Emit([op |-> "result", after |-> After(fs')])
    /\ n' = n + 1 /\ UNCHANGED <<job, clk>>
Begin(e) ==
    /\ job.pc = "idle" /\ n < Ops /\ n' = n + 1
    /\ \E b \in BOOLEAN :
       /\ job' = [pc |-> IF e \in Names(fs) /\ b /\ Bad # 3 THEN "mkbak" ELSE "records", e |-> e, b |-> b,
                  had |-> e \in Names(fs), old |-> Files(fs, e)]
       /\ H(<<"prep", e, b>>)
    /\ clk' = clk + 1 /\ Silent /\ UNCHANGED fs
Work ==
  \/ /\ job.pc = "mkbak" /\ fs' = Put(IF Bad = 2 THEN Put(fs, job.e, {}) ELSE fs, Bak(job.e), Files(fs, Bak(job.e)))
     /\ job' = [job EXCEPT !.pc = "copy"] /\ Silent /\ UNCHANGED <<clk, n, hist>>
  \/ /\ job.pc = "copy"
     /\ LET todo == (IF Bad = 2 THEN job.old ELSE Files(fs, job.e)) \ Files(fs, Bak(job.e)) IN
        IF todo = {} THEN job' = [job EXCEPT !.pc = IF Bad = 3 THEN "end" ELSE "records"] /\ UNCHANGED fs
        ELSE \E x \in todo : fs' = Put(fs, Bak(job.e), { y \in Files(fs, Bak(job.e)) : y.f # x.f } \cup {x}) /\ UNCHANGED job
     /\ Silent /\ UNCHANGED <<clk, n, hist>>
  \/ /\ job.pc = "records"
     /\ fs' = Put(fs, job.e, Results(IF Bad = 2 THEN job.old ELSE Files(fs, job.e)) \cup {[f |-> 1, c |-> clk]})
     /\ job' = [job EXCEPT !.pc = IF Bad = 3 /\ job.had /\ job.b THEN "mkbak" ELSE "end"]
     /\ Silent /\ UNCHANGED <<clk, n, hist>>
  \/ /\ job.pc = "end"
     /\ Emit([op |-> "prep", ok |-> TRUE, out |-> job.e, exp |-> "named", placed |-> TRUE, key |-> 0, bk |-> job.b,
              baknamed |-> TRUE, info |-> TRUE, starts |-> Starts(s, job.e) + 1, after |-> After(fs)])
     /\ job' = [pc |-> "idle"] /\ UNCHANGED <<fs, clk, n, hist>>
Cut == /\ job.pc # "idle" /\ ~Gen
       /\ Emit([op |-> "crash", out |-> job.e, starts |-> Starts(s, job.e), after |-> After(fs)])
       /\ job' = [pc |-> "idle"] /\ UNCHANGED <<fs, clk, n, hist>>
Next == (\E e \in Exps : Result(e) \/ Begin(e)) \/ Work \/ Cut
Spec == Init /\ [][Next]_vars
Correct == err = ""
GenInv == IF Gen /\ n = Ops /\ job.pc = "idle" THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
