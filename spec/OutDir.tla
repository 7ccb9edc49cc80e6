------------------------------- MODULE OutDir -------------------------------
(***************************************************************************)
(* Output directories of experiments.  The tree is a set of directories,   *)
(* each a set of files [f |-> name, c |-> contents]; names below 10 are the *)
(* records written by the preparation itself (1: start).  An event carries *)
(* the whole tree after it.                                                *)
(*                                                                         *)
(* cfg: git (the working directory is under version control)               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ToSet(q) == { q[k] : k \in 1..Len(q) }
Tree(ev) == { [d |-> x.d, files |-> ToSet(x.files)] : x \in ToSet(ev.after) }
Names(T) == { x.d : x \in T }
Files(T, d) == IF d \in Names(T) THEN (CHOOSE x \in T : x.d = d).files ELSE {}
Results(F) == { x \in F : x.f >= 10 }
InitState(c) == [tree |-> {}, keys |-> {}, starts |-> {}]

\* start records of a directory: pairs <<directory, number>>
Starts(st, d) == IF \E x \in st.starts : x[1] = d THEN (CHOOSE x \in st.starts : x[1] = d)[2] ELSE 0

Prep(c, st, ev) ==
    LET T == Tree(ev)
        o == ev.out
        old == Files(st.tree, o)
        had == o \in Names(st.tree)
        new == Names(T) \ Names(st.tree)
    IN
    IF ~ev.ok THEN "failed"
    ELSE IF ~(o \in Names(T)) THEN "no-directory"
    ELSE IF ev.exp = "named" /\ ~ev.placed THEN "wrong-directory"
    ELSE IF ev.exp = "fresh" /\ had THEN "directory-shared"
    ELSE IF ev.exp = "keyed" /\ \E k \in st.keys : (k[1] = ev.key) # (k[2] = o) THEN "identifier"
    ELSE IF \E x \in st.tree : x.d # o /\ x.files # Files(T, x.d) THEN "other-directory-changed"
    ELSE IF ~(Names(st.tree) \subseteq Names(T)) THEN "directory-removed"
    ELSE IF ~(Results(old) \subseteq Files(T, o)) THEN "results-lost"
    ELSE IF ~(Results(Files(T, o)) \subseteq old) THEN "strange-files"
    ELSE IF had /\ ev.bk THEN
        (IF Cardinality(new) # 1 THEN "backup-missing"
         ELSE IF Files(T, CHOOSE d \in new : TRUE) # old THEN "backup-incomplete"
         ELSE IF ~ev.baknamed THEN "backup-name"
         ELSE IF ~ev.info THEN "records"
         ELSE IF ev.starts # Starts(st, o) + 1 THEN "start-record" ELSE "")
    ELSE IF new # (IF had THEN {} ELSE {o}) THEN "strange-directory"
    ELSE IF ~ev.info THEN "records"
    ELSE IF ev.starts # Starts(st, o) + 1 THEN "start-record"
    ELSE ""

\* an interrupted preparation: every result is still somewhere under its directory or a new backup
Crash(c, st, ev) ==
    LET T == Tree(ev)
        o == ev.out
        new == (Names(T) \ Names(st.tree)) \cup {o}
    IN
    IF \E x \in st.tree : x.d # o /\ x.files # Files(T, x.d) THEN "other-directory-changed"
    ELSE IF \E x \in Results(Files(st.tree, o)) : ~(\E d \in new : x \in Files(T, d)) THEN "results-lost"
    ELSE ""

Clause(c, st, ev) ==
    CASE ev.op = "result" -> ""
      [] ev.op = "prep" -> Prep(c, st, ev)
      [] ev.op = "crash" -> Crash(c, st, ev)
      [] OTHER -> "unknown-event"

Step(c, st, ev) ==
    LET T == Tree(ev) IN
    CASE ev.op = "prep" ->
           [tree |-> T, keys |-> IF ev.exp = "keyed" THEN st.keys \cup {<<ev.key, ev.out>>} ELSE st.keys,
            starts |-> { x \in st.starts : x[1] # ev.out } \cup {<<ev.out, ev.starts>>}]
      [] ev.op = "crash" ->
           [st EXCEPT !.tree = T,
                      !.starts = { x \in st.starts : x[1] # ev.out } \cup {<<ev.out, ev.starts>>}]
      [] OTHER -> [st EXCEPT !.tree = T]
=============================================================================
