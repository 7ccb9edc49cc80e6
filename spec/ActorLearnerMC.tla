--------------------------- MODULE ActorLearnerMC ---------------------------
(***************************************************************************)
(* The algorithm: actors with a pipe each, a poller which serves the pipes  *)
(* and a learner, sharing a replay buffer under a lock.  Bad names a defect *)
(* which the rules of ActorLearner must reject:                             *)
(*   1 priorities are written without the lock                              *)
(*   2 the poller ends when the learner has failed                          *)
(*   3 transitions are filed under another actor                            *)
(*   4 the actors' model is not refreshed                                   *)
(*   5 the poller drops a message on a busy pipe                            *)
(***************************************************************************)
EXTENDS ActorLearner, TLC, Json
CONSTANTS N, Steps, Nu, Iv, Rs, Ti, Fail, Loads, Bad, Gen
c == [n |-> N, buf |-> "per", iv |-> Iv, ui |-> 1, ti |-> Ti, rs |-> Rs, nu |-> Nu, m0 |-> 9]
VARIABLES s, err, pipe, rep, ac, po, le, lk, g, sched
vars == <<s, err, pipe, rep, ac, po, le, lk, g, sched>>
\* g: models and flags; lk: holder of the buffer's lock
Init ==
    /\ s = InitState(c) /\ err = ""
    /\ pipe = [i \in 1..N |-> << >>] /\ rep = [i \in 1..N |-> << >>]
    /\ ac = [i \in 1..N |-> [pc |-> "run", k |-> 0, loaded |-> FALSE]]
    /\ po = [pc |-> "poll", i |-> 0, msg |-> << >>]
    /\ le = [pc |-> "top", u |-> 0]
    /\ lk = 0
    /\ g = [m |-> 0, tg |-> 0, sh |-> 0, uc |-> 0, exc |-> FALSE, n |-> 0, lstop |-> FALSE,
            pstop |-> FALSE, lfail |-> FALSE]
    /\ sched = << >>

RECURSIVE Feed(_, _, _)
Feed(st, e, evs) ==
    IF evs = << >> \/ e # "" THEN <<st, e>>
    ELSE LET v == Clause(c, st, evs[1])
         IN  Feed(IF v = "" THEN Step(c, st, evs[1]) ELSE st, v, Tail(evs))
Emit(evs) == LET r == Feed(s, err, evs) IN s' = r[1] /\ err' = r[2]
Silent == UNCHANGED <<s, err>>
\* every event reports the shared values
V(gg, r) == [m |-> gg.m, tg |-> gg.tg, sh |-> gg.sh, uc |-> gg.uc, exc |-> gg.exc] @@ r
Who(x) == sched' = IF Gen THEN Append(sched, x) ELSE sched

Actor(i) ==
  LET a == ac[i] IN
  \/ /\ a.pc = "run" /\ a.k < Steps
     /\ \E d \in BOOLEAN, z \in BOOLEAN :
        /\ Emit(<<V(g, [op |-> "act", w |-> i, a |-> g.sh, sh0 |-> g.sh, t |-> a.k, train |-> TRUE]),
                  V(g, [op |-> "obs", w |-> i, s |-> a.k, a |-> g.sh, r |-> 0, nx |-> a.k + 1, d |-> d,
                        reset |-> d \/ z])>>)
        /\ pipe' = [pipe EXCEPT ![i] = @ \o <<[c |-> "transition", s |-> a.k, a |-> g.sh, nx |-> a.k + 1, d |-> d]>>
                                   \o (IF d \/ z THEN <<[c |-> "stop"]>> ELSE << >>)]
        /\ ac' = [ac EXCEPT ![i].k = @ + 1, ![i].pc = IF d \/ z THEN "wait" ELSE "run"]
     /\ UNCHANGED <<rep, po, le, lk, g>>
  \/ /\ a.pc = "run" /\ a.k = Steps
     /\ LET k == IF Loads /\ i = 1 /\ ~a.loaded THEN "load" ELSE "stats" IN
        /\ Emit(<<V(g, [op |-> "req", w |-> i, k |-> k, d |-> 0])>>)
        /\ pipe' = [pipe EXCEPT ![i] = Append(@, [c |-> k])]
        /\ ac' = [ac EXCEPT ![i].pc = k]
     /\ UNCHANGED <<rep, po, le, lk, g>>
  \/ /\ a.pc = "wait" /\ rep[i] # << >>
     /\ Emit(<<V(g, [op |-> "obsend", w |-> i, ok |-> rep[i][1].ok])>>)
     /\ rep' = [rep EXCEPT ![i] = Tail(@)]
     /\ ac' = [ac EXCEPT ![i].pc = "run"] /\ UNCHANGED <<pipe, po, le, lk, g>>
  \/ /\ a.pc \in {"stats", "load"} /\ rep[i] # << >>
     /\ Emit(<<V(g, [op |-> "rep", w |-> i, k |-> a.pc, ok |-> rep[i][1].ok, nu |-> rep[i][1].nu,
                     cum |-> rep[i][1].cum])>>)
     /\ rep' = [rep EXCEPT ![i] = Tail(@)]
     /\ ac' = [ac EXCEPT ![i].pc = IF a.pc = "stats" THEN "done" ELSE "run", ![i].loaded = TRUE]
     /\ UNCHANGED <<pipe, po, le, lk, g>>

Env(i) == IF Bad = 3 THEN 1 + (i % N) ELSE i
Reply(i, ok) == rep' = [rep EXCEPT ![i] = Append(@, [ok |-> ok, nu |-> le.u, cum |-> g.n])]
Poller ==
  \/ /\ po.pc = "poll" /\ ~(Bad = 2 /\ g.exc)
     /\ \E i \in 1..N : /\ pipe[i] # << >>
                        /\ po' = [pc |-> "have", i |-> i, msg |-> pipe[i][1]]
                        /\ pipe' = [pipe EXCEPT ![i] = IF Bad = 5 /\ Len(@) > 2 THEN Tail(Tail(@)) ELSE Tail(@)]
     /\ Silent /\ UNCHANGED <<rep, ac, le, lk, g>>
  \/ /\ po.pc = "have" /\ po.msg.c = "load"
     /\ g' = [g EXCEPT !.m = 9, !.tg = 9] /\ Reply(po.i, TRUE)
     /\ po' = [po EXCEPT !.pc = "poll"] /\ Silent /\ UNCHANGED <<pipe, ac, le, lk>>
  \/ /\ po.pc = "have" /\ po.msg.c = "stats" /\ lk = 0
     /\ Reply(po.i, TRUE) /\ po' = [po EXCEPT !.pc = "poll"] /\ Silent /\ UNCHANGED <<pipe, ac, le, lk, g>>
  \/ /\ po.pc = "have" /\ po.msg.c \in {"transition", "stop"} /\ lk = 0 /\ lk' = 1
     /\ Emit(<<IF po.msg.c = "transition"
               THEN V(g, [op |-> "bufin", k |-> "append", fault |-> FALSE, n |-> g.n, env |-> Env(po.i),
                          s |-> po.msg.s, a |-> po.msg.a, r |-> 0, nx |-> po.msg.nx, d |-> po.msg.d])
               ELSE V(g, [op |-> "bufin", k |-> "stop", fault |-> FALSE, n |-> g.n, env |-> Env(po.i)])>>)
     /\ po' = [po EXCEPT !.pc = "in"] /\ UNCHANGED <<pipe, rep, ac, le, g>>
  \/ /\ po.pc = "in"
     /\ Emit(<<V(g, [op |-> "bufout"])>>) /\ lk' = 0
     /\ IF po.msg.c = "transition"
        THEN g' = [g EXCEPT !.n = @ + 1] /\ UNCHANGED rep
        ELSE Reply(po.i, TRUE) /\ UNCHANGED g
     /\ po' = [po EXCEPT !.pc = "poll"] /\ UNCHANGED <<pipe, ac, le>>
  \/ /\ po.pc = "poll" /\ (g.pstop \/ (Bad = 2 /\ g.exc)) /\ Emit(<<V(g, [op |-> "pend", err |-> FALSE])>>)
     /\ po' = [po EXCEPT !.pc = "done"] /\ UNCHANGED <<pipe, rep, ac, le, lk, g>>

L(x) == le' = [le EXCEPT !.pc = x]
Learner ==
  \/ /\ le.pc = "top" /\ (g.lstop \/ (g.n >= Rs /\ Nu > 0 /\ le.u = Nu))
     /\ g' = [g EXCEPT !.lstop = TRUE]
     /\ Emit(<<V(g, [op |-> "lend", err |-> FALSE, stop |-> TRUE])>>) /\ L("done")
     /\ UNCHANGED <<pipe, rep, ac, po, lk>>
  \/ /\ le.pc = "top" /\ ~g.lstop /\ g.n >= Rs /\ (Nu = 0 \/ le.u < Nu) /\ le.u < 3 /\ lk = 0 /\ lk' = 2
     /\ Emit(<<V(g, [op |-> "bufin", k |-> "sample", fault |-> FALSE, n |-> g.n])>>) /\ L("sample")
     /\ UNCHANGED <<pipe, rep, ac, po, g>>
  \/ /\ le.pc = "sample" /\ Emit(<<V(g, [op |-> "bufout"])>>) /\ lk' = 0 /\ L("errors")
     /\ UNCHANGED <<pipe, rep, ac, po, g>>
  \/ /\ le.pc = "errors" /\ (Bad = 1 \/ lk = 0) /\ (IF Bad = 1 THEN UNCHANGED lk ELSE lk' = 2)
     /\ Emit(<<V(g, [op |-> "bufin", k |-> "errors", fault |-> FALSE, n |-> g.n])>>) /\ L("errors2")
     /\ UNCHANGED <<pipe, rep, ac, po, g>>
  \/ /\ le.pc = "errors2" /\ (IF Bad = 1 THEN UNCHANGED lk ELSE lk' = 0)
     /\ Emit(<<V(g, [op |-> "bufout"])>>) /\ L("update") /\ UNCHANGED <<pipe, rep, ac, po, g>>
  \/ /\ le.pc = "update"
     /\ \/ /\ g' = [g EXCEPT !.m = @ + 1]
           /\ Emit(<<V(g, [op |-> "update", m2 |-> g.m + 1])>>) /\ le' = [pc |-> "refresh", u |-> le.u + 1]
        \/ /\ Fail /\ g' = [g EXCEPT !.exc = TRUE, !.lfail = TRUE]
           /\ Emit(<<V(g, [op |-> "fault"]), V([g EXCEPT !.exc = TRUE], [op |-> "lend", err |-> FALSE, stop |-> FALSE])>>)
           /\ L("done")
     /\ UNCHANGED <<pipe, rep, ac, po, lk>>
  \/ /\ le.pc = "refresh" /\ Silent /\ L("hooks")
     /\ g' = IF le.u % Iv = 0 THEN [g EXCEPT !.uc = @ + 1, !.sh = IF Bad = 4 THEN @ ELSE g.m] ELSE g
     /\ UNCHANGED <<pipe, rep, ac, po, lk>>
  \/ /\ le.pc = "hooks" /\ L("sync")
     /\ Emit(<<V(g, [op |-> "ohook", t |-> le.u, fault |-> FALSE]), V(g, [op |-> "hook", t |-> le.u, fault |-> FALSE])>>)
     /\ UNCHANGED <<pipe, rep, ac, po, lk, g>>
  \/ /\ le.pc = "sync" /\ L("top") /\ Silent
     /\ g' = IF le.u % Ti = 0 THEN [g EXCEPT !.tg = g.m] ELSE g
     /\ UNCHANGED <<pipe, rep, ac, po, lk>>

ActorsDone == \A i \in 1..N : ac[i].pc = "done"
Main ==
  \/ /\ ActorsDone /\ ~s.lstop /\ le.pc # "closed"
     /\ Emit(<<V(g, [op |-> "lstop"])>>) /\ g' = [g EXCEPT !.lstop = TRUE]
     /\ UNCHANGED <<pipe, rep, ac, po, le, lk>>
  \/ /\ s.lstop /\ le.pc = "done" /\ ~g.pstop
     /\ Emit(<<V(g, [op |-> "pstop"])>>) /\ g' = [g EXCEPT !.pstop = TRUE]
     /\ UNCHANGED <<pipe, rep, ac, po, le, lk>>
  \/ /\ g.pstop /\ po.pc = "done" /\ le.pc = "done"
     /\ Emit(<<V(g, [op |-> "final", deadlock |-> FALSE, flushed |-> [i \in 1..N |-> TRUE], cum |-> g.n,
                     wanted |-> FALSE])>>)
     /\ L("closed") /\ UNCHANGED <<pipe, rep, ac, po, lk, g>>

Next == \/ \E i \in 1..N : Actor(i) /\ Who(i + 1)
        \/ Poller /\ Who(0)
        \/ Learner /\ Who(1)
        \/ Main /\ UNCHANGED sched
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == err = ""
Ends == <>(le.pc = "closed")
\* nobody waits for ever
Stuck == le.pc # "closed" => ENABLED Next
MCView == <<s, err, pipe, rep, ac, po, le, lk, g>>
GenInv == s.req = s.req /\ IF Gen /\ le.pc = "closed" THEN PrintT("@@" \o ToJson(sched)) ELSE TRUE
=============================================================================
