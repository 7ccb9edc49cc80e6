----------------------------- MODULE OffPolicyMC -----------------------------
(***************************************************************************)
(* The agent loop of the replay agents in abstract form: for every           *)
(* environment of the batch count a step, synchronize if scheduled, store,   *)
(* close the episode, update.  All of done/reset flags, with evaluation      *)
(* phases anywhere.  Mut names deliberately broken variants.                 *)
(***************************************************************************)
EXTENDS OffPolicy, TLC, Json
CONSTANTS N, Start0, Batch, Ui, Tui, Ntimes, Fam, SoftSync, Delay, Steps, Gen, Mut
VARIABLES s, todo, steps, hist, bad, evals
C == [n |-> N, fam |-> Fam, start |-> Start0, batch |-> Batch, ui |-> Ui, ntimes |-> Ntimes,
      tui |-> Tui, soft |-> SoftSync, num |-> 1, den |-> 2, delay |-> Delay, episodic |-> FALSE,
      burnin |-> FALSE]
E == 1..N
Half(m, tg) == <<tg[1] + ((m[1] - tg[1]) * 2 + 2) \div 4>>
Sync(m, tg) == IF SoftSync THEN Half(m, tg) ELSE m

\* one update, beginning in (m, tg, nup); x: events so far
RECURSIVE Ups(_, _)
Ups(x, j) ==
    IF j = 0 THEN x
    ELSE LET m1 == <<x.m[1] + 64>>
             pol == PolicyDue(C, x.nup + 1)
             opts == CASE Fam = "dqn" -> <<"q">> [] Fam = "ddpg" -> <<"q", "policy">>
                       [] OTHER -> IF pol THEN <<"q1", "q2", "policy">> ELSE <<"q1", "q2">>
             evs == <<[op |-> "sample", size |-> Batch, m |-> x.m, tg |-> x.tg]>>
                    \o [i \in 1..Len(opts) |-> [op |-> "opt", name |-> opts[i], changed |-> <<opts[i]>>, m |-> m1]]
         IN Ups([x EXCEPT !.evs = @ \o evs, !.m = m1, !.nup = @ + 1,
                          !.tg = IF Fam \in {"td3", "sac"} /\ pol /\ Mut # "nosync" THEN Sync(m1, @) ELSE @], j - 1)
RECURSIVE Envs(_, _, _, _)
Envs(x, i, done, reset) ==
    IF i > N THEN x
    ELSE LET t == x.t + 1
             x1 == [x EXCEPT !.t = t, !.tg = IF Fam \in {"dqn", "ddpg"} /\ t % Tui = 0
                                             THEN Sync(x.m, @) ELSE @]
             b == x1.blen + 1
             ap == [op |-> "append", env |-> i - 1, state |-> s.obs[i], a |-> s.a[i], r |-> 0,
                    next |-> 50 + i, term |-> (done[i] \/ (Mut = "cutterm" /\ reset[i])), blen |-> b, neps |-> 0]
             x2 == [x1 EXCEPT !.blen = b, !.evs = Append(@, ap)]
             x3 == IF done[i] \/ (reset[i] /\ Mut # "nostop")
                   THEN [x2 EXCEPT !.evs = Append(@, [op |-> "stop", env |-> i - 1, blen |-> b, neps |-> 0])]
                   ELSE x2
             due == b >= Start0 /\ (IF Mut = "offbyone" THEN t + 1 ELSE t) % Ui = 0
         IN Envs(IF due THEN Ups(x3, Ntimes) ELSE x3, i + 1, done, reset)
Plan(done, reset) ==
    LET x == Envs([evs |-> <<[op |-> "observe", obs |-> [i \in E |-> 50 + i], r |-> [i \in E |-> 0],
                              done |-> done, reset |-> reset]>>,
                   t |-> s.t, blen |-> s.blen, m |-> s.m, tg |-> s.tg, nup |-> s.nup], 1, done, reset)
    IN Append(x.evs, [op |-> "end", m |-> x.m, tg |-> x.tg])

ActEv == [op |-> "act", obs |-> [i \in E |-> 10 + i], a |-> [i \in E |-> i], explored |-> <<s.t>>, burnt |-> 0,
          m |-> s.m, tg |-> s.tg]
EvalEvs == << [op |-> "mode", mode |-> "eval"], [ActEv EXCEPT !.explored = <<>>],
              [op |-> "observe", obs |-> <<1>>, r |-> <<0>>, done |-> <<TRUE>>, reset |-> <<FALSE>>],
              [op |-> "end", m |-> s.m, tg |-> s.tg], [op |-> "mode", mode |-> "train"] >>
Init == /\ s = Step(C, InitState(C), [op |-> "start", m |-> <<0>>, tg |-> <<0>>, ints |-> <<>>])
        /\ todo = <<>> /\ steps = 0 /\ hist = <<>> /\ bad = "" /\ evals = 0
Issue ==
    /\ todo = <<>> /\ bad = ""
    /\ \/ s.pc = "idle" /\ steps < Steps /\ todo' = <<ActEv>> /\ UNCHANGED <<hist, evals, steps>>
       \/ /\ s.pc = "acted"
          /\ \E d, r \in [E -> BOOLEAN] :
               /\ todo' = Plan(d, r) /\ steps' = steps + 1
               /\ hist' = IF Gen THEN Append(hist, [done |-> d, reset |-> r]) ELSE hist
               /\ (Gen /\ steps' = Steps => PrintT("@@" \o ToJson(hist')))
          /\ UNCHANGED evals
       \/ evals < 1 /\ ~Gen /\ todo' = EvalEvs /\ evals' = evals + 1 /\ UNCHANGED <<hist, steps>>
    /\ UNCHANGED <<s, bad>>
Consume ==
    /\ todo # <<>> /\ bad = ""
    /\ bad' = Clause(C, s, Head(todo)) /\ s' = Step(C, s, Head(todo)) /\ todo' = Tail(todo)
    /\ UNCHANGED <<steps, hist, evals>>
Next == Issue \/ Consume
Spec == Init /\ [][Next]_<<s, todo, steps, hist, bad, evals>>
Conforms == bad = ""
\* end to end: how many updates there have been when a step is over
UpdateCount ==
    (s.pc = "idle" /\ bad = "") =>
      s.nup = Ntimes * Cardinality({ t \in 1..s.t : t % Ui = 0 /\ t >= Start0 })
\* a hard-synchronized target is the online network of the latest multiple of Tui
HardTarget ==
    (s.pc = "idle" /\ bad = "" /\ Fam = "dqn" /\ ~SoftSync /\ Mut = "") =>
      s.tg[1] = 64 * Ntimes * Cardinality({ t \in 1..(s.t) : t % Ui = 0 /\ t >= Start0 /\ t < (s.t \div Tui) * Tui })
=============================================================================
