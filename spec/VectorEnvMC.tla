----------------------------- MODULE VectorEnvMC -----------------------------
(***************************************************************************)
(* The multi-process implementation of a vector environment: one worker per *)
(* environment with a pipe in each direction, the parent sending the        *)
(* requests of a call to all workers concerned before collecting the        *)
(* answers in order of position.  Workers run at any relative speed.  Every *)
(* completed call is judged by the rules of VectorEnv.                      *)
(***************************************************************************)
EXTENDS VectorEnv, FiniteSets, TLC, Json
CONSTANTS N, Calls, Gen, Bad
VARIABLES s, req, ans, wenv, pc, call, got, hist, bad

C == [n |-> N, dones |-> [i \in 1..N |-> <<FALSE, i % 2 = 0, FALSE>>]]
E == 1..N
vars == <<s, req, ans, wenv, pc, call, got, hist, bad>>
NoCall == [op |-> "none", mask |-> [i \in E |-> TRUE], a |-> [i \in E |-> 0]]

Init ==
    /\ s = InitState(C)
    /\ req = [i \in E |-> <<>>] /\ ans = [i \in E |-> <<>>]
    /\ wenv = s.env /\ pc = "idle" /\ call = NoCall /\ got = <<>> /\ hist = <<>> /\ bad = ""

Involved == { i \in E : call.op # "reset" \/ ~call.mask[i] }

Issue ==
    /\ pc = "idle" /\ Len(hist) < Calls
    /\ \/ \E m \in [E -> BOOLEAN] :
            /\ (hist = <<>> => \A i \in E : ~m[i])
            /\ call' = [op |-> "reset", mask |-> m, a |-> [i \in E |-> 0]]
       \/ /\ hist # <<>>
          /\ \E a \in [E -> {1, 2}] : call' = [op |-> "step", mask |-> [i \in E |-> FALSE], a |-> a]
    /\ pc' = "send" /\ got' = <<>>
    /\ UNCHANGED <<s, req, ans, wenv, hist, bad>>
Send ==   \* all requests of the call
    /\ pc = "send"
    /\ req' = [i \in E |-> IF i \in Involved THEN Append(req[i], [op |-> call.op, a |-> call.a[i]]) ELSE req[i]]
    /\ pc' = "recv"
    /\ UNCHANGED <<s, ans, wenv, call, got, hist, bad>>
Work(i) ==
    /\ req[i] # <<>>
    /\ LET q == Head(req[i])
           e == IF q.op = "reset" THEN ResetEnv(wenv[i]) ELSE StepEnv(wenv[i])
       IN /\ wenv' = [wenv EXCEPT ![i] = e]
          /\ ans' = [ans EXCEPT ![i] = Append(@, IF q.op = "reset" THEN <<Obs(i, e)>> ELSE Answer(C, i, e, q.a))]
    /\ req' = [req EXCEPT ![i] = Tail(@)]
    /\ UNCHANGED <<s, pc, call, got, hist, bad>>
\* Bad = TRUE: collect from whichever worker answers first
Recv ==
    /\ pc = "recv" /\ Len(got) < N
    /\ LET i == Len(got) + 1 IN
       IF i \notin Involved THEN /\ got' = Append(got, <<s.last[i]>>) /\ UNCHANGED ans
       ELSE \E j \in (IF Bad THEN Involved ELSE {i}) :
              /\ ans[j] # <<>>
              /\ got' = Append(got, Head(ans[j])) /\ ans' = [ans EXCEPT ![j] = Tail(@)]
    /\ UNCHANGED <<s, req, wenv, pc, call, hist, bad>>
Return ==
    /\ pc = "recv" /\ Len(got) = N
    /\ LET ev == IF call.op = "reset" THEN [op |-> "reset", mask |-> call.mask, obs |-> [i \in E |-> got[i][1]]]
                 ELSE [op |-> "step", a |-> call.a, ans |-> got]
       IN /\ bad' = Clause(C, s, ev)
          /\ s' = Step(C, s, ev)
          /\ hist' = Append(hist, call)
    /\ pc' = "idle" /\ got' = <<>> /\ call' = NoCall
    /\ (Gen /\ Len(hist') = Calls => PrintT("@@" \o ToJson(hist')))
    /\ UNCHANGED <<req, ans, wenv>>
Next == Issue \/ Send \/ Recv \/ Return \/ \E i \in E : Work(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* hist is only for generation; its length bounds the run
View == IF Gen THEN vars ELSE <<s, req, ans, wenv, pc, call, got, Len(hist), bad>>
Conforms == bad = ""
InStep == pc = "idle" => wenv = s.env
=============================================================================
