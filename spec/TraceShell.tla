----------------------------- MODULE TraceShell -----------------------------
(***************************************************************************)
(* The shell in which every recorded execution of the real code is checked *)
(* against a subsystem specification.  A trace is [cfg, events].  The      *)
(* subsystem gives its initial state for a configuration (TInit), the      *)
(* verdict on an event in a state (TVerdict: "" or the name of the violated*)
(* clause) and the successor state (TApply); these are the same operators  *)
(* from which the subsystem's own Next is built.  The verdict is total:    *)
(* every event is either consumed or reported.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TVerdict(_, _, _), TApply(_, _, _)
VARIABLES tid, l, err, s

Traces == ndJsonDeserialize(IOEnv.VTRACE)

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ err = ""
    /\ s = TInit(Traces[tid].cfg)

TraceNext ==
    /\ err = ""
    /\ l <= Len(Traces[tid].events)
    /\ LET ev == Traces[tid].events[l]
           c  == Traces[tid].cfg
           v  == IF ev.op = "raised" THEN "raised" ELSE TVerdict(c, s, ev)
       IN  IF v = ""
           THEN /\ s' = TApply(c, s, ev)
                /\ l' = l + 1
                /\ UNCHANGED <<tid, err>>
           ELSE /\ PrintT(<<"MISMATCH", tid, l, v>>)
                /\ err' = v
                /\ UNCHANGED <<tid, l, s>>

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, err, s>>
NoErr == err = ""
TraceView == <<tid, l, err>>
=============================================================================
