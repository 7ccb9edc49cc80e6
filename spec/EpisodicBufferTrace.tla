------------------------- MODULE EpisodicBufferTrace -------------------------
EXTENDS EpisodicBuffer, TraceShell
Start(c) == InitState(c)
After(c, st, ev) ==
    CASE ev.op = "append" -> DoAppend(c, st, ev.env, ev.t)
      [] ev.op = "stop"   -> DoStop(c, st, ev.env)
      [] ev.op = "reload" -> DoReload(c, st)
      [] OTHER            -> st
Verdict(c, st, ev) ==
    CASE ev.op \in {"append", "stop", "reload"} ->
            LET n == After(c, st, ev)
            IN IF ev.neps # Len(n.eps) THEN "wrong-number-of-episodes"
               ELSE IF ev.len # Total(n.eps) THEN "wrong-number-of-transitions" ELSE ""
      [] ev.op = "sample" ->
            IF Len(ev.res) # ev.k THEN "sample-wrong-size"
            ELSE IF \E i \in 1..Len(ev.res) : Len(ev.res[i]) # 1
                 THEN "sampled-entry-is-not-one-transition"
            ELSE IF \E i \in 1..Len(ev.res) : ev.res[i][1] \notin Transitions(st)
                 THEN "sampled-transition-not-of-a-stored-episode"
            ELSE IF \E i, j \in 1..Len(ev.res) : i # j /\ ev.res[i] = ev.res[j]
                 THEN "sample-has-duplicates" ELSE ""
      [] ev.op = "parts" ->
            LET drawn == { ev.res[i] : i \in 1..Len(ev.res) }
                all == UNION { LET e == st.eps[j]
                                   n == IF ev.limit < Len(e) THEN ev.limit ELSE Len(e)
                               IN { SubSeq(e, i + 1, i + n) : i \in 0..(Len(e) - n) } : j \in 1..Len(st.eps) }
            IN IF ~(drawn \subseteq all) THEN "sampled-episode-not-a-part-of-a-stored-one"
               ELSE IF drawn # all THEN "part-of-an-episode-never-drawn" ELSE ""
      [] ev.op = "episodes" ->
            IF Len(ev.res) # ev.k THEN "episode-sample-wrong-size"
            ELSE IF \E i \in 1..ev.k : \A j \in 1..Len(st.eps) :
                        ~PartOf(ev.res[i], st.eps[j], ev.limit)
                 THEN "sampled-episode-not-a-part-of-a-stored-one"
            ELSE IF \E i, j \in 1..ev.k : i # j /\
                      \E m \in 1..Len(st.eps) : /\ PartOf(ev.res[i], st.eps[m], ev.limit)
                                                /\ PartOf(ev.res[j], st.eps[m], ev.limit)
                 THEN "same-episode-sampled-twice" ELSE ""
      [] OTHER -> "unknown-event"
=============================================================================
