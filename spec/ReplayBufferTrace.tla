-------------------------- MODULE ReplayBufferTrace -------------------------
EXTENDS ReplayBuffer, TraceShell

Start(c) == InitState(c)

After(c, st, ev) ==
    CASE ev.op = "append" -> DoAppend(c, st, ev.env, ev.t)
      [] ev.op = "stop"   -> DoStop(c, st, ev.env)
      [] ev.op = "reload" -> DoReload(c, st)
      [] OTHER            -> st

Verdict(c, st, ev) ==
    CASE ev.op \in {"append", "stop", "reload"} ->
            IF ev.len # Len(After(c, st, ev).mem) THEN "wrong-number-of-entries" ELSE ""
      [] ev.op = "sample" ->
            IF Len(ev.res) # ev.k THEN "sample-wrong-size"
            ELSE IF \E i \in 1..Len(ev.res) : \A j \in 1..Len(st.mem) : st.mem[j] # ev.res[i]
                 THEN "sampled-entry-not-stored"
            ELSE IF ~Distinct(ev.res) THEN "sample-has-duplicates" ELSE ""
      [] ev.op = "freq" ->       \* uniform sampling, 6 sigma
            IF \E i \in 1..Len(st.mem) :
                  LET hits == { j \in 1..Len(ev.cnt) : ev.cnt[j].st = st.mem[i][1].st }
                      got  == IF hits = {} THEN 0 ELSE ev.cnt[CHOOSE j \in hits : TRUE].n
                      m    == Len(st.mem)
                      dev  == got * m - ev.draws * ev.k
                  IN (dev \div 4) * (dev \div 4) > 3 * ev.draws * ev.k * (m - ev.k)
            THEN "sampling-not-uniform" ELSE ""
      [] OTHER -> "unknown-event"

=============================================================================
