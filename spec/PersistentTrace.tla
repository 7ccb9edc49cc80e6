---------------------------- MODULE PersistentTrace ----------------------------
EXTENDS Persistent, TraceShell
\* s = [dirs, d (open directory, 0 none), q (contents of the open queue)]
Start(c) == [dirs |-> InitDirs(c.ndirs), d |-> 0, q |-> << >>]
Cap(ev) == ev.cap
After(c, st, ev) ==
    CASE ev.op = "open" ->
            LET a == ev.anc
                d1 == Settle(ev.cap, st.dirs, ev.d, a, ev.got)
            IN [dirs |-> Create(d1, ev.d, a), d |-> ev.d, q |-> ev.got]
      [] ev.op = "append" ->
            [st EXCEPT !.dirs[st.d].log = Append(@, ev.x), !.q = KeepNewest(ev.cap, Append(@, ev.x))]
      [] ev.op = "extend" ->
            [st EXCEPT !.dirs[st.d].log = @ \o ev.xs, !.q = KeepNewest(ev.cap, @ \o ev.xs)]
      \* the process died; ev.xs: items whose append had begun, not returned;
      \* ev.d/ev.anc: the session being opened or used
      [] ev.op = "crash" ->
            [st EXCEPT !.dirs = IF ev.made THEN [Create(@, ev.d, ev.anc) EXCEPT ![ev.d].maybe = ev.xs] ELSE @,
                       !.d = 0, !.q = << >>]
      [] ev.op = "close" -> [st EXCEPT !.d = 0, !.q = << >>]
      [] OTHER -> st
Verdict(c, st, ev) ==
    CASE ev.op = "open" ->
            IF ev.got \in OpenContents(ev.cap, st.dirs, ev.d, ev.anc) THEN ""
            ELSE IF \E i, j \in 1..Len(ev.got) : i # j /\ ev.got[i] = ev.got[j]
                 THEN "recovered-duplicates" ELSE "recovered-contents"
      [] ev.op \in {"append", "extend"} ->
            IF ev.got # After(c, st, ev).q THEN "contents-after-append" ELSE ""
      [] ev.op = "crash" -> ""
      [] ev.op = "close" -> ""
      [] ev.op = "damaged" ->   \* one byte of stored data was flipped: never
                                \* returned as data; prefix or refusal only
            IF ev.refused THEN ""
            ELSE IF \A i \in 1..Len(ev.got) : \E j \in 1..Len(st.dirs[ev.d].log) :
                        ev.got[i] = st.dirs[ev.d].log[j] THEN "" ELSE "damaged-item-returned"
      [] OTHER -> "unknown-event"
=============================================================================
