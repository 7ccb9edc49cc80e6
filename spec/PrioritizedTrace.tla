--------------------------- MODULE PrioritizedTrace ---------------------------
EXTENDS Prioritized, TraceShell
Start(c) == InitState(c)
Abs(x) == IF x < 0 THEN -x ELSE x

Prios(c, ev) == IF c.level = "core" THEN ev.ps
                ELSE [k \in 1..Len(ev.errs) |-> PriorityOf(c, ev.errs[k])]

After(c, st, ev) ==
    CASE ev.op = "append" -> DoAppend(c, st, ev.v, ev.p)
      [] ev.op = "pop"    -> PopFront(st)
      [] ev.op = "sample" -> DoSample(c, st, ev.vals)
      [] ev.op = "set"    -> DoSet(c, st, Prios(c, ev))
      [] OTHER            -> st

\* reported probabilities, scaled by c.scale
ProbOK(c, st, v, pr) ==
    LET d == ProbDen(c, st) IN Abs(pr * d - ProbNum(c, st, POf(st, v)) * c.scale) <= d

\* weights scaled by 512; exponent b quarters; reference numerator m
WeightOK(c, st, v, w, b, vals) ==
    LET num  == IF c.u = 0 THEN POf(st, v) ELSE ProbNum(c, st, POf(st, v))
        Num(x) == IF c.u = 0 THEN POf(st, x) ELSE ProbNum(c, st, POf(st, x))
        all  == { IF c.u = 0 THEN st.items[i].p ELSE ProbNum(c, st, st.items[i].p)
                    : i \in 1..Len(st.items) }
        bat  == { Num(vals[i]) : i \in 1..Len(vals) }
        MinS(S) == CHOOSE m \in S : \A x \in S : m <= x
        \* w^(4/b) = ref / sub
        ref  == IF c.norm = "batch" THEN MinS(bat) ELSE IF c.norm = "memory" THEN MinS(all)
                ELSE (IF c.u = 0 THEN SumP(st.items) ELSE ProbDen(c, st))
        sub  == IF c.norm = "none" THEN num * Len(st.items) ELSE num
    IN CASE b = 0 -> Abs(w - 512) <= 1
         [] b = 4 -> Abs(w * sub - 512 * ref) <= 2 * sub
         [] b = 2 /\ c.u = 0 -> Abs(w * w * sub - 262144 * ref) <= (3 * w + 3) * sub
         [] OTHER -> w >= 0

Verdict(c, st, ev) ==
    CASE ev.op \in {"append", "pop"} ->
            IF ev.len # Len(After(c, st, ev).items) THEN "wrong-length"
            ELSE IF ev.op = "pop" /\ ev.ret # Head(st.items).v THEN "popped-wrong-item" ELSE ""
      [] ev.op = "sample" ->
            IF Len(ev.vals) # ev.k THEN "sample-wrong-size"
            ELSE IF \E i \in 1..ev.k : ~Has(st, ev.vals[i]) THEN "sampled-item-not-stored"
            ELSE IF \E i, j \in 1..ev.k : i # j /\ ev.vals[i] = ev.vals[j] THEN "duplicates"
            ELSE IF \E i \in 1..Len(ev.probs) : ~ProbOK(c, st, ev.vals[i], ev.probs[i])
                 THEN "probability"
            ELSE IF /\ Len(ev.probs) > 0
                    /\ LET d == ProbDen(c, st)
                       IN Abs(ev.minp * d - ProbNum(c, st, MinP(st.items)) * c.scale) > d
                 THEN "min-probability"
            ELSE IF \E i \in 1..Len(ev.weights) :
                       ~WeightOK(c, st, ev.vals[i], ev.weights[i], BetaQ(c, st.draws), ev.vals)
                 THEN "importance-weight"
            ELSE ""
      [] ev.op = "set" -> IF Len(Prios(c, ev)) # Len(st.samp) THEN "set-size" ELSE ""
      [] ev.op = "freq1" ->     \* single draws in proportion to priority, ~7 sigma
            LET T == SumP(st.items)
            IN IF \E i \in 1..Len(st.items) :
                   LET h == { j \in 1..Len(ev.cnt) : ev.cnt[j].v = st.items[i].v }
                       got == IF h = {} THEN 0 ELSE ev.cnt[CHOOSE j \in h : TRUE].n
                       num == ProbNum(c, st, st.items[i].p)
                       den == ProbDen(c, st)
                       \* compare got/draws with num/den in 1/1024
                       q   == (num * 1024) \div den
                       dev == got * 1024 - ev.draws * q
                   IN (Max2(Abs(dev) - ev.draws, 0) \div 256) * (Max2(Abs(dev) - ev.draws, 0) \div 256) * 64
                        > 49 * ev.draws * (((q + 2) * (1026 - q)) \div 1024)
               THEN "draw-frequency" ELSE ""
      [] ev.op = "freq2" ->     \* pairs without replacement
            LET T == SumP(st.items)
            IN IF \E i, j \in 1..Len(st.items) : i < j /\
                   LET h == { m \in 1..Len(ev.cnt) : /\ ev.cnt[m].a = st.items[i].v
                                                     /\ ev.cnt[m].b = st.items[j].v }
                       got == IF h = {} THEN 0 ELSE ev.cnt[CHOOSE m \in h : TRUE].n
                       pi == st.items[i].p   pj == st.items[j].p
                       S == T * (T - pi) * (T - pj)
                       num == pi * pj * (2 * T - pi - pj)
                       q == (num * 1024) \div S
                       dev == got * 1024 - ev.draws * q
                   IN (Max2(Abs(dev) - ev.draws, 0) \div 256) * (Max2(Abs(dev) - ev.draws, 0) \div 256) * 64
                        > 49 * ev.draws * (((q + 2) * (1026 - q)) \div 1024)
               THEN "pair-frequency" ELSE ""
      [] OTHER -> "unknown-event"
=============================================================================
