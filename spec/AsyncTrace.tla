---------------------------- MODULE AsyncTrace ----------------------------
EXTENDS Async, TraceShell
Start(c) == InitState(c)
After(c, st, ev) == Step(c, st, ev)
Verdict(c, st, ev) == Clause(c, st, ev)
=============================================================================
