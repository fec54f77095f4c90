----------------------------- MODULE StoreTrace -----------------------------
(* Checks recorded sequential executions against Store.  Many executions,   *)
(* each starting with a "reset" line, are checked in one run.               *)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, hd, st
vars == << l, hd, st >>

Ct == Trace[hd].ct
Pre == Trace[1].pre

Init == l = 1 /\ hd = 1 /\ st = InitStore

Line == Trace[l]

IsReset == Line.e = "reset" /\ hd' = l /\ st' = InitStore
IsReopen == Line.e = "reopen" /\ hd' = hd /\ st' = Reopen(st, Line.ev)
IsOp == /\ Line.e = "op"
        /\ hd' = hd
        /\ LET x == Step(st, Ct, Pre, Line, Line.res) IN x.ok /\ st' = x.st

Next == l <= Len(Trace) /\ l' = l + 1 /\ (IsReset \/ IsReopen \/ IsOp)
Spec == Init /\ [][Next]_vars

Inv == UniqueOk(st, Ct) /\ UniqueEvOk(st, Ct) /\ LogOk(st)

Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
