----------------------------- MODULE CrashTrace -----------------------------
(* Checks recorded executions that stop, and go on from what was left in the  *)
(* storage's folder, against Store.  A `call' line carries an operation and   *)
(* the result it returned, if it returned; a `crash' line leaves the main     *)
(* execution for one that opens the folder as it was at that moment, and      *)
(* `back' returns to it.  What a stopped execution leaves is its state, or,   *)
(* while an operation was being performed, the state after that operation.    *)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, hd, st, pend, main
vars == << l, hd, st, pend, main >>

Ct == Trace[hd].ct
Pre == Trace[1].pre
Nowhere == [on |-> FALSE]

Init == l = 1 /\ hd = 1 /\ st = InitStore /\ pend = 0 /\ main = Nowhere

Line == Trace[l]
After(s, i) == Step(s, Ct, Pre, Trace[i], Trace[i].res)

\* what a reader of the transaction log has seen is kept, what it was told of the
\* ids still to come (transactions never committed) is not
Found(s, ev) == Reopen([s EXCEPT !.last = -1, !.bump = FALSE], ev)

IsReset == Line.e = "reset" /\ hd' = l /\ st' = InitStore /\ pend' = 0 /\ main' = Nowhere
IsAt == Line.e = "at" /\ UNCHANGED << hd, st, pend, main >>
IsReopen == Line.e = "reopen" /\ pend = 0 /\ st' = Reopen(st, Line.ev) /\ UNCHANGED << hd, pend, main >>
IsCall == Line.e = "call" /\ pend = 0 /\ pend' = l /\ UNCHANGED << hd, st, main >>
IsRet == Line.e = "ret" /\ pend > 0 /\ pend' = 0 /\ UNCHANGED << hd, main >>
         /\ LET x == After(st, pend) IN x.ok /\ st' = x.st
IsCrash == /\ Line.e = "crash" /\ pend' = 0 /\ hd' = hd
           /\ main' = IF main.on THEN main ELSE [on |-> TRUE, st |-> st, pend |-> pend]
           /\ \/ st' = Found(st, Line.ev)
              \/ pend > 0 /\ LET x == After(st, pend) IN x.ok /\ st' = Found(x.st, Line.ev)
IsBack == Line.e = "back" /\ main.on /\ st' = main.st /\ pend' = main.pend /\ main' = Nowhere /\ hd' = hd

Next == l <= Len(Trace) /\ l' = l + 1
        /\ (IsReset \/ IsAt \/ IsReopen \/ IsCall \/ IsRet \/ IsCrash \/ IsBack)
Spec == Init /\ [][Next]_vars

Inv == UniqueOk(st, Ct) /\ UniqueEvOk(st, Ct) /\ LogOk(st)

Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
