------------------------------ MODULE CatTrace ------------------------------
(* Checks recorded executions of one storage against Catalog, including ones *)
(* that stop (see CrashTrace).  An `fs' line says what is in the storage's   *)
(* folder: the folders of databases it holds (`left' is 1 if the databases   *)
(* are kept in memory), and whether anything else in or around it changed.   *)
EXTENDS Catalog, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, hd, dbs, pend, main
vars == << l, hd, dbs, pend, main >>

Ct == Trace[hd].ct
Pre == Trace[1].pre
Nowhere == [on |-> FALSE]
Line == Trace[l]

Init == l = 1 /\ hd = 1 /\ dbs = NoDbs /\ pend = 0 /\ main = Nowhere

After(d, i) == CatStep(d, Ct, Pre, Trace[i], Trace[i].res)
Found(d) == [n \in DOMAIN d |-> [d[n] EXCEPT !.st.last = -1, !.st.bump = FALSE]]

IsReset == Line.e = "reset" /\ hd' = l /\ dbs' = NoDbs /\ pend' = 0 /\ main' = Nowhere
IsNote == Line.e \in {"at", "reopen"} /\ UNCHANGED << hd, dbs, pend, main >>
IsFs == /\ Line.e = "fs" /\ pend = 0 /\ UNCHANGED << hd, dbs, pend, main >>
        /\ Line.outside = 1 /\ Line.own = 1
        /\ Line.left = 1 \/ Rng(Line.dirs) \subseteq DOMAIN dbs
IsCall == Line.e = "call" /\ pend = 0 /\ pend' = l /\ UNCHANGED << hd, dbs, main >>
IsRet == Line.e = "ret" /\ pend > 0 /\ pend' = 0 /\ UNCHANGED << hd, main >>
         /\ LET x == After(dbs, pend) IN x.ok /\ dbs' = x.dbs
IsCrash == /\ Line.e = "crash" /\ pend' = 0 /\ hd' = hd
           /\ main' = IF main.on THEN main ELSE [on |-> TRUE, dbs |-> dbs, pend |-> pend]
           /\ \/ dbs' = Found(dbs)
              \/ pend > 0 /\ LET x == After(dbs, pend) IN x.ok /\ dbs' = Found(x.dbs)
IsBack == Line.e = "back" /\ main.on /\ dbs' = main.dbs /\ pend' = main.pend /\ main' = Nowhere /\ hd' = hd

Next == l <= Len(Trace) /\ l' = l + 1
        /\ (IsReset \/ IsNote \/ IsFs \/ IsCall \/ IsRet \/ IsCrash \/ IsBack)
Spec == Init /\ [][Next]_vars

Inv == \A n \in DOMAIN dbs : UniqueOk(dbs[n].st, Ct) /\ LogOk(dbs[n].st)

Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
