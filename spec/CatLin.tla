------------------------------- MODULE CatLin -------------------------------
(* Checks recorded histories of threads that create, delete, list and use    *)
(* databases: is there an order of the operations, each between its call and *)
(* its return, in which every result is right?  A database that is created   *)
(* again is another one: handles of the former are of no use.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 1..6
Names == {"p", "p2"}
No == [g |-> 0, d |-> {}, k |-> {}]
NoHandle == [n |-> "", g |-> 0]
Rng(s) == {s[i] : i \in DOMAIN s}

VARIABLES l, dbs, h, pend, gen
vars == << l, dbs, h, pend, gen >>
Line == Trace[l]

Idle == [at |-> 0, lin |-> FALSE]
Nothing == [n \in Names |-> No]
Init == l = 1 /\ dbs = Nothing /\ h = [t \in Threads |-> NoHandle] /\ pend = [t \in Threads |-> Idle] /\ gen = 1 /\ TLCSet(1, 0)

Can(x, b) == [ok |-> b, x |-> x]
\* x: [dbs, h, gen]
Apply(x, o, t) ==
  LET res == o.res
      there == x.dbs[o.n].g # 0
      use == o.op \in {"put", "get", "query", "kvput", "kvget", "compact"}
      n == IF use /\ o.flag = 1 THEN x.h[t].n ELSE o.n
      d == x.dbs[n]
      valid == d.g # 0 /\ (o.flag = 1 => x.h[t].g = d.g)
      same(b) == Can(x, b)
  IN CASE o.op = "create" ->
            IF there THEN same(res.t = IF o.flag = 1 THEN "ok" ELSE "taken")
            ELSE Can([x EXCEPT !.dbs[o.n] = [No EXCEPT !.g = x.gen], !.gen = @ + 1], res.t = "ok")
       [] o.op = "delete" -> IF there THEN Can([x EXCEPT !.dbs[o.n] = No], res.t = "ok") ELSE same(res.t = "notfound")
       [] o.op = "list" -> same(res.t = "ok" /\ Len(res.r) = Cardinality(Rng(res.r)) /\ Rng(res.r) = {m \in Names : x.dbs[m].g # 0})
       [] o.op = "open" -> IF there THEN Can([x EXCEPT !.h[t] = [n |-> o.n, g |-> x.dbs[o.n].g]], res.t = "ok") ELSE same(res.t = "notfound")
       [] use /\ ~valid -> same(res.t = "notfound")
       [] o.op = "put" /\ valid -> IF o.id \in d.d THEN same(res.t = "conflict") ELSE Can([x EXCEPT !.dbs[n].d = @ \cup {o.id}], res.t = "ok")
       [] o.op = "get" /\ valid -> same(res.t = "ok" /\ Rng(res.r) = d.d /\ Len(res.r) = Cardinality(d.d))
       [] o.op = "query" /\ valid -> same(res.t = "ok" /\ Len(res.r) = Cardinality(Rng(res.r))
                                          /\ IF o.e = "op" THEN Rng(res.r) = d.d ELSE Rng(res.r) \subseteq d.d)
       [] o.op = "kvput" /\ valid -> Can([x EXCEPT !.dbs[n].k = @ \cup {o.id}], res.t = "ok")
       [] o.op = "kvget" /\ valid -> same(res.t = "ok" /\ res.n = IF o.id \in d.k THEN 1 ELSE -1)
       [] o.op = "compact" /\ valid -> same(res.t = "ok")

Now == [dbs |-> dbs, h |-> h, gen |-> gen]
Becomes(x) == dbs' = x.dbs /\ h' = x.h /\ gen' = x.gen

IsReset == Line.e = "reset" /\ l' = l + 1 /\ dbs' = Nothing /\ h' = [t \in Threads |-> NoHandle] /\ pend' = [t \in Threads |-> Idle] /\ gen' = 1
IsRest == Line.e = "rest" /\ l' = l + 1 /\ h' = [t \in Threads |-> NoHandle] /\ UNCHANGED << dbs, pend, gen >>
IsFs == Line.e = "fs" /\ l' = l + 1 /\ Rng(Line.dirs) \subseteq {n \in Names : dbs[n].g # 0} /\ UNCHANGED << dbs, h, pend, gen >>
IsOp == Line.e = "op" /\ l' = l + 1 /\ UNCHANGED pend
        /\ LET y == Apply(Now, Line, Line.th) IN y.ok /\ Becomes(y.x)
IsCall == Line.e = "call" /\ l' = l + 1 /\ pend' = [pend EXCEPT ![Line.th] = [at |-> l, lin |-> FALSE]] /\ UNCHANGED << dbs, h, gen >>
IsRet == Line.e = "ret" /\ pend[Line.th].lin /\ l' = l + 1 /\ pend' = [pend EXCEPT ![Line.th] = Idle] /\ UNCHANGED << dbs, h, gen >>
Lin == /\ Line.e = "ret" /\ ~pend[Line.th].lin
       /\ \E t \in Threads :
            /\ pend[t].at > 0 /\ ~pend[t].lin
            /\ LET y == Apply(Now, Trace[pend[t].at], t) IN y.ok /\ Becomes(y.x)
            /\ pend' = [pend EXCEPT ![t].lin = TRUE]
       /\ UNCHANGED l

Next == l <= Len(Trace) /\ (IsReset \/ IsRest \/ IsFs \/ IsOp \/ IsCall \/ IsRet \/ Lin)
Spec == Init /\ [][Next]_vars

Inv == l - 1 > TLCGet(1) => TLCSet(1, l - 1)
Accepted ==
  \/ TLCGet(1) = Len(Trace)
  \/ PrintT(<< "REJECTED", TLCGet(1) + 1 >>) /\ FALSE
=============================================================================
