------------------------------ MODULE LinTrace ------------------------------
(* Checks recorded concurrent histories against Store: is there an order of  *)
(* the operations, each between its call and its return, in which every      *)
(* result is the one Store gives?  Writes, and reads of the scenario's       *)
(* primary collection, take effect at one moment.  A view query must show    *)
(* every document as it was at some moment between the query's call and its  *)
(* return (C09); at rest everything is exact.  Linearization is delayed      *)
(* until a return needs it, which loses nothing.                             *)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 1..6
Idle == [on |-> FALSE, at |-> 0, lin |-> FALSE, q |-> FALSE, win |-> EmptyFn]

VARIABLES l, hd, st, pend, sum
\* sum: what was committed since the last quiescent look at the log, as
\*   bag of change lists and, per document, the sequence of del flags
vars == << l, hd, st, pend, sum >>

Ct == Trace[hd].ct
Pre == Trace[1].pre
Line == Trace[l]
NoSum == [bag |-> EmptyFn, per |-> EmptyFn, n |-> 0]

Init == /\ l = 1 /\ hd = 1 /\ st = InitStore /\ pend = [t \in Threads |-> Idle] /\ sum = NoSum
        /\ TLCSet(1, 0)

Calm(s) == [s EXCEPT !.lag = [cv \in LazyViews |-> EmptyFn], !.log = << >>]

Put0(f, k, d, F(_)) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN F(IF k \in DOMAIN f THEN f[k] ELSE d) ELSE f[x]]
RECURSIVE PerDoc(_, _)
PerDoc(per, ch) ==
  IF ch = << >> THEN per
  ELSE PerDoc(Put0(per, << ch[1].c, ch[1].id >>, << >>, LAMBDA q : Append(q, ch[1].del)), Tail(ch))
AddSum(sm, ch) == [bag |-> Put0(sm.bag, ch, 0, LAMBDA n : n + 1), per |-> PerDoc(sm.per, ch), n |-> sm.n + 1]
RECURSIVE SumOfLog(_, _, _)
SumOfLog(sm, R, i) == IF i > Len(R) THEN sm ELSE SumOfLog(AddSum(sm, R[i].ch), R, i + 1)

\* The window of a view query: per document, the versions it had since the call.
IsQ(o) == o.op = "query" /\ ~(o.c \o "." \o o.v = Trace[hd].pv)
NoWin == [x \in {} |-> {}]
WinOf(D) == [id \in DOMAIN D |-> {D[id]}]
Widen(w, D) == [id \in DOMAIN w \cup DOMAIN D |-> (IF id \in DOMAIN w THEN w[id] ELSE {Absent}) \cup {CurOr(D, id)}]

QueryWin(o, res, win) ==
  LET cv == CV(o)
      ids == DOMAIN win \cup {x.id : x \in Rng(res.r)}
      got(id) == {x \in Rng(res.r) : x.id = id}
      sel(id, d) == {x \in EntriesOf(Ct, cv, st.ev, id, d) : InSel(o.sel, Pre, x.k)}
  IN /\ res.t = "ok"
     /\ Cardinality(Rng(res.r)) = Len(res.r)
     /\ OrderedBy(res.r, o.desc, ByKey)
     /\ \A id \in ids : \E d \in (IF id \in DOMAIN win THEN win[id] ELSE {Absent}) : got(id) = sel(id, d)

IsReset == Line.e = "reset" /\ hd' = l /\ st' = InitStore /\ pend' = [t \in Threads |-> Idle] /\ sum' = NoSum /\ l' = l + 1
IsReopen == Line.e = "reopen" /\ st' = Calm(Reopen(st, Line.ev)) /\ UNCHANGED << hd, pend, sum >> /\ l' = l + 1

\* alone
IsOp ==
  /\ Line.e = "op" /\ l' = l + 1 /\ UNCHANGED << hd, pend >>
  /\ IF Line.op = "txlog"
     THEN /\ Line.res.t = "ok"
          /\ \A i \in 1..(Len(Line.res.r) - 1) : Line.res.r[i].tx < Line.res.r[i + 1].tx
          /\ SumOfLog(NoSum, Line.res.r, 1) = sum
          /\ UNCHANGED << st, sum >>
     ELSE LET x == Step([st EXCEPT !.log = << >>], Ct, Pre, Line, Line.res) IN
          /\ x.ok
          /\ st' = Calm(x.st)
          /\ sum' = IF x.st.log # << >> THEN AddSum(sum, x.st.log[1].ch) ELSE sum

IsCall ==
  /\ Line.e = "call" /\ l' = l + 1 /\ UNCHANGED << hd, st, sum >>
  /\ pend' = [pend EXCEPT ![Line.th] = [on |-> TRUE, at |-> l, lin |-> IsQ(Line), q |-> IsQ(Line), win |-> IF IsQ(Line) THEN WinOf(st.docs[Line.c]) ELSE EmptyFn]]

Wins(p, s) == [t \in Threads |-> IF p[t].q THEN [p[t] EXCEPT !.win = Widen(@, s.docs[Trace[p[t].at].c])] ELSE p[t]]

IsRet ==
  LET p == pend[Line.th] IN
  /\ Line.e = "ret" /\ p.lin
  /\ p.q => QueryWin(Trace[p.at], Trace[p.at].res, p.win)
  /\ l' = l + 1 /\ pend' = [pend EXCEPT ![Line.th] = Idle] /\ UNCHANGED << hd, st, sum >>

\* some pending operation takes effect, because the return at hand needs it
Lin ==
  /\ Line.e = "ret"
  /\ LET p == pend[Line.th] IN ~p.lin \/ (p.q /\ ~QueryWin(Trace[p.at], Trace[p.at].res, p.win))
  /\ \E t \in Threads :
       /\ pend[t].on /\ ~pend[t].lin
       /\ LET o == Trace[pend[t].at]
              x == Step([st EXCEPT !.log = << >>], Ct, Pre, o, o.res)
              s2 == Calm(x.st)
          IN /\ x.ok
             /\ st' = s2
             /\ sum' = IF x.st.log # << >> THEN AddSum(sum, x.st.log[1].ch) ELSE sum
             /\ pend' = Wins([pend EXCEPT ![t].lin = TRUE], s2)
  /\ UNCHANGED << l, hd >>

Next == l <= Len(Trace) /\ (IsReset \/ IsReopen \/ IsOp \/ IsCall \/ IsRet \/ Lin)
Spec == Init /\ [][Next]_vars

Inv == /\ UniqueOk(st, Ct) /\ UniqueEvOk(st, Ct)
       /\ (l - 1 > TLCGet(1) => TLCSet(1, l - 1))

Accepted ==
  \/ TLCGet(1) = Len(Trace)
  \/ PrintT(<< "REJECTED", TLCGet(1) + 1 >>) /\ FALSE
=============================================================================
