----------------------------- MODULE AccessTrace -----------------------------
(* Checks programs whose operations run with different rights: an operation   *)
(* either is allowed and does what Store, KV and the topics say, or it is     *)
(* denied, which changes nothing.  Two databases with the same collections.   *)
EXTENDS Store, Access, Json, IOUtils

K == INSTANCE KV
Trace == ndJsonDeserialize(IOEnv.TRACE)
Dbs == {"main", "other"}

VARIABLES l, hd, perms, st, kv, subs
vars == << l, hd, perms, st, kv, subs >>
Line == Trace[l]
Ct == Trace[hd].ct
Pre == Trace[1].pre
Denied == [t |-> "denied"]

Empty == /\ perms' = << >> /\ st' = [db \in Dbs |-> InitStore]
         /\ kv' = [db \in Dbs |-> EmptyFn] /\ subs' = << >>
Init == /\ l = 1 /\ hd = 1 /\ perms = << >> /\ st = [db \in Dbs |-> InitStore]
        /\ kv = [db \in Dbs |-> EmptyFn] /\ subs = << >>

IsReset == Line.e = "reset" /\ hd' = l /\ Empty
IsPerms == Line.e = "perms" /\ perms' = Append(perms, Line.g) /\ UNCHANGED << hd, st, kv, subs >>

\* documents a view may show to the operation
Candidates(s, o) ==
  {id \in DOMAIN s.docs[o.c] \cup (IF CV(o) \in LazyViews THEN DOMAIN s.lag[CV(o)] ELSE {}) :
     \E d \in (IF Exact(s, CV(o), o.pol) THEN {CurOr(s.docs[o.c], id)} ELSE LagSet(s, o.c, CV(o), id)) :
       \E x \in EntriesOf(Ct, CV(o), s.ev, id, d) : InSel(o.sel, Pre, x.k)}
Selected(s, o) == {x.id : x \in {y \in Entries(s, Ct, o.c, CV(o)) : InSel(o.sel, Pre, y.k)}}

MayRest(P, db, s, o, res) ==
  CASE o.op = "query" /\ o.docs > 0 ->
         IF res.t = "ok" THEN \A x \in Rng(res.r) : MayGet(P, db, o.c, x.id)
         ELSE o.lim = 0 \/ ~(\E id \in Candidates(s, o) : ~MayGet(P, db, o.c, id))
    [] o.op = "delview" -> \A id \in Selected(s, o) : Allowed(P, DocRes(db, o.c, id), DocAct("Delete"))
    [] OTHER -> TRUE

IsOp ==
  /\ Line.e = "op"
  /\ LET s == st[Line.db]
         P == perms[Line.p]
         may == MayStart(P, Line.db, Line) /\ MayRest(P, Line.db, s, Line, Line.res)
     IN IF may THEN LET x == Step(s, Ct, Pre, Line, Line.res) IN x.ok /\ st' = [st EXCEPT ![Line.db] = x.st]
        ELSE Line.res = Denied /\ st' = st
  /\ UNCHANGED << hd, perms, kv, subs >>

IsKv ==
  /\ Line.e = "kv"
  /\ IF Allowed(perms[Line.p], KeyRes(Line.db, Line.ns, Line.key), KvAct)
     THEN \E s \in K!KvSteps(kv[Line.db], Line, Line.res) : kv' = [kv EXCEPT ![Line.db] = s]
     ELSE Line.res = Denied /\ kv' = kv
  /\ UNCHANGED << hd, perms, st, subs >>

\* subs[i]: what subscriber i is subscribed to; a refused one gets no number
IsSubNew ==
  /\ Line.e = "subnew"
  /\ IF Allowed(perms[Line.p], DbRes(Line.db), PsAct("CreateSuscriber"))
     THEN Line.res.t = "ok" /\ Line.s = Len(subs) + 1 /\ subs' = Append(subs, [p |-> Line.p, db |-> Line.db, topics |-> {}])
     ELSE Line.res = Denied /\ subs' = subs
  /\ UNCHANGED << hd, perms, st, kv >>
IsSub ==
  /\ Line.e = "sub"
  /\ LET x == subs[Line.s] IN
     IF Allowed(perms[x.p], TopicRes(x.db, Line.topic), PsAct(IF Line.on = 1 THEN "SubscribeTo" ELSE "UnsubscribeFrom"))
     THEN /\ Line.res.t = "ok"
          /\ subs' = [subs EXCEPT ![Line.s].topics = IF Line.on = 1 THEN @ \cup {Line.topic} ELSE @ \ {Line.topic}]
     ELSE Line.res = Denied /\ subs' = subs
  /\ UNCHANGED << hd, perms, st, kv >>
\* got[i]: the topics of the messages subscriber i received
IsPub ==
  /\ Line.e = "pub"
  /\ LET may == \A i \in DOMAIN Line.topics : Allowed(perms[Line.p], TopicRes(Line.db, Line.topics[i]), PsAct("Publish"))
         due(i) == IF may /\ subs[i].db = Line.db THEN SelectSeq(Line.topics, LAMBDA t : t \in subs[i].topics) ELSE << >>
     IN /\ Line.res = IF may THEN [t |-> "ok"] ELSE Denied
        /\ \A i \in DOMAIN subs : Line.got[i] = due(i)
  /\ UNCHANGED << hd, perms, st, kv, subs >>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (IsReset \/ IsPerms \/ IsOp \/ IsKv \/ IsSubNew \/ IsSub \/ IsPub)
Spec == Init /\ [][Next]_vars
Inv == \A db \in Dbs : UniqueOk(st[db], Ct) /\ LogOk(st[db])
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
