------------------------------- MODULE Access -------------------------------
(* Who may do what.  A permission set is a sequence of groups of statements;  *)
(* a statement names a resource, a path with wildcards that also stands for   *)
(* everything below it, and actions, paths that also stand for everything     *)
(* below them.  Something is allowed exactly if a statement allows it.        *)
EXTENDS Integers, Sequences, TLC

PrefixOf(p, s, same(_, _)) == Len(p) <= Len(s) /\ \A i \in DOMAIN p : same(p[i], s[i])
ResMatch(a, b) == a = "*" \/ a = b
ActMatch(a, b) == a = b
Allowed(P, res, act) ==
  \E g \in DOMAIN P : \E s \in DOMAIN P[g] :
    /\ PrefixOf(P[g][s].res, res, ResMatch)
    /\ \E a \in DOMAIN P[g][s].act : PrefixOf(P[g][s].act[a], act, ActMatch)

(***************************************************************************)
(* What operations on a database need.                                     *)
(***************************************************************************)
Root == << "bonsaidb" >>
DbRes(db) == << "bonsaidb", db >>
CollRes(db, c) == << "bonsaidb", db, c >>
DocRes(db, c, id) == << "bonsaidb", db, c, "document", "#" \o ToString(id) >>
ViewRes(db, c, v) == << "bonsaidb", db, c, "view", v >>
TopicRes(db, topic) == << "bonsaidb", db, "pubsub", topic >>
KvRes(db) == << "bonsaidb", db, "keyvalue" >>
KeyRes(db, ns, key) == << "bonsaidb", db, "keyvalue", ns, key >>

DocAct(a) == << "Database", "Document", a >>
ViewAct(a) == << "Database", "View", a >>
LogAct(a) == << "Database", "Transaction", a >>
PsAct(a) == << "Database", "PubSub", a >>
KvAct == << "Database", "KeyValue", "ExecuteOperation" >>
CompactAct == << "Database", "Compact" >>

MayGet(P, db, c, id) == Allowed(P, DocRes(db, c, id), DocAct("Get"))
MayTx(P, db, o) ==
  CASE o.k = "ins" -> Allowed(P, CollRes(db, o.c), DocAct("Insert"))
    [] o.k = "upd" -> Allowed(P, DocRes(db, o.c, o.id), DocAct("Update"))
    [] o.k = "ovr" -> Allowed(P, DocRes(db, o.c, o.id), DocAct("Overwrite"))
    [] o.k = "del" -> Allowed(P, DocRes(db, o.c, o.id), DocAct("Delete"))
    [] o.k = "chk" -> MayGet(P, db, o.c, o.id)

\* what the operation needs apart from rights on the documents a view selects
MayStart(P, db, o) ==
  CASE o.op = "tx" -> \A i \in DOMAIN o.ops : MayTx(P, db, o.ops[i])
    [] o.op = "get" -> MayGet(P, db, o.c, o.id)
    [] o.op = "getmulti" -> \A i \in DOMAIN o.ids : MayGet(P, db, o.c, o.ids[i])
    [] o.op \in {"list", "listpre"} ->
         Allowed(P, CollRes(db, o.c), DocAct(CASE o.kind = "docs" -> "List" [] o.kind = "headers" -> "ListHeaders" [] OTHER -> "Count"))
    [] o.op = "query" -> Allowed(P, ViewRes(db, o.c, o.v), ViewAct("Query"))
    [] o.op \in {"reduce", "grouped"} -> Allowed(P, ViewRes(db, o.c, o.v), ViewAct("Reduce"))
    [] o.op = "delview" -> Allowed(P, ViewRes(db, o.c, o.v), ViewAct("Query"))
    [] o.op = "txlog" -> Allowed(P, DbRes(db), LogAct("ListExecuted"))
    [] o.op = "lasttx" -> Allowed(P, DbRes(db), LogAct("GetLastId"))
    [] o.op = "compact" ->
         Allowed(P, CASE o.what = "all" -> DbRes(db) [] o.what = "kv" -> KvRes(db) [] OTHER -> CollRes(db, o.what), CompactAct)
=============================================================================
