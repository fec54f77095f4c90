----------------------------- MODULE BackupTrace -----------------------------
(* A storage is a function from the names of its databases to their contents: *)
(* the schema, the documents (collection, id -> content), and the keys (key   *)
(* -> value and expiration).  A backup of a database is its contents at       *)
(* moments between the call and the return, collection by collection;         *)
(* restoring adds the databases of the backup to those there are.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hd, st, adm, saved, loose
vars == << l, hd, st, adm, saved, loose >>
Line == Trace[l]
Ct == Trace[hd].ct
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rng(s) == {s[i] : i \in DOMAIN s}

Empty(s) == [s |-> s, docs |-> << >>, kv |-> << >>]
NoAdmin == [docs |-> {}, names |-> {}]
Colls(s) == IF s = "full" THEN {"r", "w", "z"} ELSE IF s = "two" THEN {"r", "w"} ELSE {}

Apply(d, op) ==
  CASE op.o = "put" -> [d EXCEPT !.docs = Put(@, << op.c, op.id >>, op.ct)]
    [] op.o = "del" -> [d EXCEPT !.docs = Drop(@, {<< op.c, op.id >>})]
    [] op.o = "set" -> [d EXCEPT !.kv = Put(@, op.k, [v |-> op.v, exp |-> op.exp])]
    [] op.o = "unset" -> [d EXCEPT !.kv = Drop(@, {op.k})]
States(d, ops) == LET f[i \in 1..Len(ops) + 1] == IF i = 1 THEN d ELSE Apply(f[i - 1], ops[i - 1]) IN [i \in 1..Len(ops) + 1 |-> f[i]]

\* `loose': the states a restored database may be in: the name -> sequence of states that
\* its collections and its keys may each be taken from
Init == l = 1 /\ hd = 1 /\ st = << >> /\ adm = NoAdmin /\ saved = << >> /\ loose = << >>

IsReset == Line.e = "reset" /\ hd' = l /\ st' = << >> /\ adm' = NoAdmin /\ saved' = << >> /\ loose' = << >>
IsCreate == Line.e = "create" /\ Line.n \notin DOMAIN st /\ st' = Put(st, Line.n, Empty(Line.s)) /\ UNCHANGED << hd, adm, saved, loose >>
IsDelete == Line.e = "delete" /\ Line.n \in DOMAIN st /\ st' = Drop(st, {Line.n}) /\ UNCHANGED << hd, adm, saved, loose >>
IsAdmin == Line.e = "admin" /\ adm' = [docs |-> Rng(Line.admin.docs), names |-> Rng(Line.admin.names)] /\ UNCHANGED << hd, st, saved, loose >>
IsOp == Line.e = "op" /\ Line.n \in DOMAIN st /\ Line.n \notin DOMAIN loose
        /\ st' = [st EXCEPT ![Line.n] = Apply(@, Line.op)] /\ UNCHANGED << hd, adm, saved, loose >>
IsBackup ==
  /\ Line.e = "backup" /\ Line.res.t = "ok"
  /\ LET all == [n \in DOMAIN st |-> IF n = Line.n THEN States(st[n], Line.during) ELSE << st[n] >>]
     IN saved' = [dbs |-> all, adm |-> adm] /\ st' = [n \in DOMAIN st |-> all[n][Len(all[n])]]
  /\ UNCHANGED << hd, adm, loose >>
IsFresh == Line.e = "fresh" /\ st' = << >> /\ adm' = NoAdmin /\ UNCHANGED << hd, saved, loose >>
IsRestore ==
  /\ Line.e = "restore" /\ Line.res.t = "ok"
  /\ loose' = saved.dbs
  /\ st' = [n \in DOMAIN st \cup DOMAIN saved.dbs |-> IF n \in DOMAIN saved.dbs THEN saved.dbs[n][1] ELSE st[n]]
  /\ adm' = saved.adm
  /\ UNCHANGED << hd, saved >>

DocsOf(d, c) == {<< k[1], k[2], d.docs[k] >> : k \in {k \in DOMAIN d.docs : k[1] = c}}
\* keys that may have expired by t1 needn't be there; those that have by t0 aren't
KvOk(d, kv, t0, t1) ==
  /\ \A p \in kv : p[1] \in DOMAIN d.kv /\ d.kv[p[1]].v = p[2] /\ (d.kv[p[1]].exp < 0 \/ d.kv[p[1]].exp + 300 >= t0)
  /\ \A k \in DOMAIN d.kv : (d.kv[k].exp < 0 \/ d.kv[k].exp > t1) => \E p \in kv : p[1] = k
\* the rows of the views are those of the documents found
ViewRows(docs) == {<< Ct[d[3]].f, d[2], Ct[d[3]].l >> : d \in {d \in docs : d[1] = "r"}}
RECURSIVE SumL(_)
SumL(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + SumL(S \ {x})
DbOk(x, states, t0, t1) ==
  /\ x.s = states[1].s
  /\ LET docs == {<< d[1], d[2], d[3] >> : d \in Rng(x.docs)} IN
     /\ Cardinality(docs) = Len(x.docs)
     /\ \A c \in Colls(x.s) : \E i \in DOMAIN states : DocsOf(states[i], c) = {d \in docs : d[1] = c}
     /\ \A i \in DOMAIN x.views :
          /\ {<< r[1], r[2], r[3] >> : r \in Rng(x.views[i].rows)} = ViewRows(docs) /\ Len(x.views[i].rows) = Cardinality(ViewRows(docs))
          /\ \A j \in 1..Len(x.views[i].rows) - 1 : x.views[i].rows[j][1] <= x.views[i].rows[j + 1][1]
          /\ x.views[i].sum = SumL(ViewRows(docs))
  /\ \E i \in DOMAIN states : KvOk(states[i], {<< p[1], p[2] >> : p \in Rng(x.kv)}, t0, t1)
DumpOk ==
  LET found == {Line.dbs[i].n : i \in DOMAIN Line.dbs} IN
     /\ DOMAIN st = found /\ Cardinality(found) = Len(Line.dbs)
     /\ \A i \in DOMAIN Line.dbs :
          LET x == Line.dbs[i] IN
          DbOk(x, IF x.n \in DOMAIN loose THEN loose[x.n] ELSE << st[x.n] >>, Line.t0, Line.t1)
IsDump ==
  /\ Line.e = "dump"
  /\ Rng(Line.others) \subseteq {"_admin"}
  /\ DumpOk = TRUE      \* (not an action: nothing in it is to be chosen)
  /\ Rng(Line.admin.docs) = adm.docs /\ Rng(Line.admin.names) = adm.names
  /\ UNCHANGED << hd, st, adm, saved, loose >>

Next == l <= Len(Trace) /\ l' = l + 1
        /\ (IsReset \/ IsCreate \/ IsDelete \/ IsAdmin \/ IsOp \/ IsBackup \/ IsFresh \/ IsRestore \/ IsDump)
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
