------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What a BonsaiDb database is: documents in collections, checked          *)
(* revisions, transactions, the transaction log, and views as functions of *)
(* the documents.  Everything is a pure operator on a state record, so the *)
(* same definitions serve the exhaustive models (StoreMC, LinMC, ...), the *)
(* sequential trace specification (StoreTrace) and the linearizability     *)
(* trace specification (LinTrace).                                         *)
(*                                                                         *)
(*   st.docs[c]  id -> [r |-> revision number, h |-> content]              *)
(*   st.hi[c]    the largest id ever stored (deleted ids stay used until     *)
(*               the collection is compacted: push may count from there)     *)
(*   st.log      sequence of [tx |-> id or -1 if not yet seen, ch |-> <<>>]*)
(*   st.last     largest transaction id reported so far                    *)
(*   st.bump     a transaction committed since `last' was reported         *)
(*   st.lag[cv]  lazy views: id -> set of versions of the document that    *)
(*               the stored index may still show (absent: r = -1)          *)
(*   st.ev       the versioned view: [p present, m mode, pol policy, ver]      *)
(*                                                                         *)
(* Contents are indices of the table ct: ct[h] = [k, v, tags, n].          *)
(* Operations and results have the shape of the trace lines.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Top == 2000000000            \* the largest value of an integer id type
Absent == [r |-> -1, h |-> 0]
Colls == {"a", "b", "n", "e", "x"}
LazyViews == {"a.by-k", "a.by-tag", "a.comp", "b.by-k", "e.ev", "x.by-tag"}
EmptyFn == [x \in {} |-> 0]

InitStore ==
  [docs |-> [c \in Colls |-> EmptyFn], hi |-> [c \in Colls |-> 0],
   log  |-> << >>, last |-> -1, bump |-> FALSE,
   lag  |-> [cv \in LazyViews |-> EmptyFn],
   ev   |-> [p |-> 1, m |-> 0, pol |-> 0, ver |-> 4]]

Rng(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* View definitions: the map functions.                                    *)
(***************************************************************************)
Some(k) == k
None == -1999999999           \* sorts before every Some(k)

Emit(cv, con, ev) ==
  CASE cv \in {"a.by-k", "a.e-by-k", "b.by-k", "x.e-by-k"} -> {<<con.k, con.v>>}
    [] cv \in {"a.by-tag", "x.by-tag"} -> {<<t, con.v>> : t \in Rng(con.tags)}
    [] cv \in {"a.u-name", "b.u-name"} -> IF con.n < 0 THEN {} ELSE {<<con.n, con.v>>}
    [] cv = "a.comp" -> {<<t * 100000 + con.k + 50000, con.v>> : t \in Rng(con.tags)}
    [] cv = "a.opt-k" -> IF con.n < 0 THEN {<<None, con.v>>} ELSE {<<Some(con.k), con.v>>}
    [] cv = "e.ev" ->
         CASE ev.m = 0 -> {<<con.k, con.v>>}
           [] ev.m = 1 -> {<<con.k + 1000, con.v>>}
           [] ev.m = 2 -> {<<con.v, con.k>>}
           [] OTHER    -> IF con.k % 2 = 1 THEN {} ELSE {<<con.k, con.v>>}

Reducer(cv) ==
  CASE cv \in {"a.by-k", "a.comp", "b.by-k", "e.ev"} -> "sum"
    [] cv \in {"a.e-by-k", "x.e-by-k"} -> "max"
    [] OTHER -> "none"

\* (an absent view lags like a lazy one: nothing maintains it)
IsLazy(cv, ev) == cv \in LazyViews /\ ~(cv = "e.ev" /\ ev.p = 1 /\ ev.pol >= 1)
\* pol 0 lazy, 1 eager, 2 unique
UniqueViews(c, ev) == CASE c = "a" -> {"a.u-name"} [] c = "b" -> {"b.u-name"}
                        [] c = "e" /\ ev.p = 1 /\ ev.pol = 2 -> {"e.ev"} [] OTHER -> {}
UniqueName(c) == IF c = "e" THEN "ev" ELSE "u-name"
LazyOf(c) == CASE c = "a" -> {"a.by-k", "a.by-tag", "a.comp"} [] c = "b" -> {"b.by-k"}
               [] c = "e" -> {"e.ev"} [] c = "x" -> {"x.by-tag"} [] OTHER -> {}

\* entries a version of a document contributes
EntriesOf(ct, cv, ev, id, d) ==
  IF d.r < 0 THEN {}
  ELSE {[k |-> e[1], v |-> e[2], id |-> id, r |-> d.r, h |-> d.h] : e \in Emit(cv, ct[d.h], ev)}

Entries(st, ct, c, cv) ==
  UNION {EntriesOf(ct, cv, st.ev, id, st.docs[c][id]) : id \in DOMAIN st.docs[c]}

(***************************************************************************)
(* Selections.                                                             *)
(***************************************************************************)
InRange(rg, k) ==
  /\ CASE rg[1][1] = 0 -> TRUE [] rg[1][1] = 1 -> k >= rg[1][2] [] OTHER -> k > rg[1][2]
  /\ CASE rg[2][1] = 0 -> TRUE [] rg[2][1] = 1 -> k <= rg[2][2] [] OTHER -> k < rg[2][2]

InSel(sel, pre, k) ==
  CASE sel.s = "all"    -> TRUE
    [] sel.s = "key"    -> k = sel.k
    [] sel.s = "keys"   -> k \in Rng(sel.ks)
    [] sel.s = "range"  -> InRange(sel.rg, k)
    [] sel.s = "prefix" -> k \in Rng(pre[sel.k + 1])

SumOf(S) ==  \* of the v fields of a set of entries
  LET RECURSIVE F(_) F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN x.v + F(T \ {x})
  IN F(S)
MaxOf(S) == IF S = {} THEN -1 ELSE (CHOOSE x \in S : \A y \in S : y.v <= x.v).v
ReduceOf(cv, S) == IF Reducer(cv) = "sum" THEN SumOf(S) ELSE MaxOf(S)

\* `R' is S in key order (or descending), cut to lim
OrderedBy(R, desc, K(_)) ==
  \A i \in 1..(Len(R) - 1) : IF desc = 1 THEN K(R[i]) >= K(R[i + 1]) ELSE K(R[i]) <= K(R[i + 1])
SelectedAs(R, S, desc, lim, K(_)) ==
  /\ Rng(R) \subseteq S
  /\ Cardinality(Rng(R)) = Len(R)
  /\ Len(R) = (IF lim < 0 THEN Cardinality(S) ELSE Min2(lim, Cardinality(S)))
  /\ OrderedBy(R, desc, K)
  /\ (Len(R) > 0 /\ Len(R) < Cardinality(S)) =>
       \A s \in S \ Rng(R) : IF desc = 1 THEN K(s) <= K(R[Len(R)]) ELSE K(s) >= K(R[Len(R)])

(***************************************************************************)
(* Writes.                                                                 *)
(***************************************************************************)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

CurOr(f, id) == IF id \in DOMAIN f THEN f[id] ELSE Absent
LagSet(st, c, cv, id) ==
  IF id \in DOMAIN st.lag[cv] THEN st.lag[cv][id] ELSE {CurOr(st.docs[c], id)}

\* the document id of collection c becomes d (Absent: removed)
SetDoc(st, c, id, d) ==
  LET lag2 == [cv \in LazyViews |->
                 IF cv \in LazyOf(c) /\ (IsLazy(cv, st.ev) \/ st.lag[cv] # EmptyFn)
                 THEN Put(st.lag[cv], id, LagSet(st, c, cv, id) \cup {d})
                 ELSE st.lag[cv]]
  IN [st EXCEPT !.docs[c] = IF d.r < 0 THEN Drop(@, id) ELSE Put(@, id, d),
                !.hi[c] = IF id > @ THEN id ELSE @,
                !.lag = lag2]

\* documents other than id that emit a key of content h in a unique view
Clashes(st, ct, c, id, h) ==
  {x \in DOMAIN st.docs[c] \ {id} :
     \E cv \in UniqueViews(c, st.ev) :
       {e[1] : e \in Emit(cv, ct[st.docs[c][x].h], st.ev)} \cap {e[1] : e \in Emit(cv, ct[h], st.ev)} # {}}

Failed(st, e) == [ok |-> FALSE, st |-> st, res |-> e]
Done(st, r, ch) == [ok |-> TRUE, st |-> st, res |-> r, ch |-> ch]

\* write content h to the (new or existing) document
Write(st, ct, c, id, new) ==
  LET cl == Clashes(st, ct, c, id, new.h)
  IN IF cl # {} /\ CurOr(st.docs[c], id) # new
     THEN Failed(st, [t |-> "unique", v |-> UniqueName(c), c |-> c, nid |-> id, oid |-> cl])
     ELSE Done(SetDoc(st, c, id, new),
               [t |-> "upd", c |-> c, id |-> id, r |-> new.r, h |-> new.h],
               << [c |-> c, id |-> id, del |-> 0] >>)

Next1(cur, h) == IF cur.h = h THEN cur ELSE [r |-> cur.r + 1, h |-> h]

Conflict(c, id) == [t |-> "conflict", c |-> c, id |-> id]
NotFound(c, id) == [t |-> "notfound", c |-> c, id |-> id]

NaturalId(ct, o, via) == o.c = "n" /\ via > 0 /\ ct[o.ct].tags # << >>
Abs(x) == IF x < 0 THEN -x ELSE x

\* `hint' is the id an implementation assigned (-1: none known); spec picks it when it may
ApplyOne(st, ct, o, via, hint) ==
  LET D == st.docs[o.c]
      cur == CurOr(D, o.id)
  IN CASE o.k = "ins" /\ o.push = 0 ->
            IF o.id \in DOMAIN D THEN Failed(st, Conflict(o.c, o.id))
            ELSE Write(st, ct, o.c, o.id, [r |-> 0, h |-> o.ct])
       [] o.k = "ins" /\ o.push = 1 /\ NaturalId(ct, o, via) ->
            LET id == Abs(ct[o.ct].k) IN
            IF id \in DOMAIN D THEN Failed(st, Conflict(o.c, id))
            ELSE Write(st, ct, o.c, id, [r |-> 0, h |-> o.ct])
       [] o.k = "ins" /\ o.push = 1 /\ ~NaturalId(ct, o, via) ->
            IF o.c = "b" \/ hint = -2 \* -2: the implementation reported exhaustion
            THEN IF o.c = "b" \/ st.hi[o.c] = Top
                 THEN Failed(st, [t |-> "push", c |-> o.c])
                 ELSE Failed(st, [t |-> "bad-push"])
            ELSE IF hint \in DOMAIN D THEN Failed(st, [t |-> "bad-id"])
            ELSE Write(st, ct, o.c, hint, [r |-> 0, h |-> o.ct])
       [] o.k = "upd" ->
            IF cur.r < 0 THEN Failed(st, NotFound(o.c, o.id))
            ELSE IF cur # o.rev THEN Failed(st, Conflict(o.c, o.id))
            ELSE Write(st, ct, o.c, o.id, Next1(cur, o.ct))
       [] o.k = "ovr" ->
            IF cur.r < 0 THEN Write(st, ct, o.c, o.id, [r |-> 0, h |-> o.ct])
            ELSE Write(st, ct, o.c, o.id, Next1(cur, o.ct))
       [] o.k = "del" ->
            IF cur.r < 0 THEN Failed(st, NotFound(o.c, o.id))
            ELSE IF cur # o.rev THEN Failed(st, Conflict(o.c, o.id))
            ELSE Done(SetDoc(st, o.c, o.id, Absent), [t |-> "del", c |-> o.c, id |-> o.id],
                      << [c |-> o.c, id |-> o.id, del |-> 1] >>)
       [] o.k = "chk" ->
            IF cur.r < 0 THEN Failed(st, NotFound(o.c, o.id))
            ELSE IF o.rev.r >= 0 /\ cur # o.rev THEN Failed(st, Conflict(o.c, o.id))
            ELSE Done(st, [t |-> "ok"], << >>)

\* the ids the implementation assigned, operation by operation
Hint(res, i) ==
  IF res.t = "push" THEN -2
  ELSE IF res.t = "ok" /\ i \in DOMAIN res.r /\ res.r[i].t = "upd" THEN res.r[i].id ELSE -1

RECURSIVE ApplyOps(_, _, _, _, _, _, _, _)
ApplyOps(st, ct, ops, via, res, i, rs, ch) ==
  IF i > Len(ops) THEN [ok |-> TRUE, st |-> st, res |-> [t |-> "ok", r |-> rs], ch |-> ch]
  ELSE LET o == ops[i]
           h0 == Hint(res, i)
           hint == IF h0 = -1 /\ o.k = "ins" THEN (IF st.hi[o.c] = Top THEN -3 ELSE st.hi[o.c] + 1) ELSE h0
           \* exhaustion is reported for the transaction: it concerns the first push that cannot succeed
           hint2 == IF h0 = -2 /\ ~(o.c = "b" \/ (o.k = "ins" /\ st.hi[o.c] = Top) \/ i = Len(ops))
                    THEN (IF st.hi[o.c] = Top THEN -3 ELSE st.hi[o.c] + 1) ELSE hint
           x == ApplyOne(st, ct, o, via, IF o.k = "ins" THEN hint2 ELSE -1)
       IN IF x.ok THEN ApplyOps(x.st, ct, ops, via, res, i + 1, Append(rs, x.res), ch \o x.ch)
          ELSE [ok |-> FALSE, st |-> st, res |-> x.res, ch |-> << >>]

\* the error an implementation reports agrees with the specified one
\* (ids assigned within a failed transaction are not visible: st is the state before it)
SameError(st, spec, res) ==
  IF spec.t = "unique"
  THEN LET hidden == {x \in spec.oid \cup {spec.nid} : x \notin DOMAIN st.docs[spec.c]} IN
       /\ res.t = "unique" /\ res.v = spec.v /\ res.c = spec.c
       /\ res.nid = spec.nid \/ (spec.nid \in hidden /\ res.nid \notin DOMAIN st.docs[spec.c])
       /\ res.oid \in spec.oid \/ (hidden # {} /\ res.oid \notin DOMAIN st.docs[spec.c])
  ELSE spec = res

ApplyTx(st, ct, o, res) ==
  LET x == ApplyOps(st, ct, o.ops, o.via, res, 1, << >>, << >>)
  IN IF x.ok
     THEN [ok |-> x.res = res,
           st |-> [x.st EXCEPT !.log = Append(@, [tx |-> -1, ch |-> x.ch]), !.bump = TRUE]]
     ELSE [ok |-> SameError(st, x.res, res), st |-> st]

(***************************************************************************)
(* Reads.                                                                  *)
(***************************************************************************)
DocRec(D, id) == [id |-> id, r |-> D[id].r, h |-> D[id].h, ct |-> D[id].h]
HdrRec(D, id) == [id |-> id, r |-> D[id].r, h |-> D[id].h]
ById(x) == x.id

ReadOk(st, pre, o, res) ==
  LET D == st.docs[o.c] IN
  /\ res.t = "ok"
  /\ CASE o.op = "get" -> res.r = (IF o.id \in DOMAIN D THEN << DocRec(D, o.id) >> ELSE << >>)
       [] o.op = "getmulti" ->
            \* exactly the documents found, each once or as often as asked for
            LET S == {DocRec(D, id) : id \in Rng(o.ids) \cap DOMAIN D}
            IN /\ Rng(res.r) = S
               /\ Len(res.r) \in {Cardinality(S), Cardinality({i \in DOMAIN o.ids : o.ids[i] \in DOMAIN D})}
       [] OTHER ->
            LET in(id) == IF o.op = "list" THEN InRange(o.rg, id) ELSE id \in Rng(pre[o.pre + 1])
                ids == {id \in DOMAIN D : in(id)}
            IN CASE o.kind = "count" -> res.n = Cardinality(ids)
                 [] o.kind = "docs" -> SelectedAs(res.r, {DocRec(D, id) : id \in ids}, o.desc, o.lim, ById)
                 [] o.kind = "headers" -> SelectedAs(res.r, {HdrRec(D, id) : id \in ids}, o.desc, o.lim, ById)

CV(o) == o.c \o "." \o o.v
ByKey(x) == x.k

\* the view is synchronized: nothing of the past can show any more
Synced(st, cv) == IF cv \in LazyViews THEN [st EXCEPT !.lag[cv] = EmptyFn] ELSE st

Exact(st, cv, pol) == cv \notin LazyViews \/ pol = "before" \/ st.lag[cv] = EmptyFn

\* NoUpdate / UpdateAfter: every document shows one of its versions since the last synchronization
LaggingOk(st, ct, pre, o, cv, R) ==
  LET ids == DOMAIN st.docs[o.c] \cup DOMAIN st.lag[cv]
      got(id) == {x \in Rng(R) : x.id = id}
      sel(id, d) == {x \in EntriesOf(ct, cv, st.ev, id, d) : InSel(o.sel, pre, x.k)}
  IN /\ \A x \in Rng(R) : x.id \in ids
     /\ Cardinality(Rng(R)) = Len(R)
     /\ OrderedBy(R, o.desc, ByKey)
     /\ o.lim >= 0 => Len(R) <= o.lim
     /\ \A id \in ids : \E d \in LagSet(st, o.c, cv, id) :
          IF o.lim < 0 THEN got(id) = sel(id, d) ELSE got(id) \subseteq sel(id, d)

QueryOk(st, ct, pre, o, res) ==
  LET cv == CV(o)
      S == {x \in Entries(st, ct, o.c, cv) : InSel(o.sel, pre, x.k)}
  IN /\ res.t = "ok"
     /\ IF Exact(st, cv, o.pol)
        THEN SelectedAs(res.r, S, o.desc, o.lim, ByKey)
        ELSE LaggingOk(st, ct, pre, o, cv, res.r)
     /\ o.docs > 0 =>
          /\ LET ids == {x.id : x \in Rng(res.r)} \cap DOMAIN st.docs[o.c]
             IN Rng(res.d) = {DocRec(st.docs[o.c], id) : id \in ids} /\ Len(res.d) = Cardinality(ids)
          /\ Exact(st, cv, o.pol) =>
               res.pr = [i \in DOMAIN res.r |-> << res.r[i].k, res.r[i].v, res.r[i].id >>]

ReduceOk(st, ct, pre, o, res) ==
  LET cv == CV(o)
      S == {x \in Entries(st, ct, o.c, cv) : InSel(o.sel, pre, x.k)}
  IN IF Reducer(cv) = "none" THEN (Exact(st, cv, o.pol) /\ S # {}) => res.t # "ok"
     ELSE /\ res.t = "ok"
          /\ Exact(st, cv, o.pol) => res.n = ReduceOf(cv, S)

GroupedOk(st, ct, pre, o, res) ==
  LET cv == CV(o)
      S == {x \in Entries(st, ct, o.c, cv) : InSel(o.sel, pre, x.k)}
      G == {[k |-> k, v |-> ReduceOf(cv, {x \in S : x.k = k})] : k \in {x.k : x \in S}}
  IN IF Reducer(cv) = "none" THEN (Exact(st, cv, o.pol) /\ S # {}) => res.t # "ok"
     ELSE /\ res.t = "ok"
          /\ Exact(st, cv, o.pol) => SelectedAs(res.r, G, 0, -1, ByKey)

RECURSIVE DelAll(_, _, _)
DelAll(st, c, ids) ==
  IF ids = << >> THEN st ELSE DelAll(SetDoc(st, c, ids[1], Absent), c, Tail(ids))

\* any enumeration of a finite set
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o SeqOf(S \ {x})

DelViewStep(st, ct, pre, o, res) ==
  LET cv == CV(o)
      st1 == Synced(st, cv)
      S == {x \in Entries(st, ct, o.c, cv) : InSel(o.sel, pre, x.k)}
      ids == {x.id : x \in S}
      chs == {[c |-> o.c, id |-> id, del |-> 1] : id \in ids}
  IN IF ids = {}
     \* nothing selected: an empty transaction may or may not be logged
     THEN [ok |-> res = [t |-> "ok", n |-> 0], st |-> [st1 EXCEPT !.log = Append(@, [tx |-> -1, ch |-> << >>])]]
     ELSE [ok |-> res = [t |-> "ok", n |-> Cardinality(ids)],
           st |-> [DelAll(st1, o.c, SeqOf(ids)) EXCEPT
                     !.log = Append(@, [tx |-> -1, ch |-> SeqOf(chs)]), !.bump = TRUE]]

(***************************************************************************)
(* The transaction log.                                                    *)
(***************************************************************************)
SameChanges(a, b) == a = b \/ ((\A x \in Rng(a) : x.del = 1) /\ Rng(a) = Rng(b) /\ Len(a) = Len(b))

\* Where in the log a listing starts: after all transactions known to be older
\* than asked for, before all known not to be.
TxLogStarts(st, o) ==
  IF o.start < 0 THEN {1}
  ELSE {f \in 1..(Len(st.log) + 1) :
          \A i \in DOMAIN st.log : st.log[i].tx < 0 \/ (i >= f <=> st.log[i].tx >= o.start)}

TxLogStep(st, o, res) ==
  LET lim == IF o.lim < 0 THEN 100 ELSE Min2(o.lim, 1000)
      R == res.r
      Fits(from) ==
        LET n == Min2(lim, Len(st.log) + 1 - from) IN
        /\ Len(R) = n
        /\ \A i \in 1..n :
             LET e == st.log[from + i - 1] IN
             /\ R[i].kv = 0
             /\ SameChanges(e.ch, R[i].ch)
             /\ e.tx < 0 \/ e.tx = R[i].tx
             /\ R[i].tx >= o.start
        /\ \A i \in 1..(n - 1) : R[i].tx < R[i + 1].tx
      F == IF res.t = "ok" THEN {f \in TxLogStarts(st, o) : Fits(f)} ELSE {}
      from == CHOOSE f \in F : TRUE
  IN [ok |-> F # {},
      st |-> IF Cardinality(F) # 1 THEN st
             ELSE [st EXCEPT !.log = [j \in DOMAIN st.log |->
                        IF j >= from /\ j < from + Len(R) THEN [st.log[j] EXCEPT !.tx = R[j - from + 1].tx]
                        ELSE st.log[j]]]]

LastTxStep(st, res) ==
  [ok |-> /\ res.t = "ok"
          /\ res.n >= st.last
          /\ st.bump => res.n > st.last
          /\ \A i \in DOMAIN st.log : st.log[i].tx <= res.n,
   st |-> IF res.t = "ok" THEN [st EXCEPT !.last = res.n, !.bump = FALSE] ELSE st]

(***************************************************************************)
(* One operation with its result: is the result right, and what is next?   *)
(***************************************************************************)
Step(st, ct, pre, o, res) ==
  CASE o.op = "tx" -> ApplyTx(st, ct, o, res)
    [] o.op \in {"get", "getmulti", "list", "listpre"} -> [ok |-> ReadOk(st, pre, o, res), st |-> st]
    [] o.op = "query" ->
         [ok |-> QueryOk(st, ct, pre, o, res),
          st |-> IF o.pol = "before" THEN Synced(st, CV(o)) ELSE st]
    [] o.op = "reduce" ->
         [ok |-> ReduceOk(st, ct, pre, o, res), st |-> IF o.pol = "before" THEN Synced(st, CV(o)) ELSE st]
    [] o.op = "grouped" ->
         [ok |-> GroupedOk(st, ct, pre, o, res), st |-> IF o.pol = "before" THEN Synced(st, CV(o)) ELSE st]
    [] o.op = "delview" -> DelViewStep(st, ct, pre, o, res)
    [] o.op = "txlog" -> TxLogStep(st, o, res)
    [] o.op = "lasttx" -> LastTxStep(st, res)
    [] o.op = "compact" -> [ok |-> res = [t |-> "ok"], st |-> st]

\* Reopening keeps everything; the versioned view may have another definition.
Reopen(st, ev) ==
  LET changed == ev # st.ev
      lagEv == [id \in DOMAIN st.docs["e"] \cup DOMAIN st.lag["e.ev"] |-> {Absent} \cup LagSet(st, "e", "e.ev", id)]
  IN [st EXCEPT !.ev = ev, !.lag["e.ev"] = IF changed THEN lagEv ELSE @]

(***************************************************************************)
(* What holds in every reachable state of a database.                      *)
(***************************************************************************)
UniqueOk(st, ct) ==
  \A c \in {"a", "b"} : \A i, j \in DOMAIN st.docs[c] :
    i # j => (ct[st.docs[c][i].h].n < 0 \/ ct[st.docs[c][i].h].n # ct[st.docs[c][j].h].n)
UniqueEvOk(st, ct) ==
  (st.ev.p = 1 /\ st.ev.pol = 2) =>
    \A i, j \in DOMAIN st.docs["e"] :
      i # j => {x[1] : x \in Emit("e.ev", ct[st.docs["e"][i].h], st.ev)}
               \cap {x[1] : x \in Emit("e.ev", ct[st.docs["e"][j].h], st.ev)} = {}
LogOk(st) == \A i, j \in DOMAIN st.log : (i < j /\ st.log[i].tx >= 0 /\ st.log[j].tx >= 0) => st.log[i].tx < st.log[j].tx
=============================================================================
