------------------------------ MODULE BulkTrace ------------------------------
(* Thousands of documents: what a history of transactions on ranges of them  *)
(* leaves behind, as seen through listings, views and the log.  A document   *)
(* is an id with a number as contents; collection "l" has the views "lz"     *)
(* (lazy, summed up) and "lt" (lazy, none or two mappings), "m" has "eg"     *)
(* (eager, summed up) and "un" (unique: ids U apart share the first part of  *)
(* their keys).                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, docs, ver, log, u
vars == << l, docs, ver, log, u >>
Line == Trace[l]
Res == Line.res
Rng(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
None == [x \in {} |-> 0]

(***************************************************************************)
(* The views                                                               *)
(***************************************************************************)
Val(i, k) == (i * 7 + k) % 101
Maps(v, i, k) ==
  CASE v \in {"lz", "eg"} -> {k + 1000 * ver}
    [] v = "lt" -> IF k % 5 = 0 THEN {} ELSE {k % 7, 100 + (k % 11)}
    [] v = "un" -> {((i - 1) % u) * 3 + (k % 3)}
ViewVal(v, i, k) == IF v \in {"lz", "eg"} THEN Val(i, k) ELSE 1
Asked(o, key) ==
  CASE o.by = "all" -> TRUE
    [] o.by = "range" -> o.keys[1] <= key /\ key < o.keys[2]
    [] OTHER -> \E j \in DOMAIN o.keys : o.keys[j] = key
\* the mappings asked for
Entries(o) == LET D == docs[o.c] IN
  UNION {{<< key, i >> : key \in {x \in Maps(o.v, i, D[i]) : Asked(o, x)}} : i \in DOMAIN D}
SumOf(D, v, S) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [i \in S |-> ViewVal(v, i, D[i])], S)
SeqSum(s) == FoldFunction(LAMBDA a, b : a + b, 0, s)

ViewRight(o, R) ==
  LET D == docs[o.c]
      T == Entries(o)
      ids == {t[2] : t \in T}
      keys == {t[1] : t \in T}
  IN CASE o.what = "reduce" -> R = SumOf(D, o.v, ids)
       [] o.what = "grouped" ->
            /\ {R[j][1] : j \in DOMAIN R} = keys /\ Len(R) = Cardinality(keys)
            /\ \A j \in DOMAIN R : R[j][2] = SumOf(D, o.v, {i \in ids : R[j][1] \in Maps(o.v, i, D[i])})
            /\ \A j \in 1..(Len(R) - 1) : R[j][1] < R[j + 1][1]
       [] o.what = "delete" -> R = Cardinality(ids)
       [] OTHER ->
            LET P == UNION {{<< R[j].k, i >> : i \in Rng(R[j].s)} : j \in DOMAIN R}
                n == Len(R)
            IN /\ P \subseteq T
               /\ SeqSum([j \in DOMAIN R |-> Len(R[j].s)]) = Cardinality(P)
               /\ Cardinality(P) = IF o.lim < 0 THEN Cardinality(T) ELSE Min2(o.lim, Cardinality(T))
               /\ \A j \in 1..(n - 1) : IF o.desc = 1 THEN R[j].k > R[j + 1].k ELSE R[j].k < R[j + 1].k
               /\ \A j \in DOMAIN R : R[j].v = SumOf(D, o.v, Rng(R[j].s))
               \* what the limit cut off comes last
               /\ n > 0 => \A t \in T \ P : IF o.desc = 1 THEN t[1] <= R[n].k ELSE t[1] >= R[n].k

(***************************************************************************)
(* Documents                                                               *)
(***************************************************************************)
In(o, i) == o.a <= i /\ i <= o.b /\ (i - o.a) % o.s = 0
Ids(o) == {o.a + j * o.s : j \in 0..((o.b - o.a) \div o.s)}
New(o, i) == (i * o.f0 + o.f1) % o.f2
SetDocs(c, W, f(_)) == [docs EXCEPT ![c] = [i \in DOMAIN docs[c] \cup W |-> IF i \in W THEN f(i) ELSE docs[c][i]]]
Without(c, W) == [docs EXCEPT ![c] = [i \in DOMAIN docs[c] \ W |-> docs[c][i]]]
Un(i, k) == ((i - 1) % u) * 3 + (k % 3)
Others(i) == {i - u, i + u, i - 2 * u, i + 2 * u}
\* writing new contents to W in ascending order gives a document a key another one has
Collides(c, W, f(_)) ==
  /\ c = "m"
  /\ \E i \in W : \E j \in Others(i) :
       IF j \in W /\ j < i THEN Un(j, f(j)) = Un(i, f(i))
       ELSE j \in DOMAIN docs[c] /\ Un(j, docs[c][j]) = Un(i, f(i))

Fails(t) == Res.t = t /\ UNCHANGED << docs, log >>
Write(c, W, n, f(_)) ==
  IF Collides(c, W, f) THEN Fails("unique")
  ELSE Res.t = "ok" /\ docs' = SetDocs(c, W, f) /\ log' = Append(log, n)
Reads == Res.t = "ok" /\ UNCHANGED << docs, log >>

OrderedIn(R, desc) == \A j \in 1..(Len(R) - 1) : IF desc = 1 THEN R[j][1] > R[j + 1][1] ELSE R[j][1] < R[j + 1][1]

Ordered(R, desc) == OrderedIn(R, desc) = TRUE

Op(o) ==
  LET D == docs[o.c] IN
  CASE o.op = "ins" ->
         LET W == Ids(o) present == W \cap DOMAIN D IN
         IF present # {}
         THEN \* both may be wrong: the first one met decides
              \/ Fails("conflict")
              \/ Collides(o.c, W \ present, LAMBDA i : New(o, i)) /\ Fails("unique")
         ELSE Write(o.c, W, Cardinality(W), LAMBDA i : New(o, i))
    [] o.op = "ovr" -> LET W == Ids(o) IN Write(o.c, W, Cardinality(W), LAMBDA i : New(o, i))
    [] o.op = "upd" ->
         LET W == {i \in DOMAIN D : In(o, i)} IN
         IF o.stale = 1 /\ W # {}
         THEN \/ Fails("conflict")
              \/ Collides(o.c, W, LAMBDA i : New(o, i)) /\ Fails("unique")
         ELSE /\ Write(o.c, W, Cardinality(W), LAMBDA i : New(o, i))
              /\ (Res.t = "ok") => (Res.r = Cardinality(W))
    [] o.op = "del" ->
         LET W == {i \in DOMAIN D : In(o, i)} IN
         IF o.stale = 1 /\ W # {} THEN Fails("conflict")
         ELSE Res.t = "ok" /\ Res.r = Cardinality(W) /\ docs' = Without(o.c, W) /\ log' = Append(log, Cardinality(W))
    [] o.op = "many" ->
         LET W == Ids(o) IN
         Res.t = "ok" /\ docs' = SetDocs(o.c, W, LAMBDA i : New(o, i)) /\ log' = log \o [j \in 1..(o.b + 1 - o.a) |-> 1]
    [] o.op = "push" ->
         IF Res.t = "unique" THEN o.c = "m" /\ UNCHANGED << docs, log >>
         ELSE /\ Res.t = "ok" /\ Len(Res.r) = o.n
              /\ (\A j \in 1..(o.n - 1) : Res.r[j + 1] = Res.r[j] + 1) = TRUE
              /\ (\A i \in DOMAIN D : i < Res.r[1]) = TRUE
              /\ docs' = SetDocs(o.c, Rng(Res.r), LAMBDA i : New(o, i - Res.r[1]))
              /\ ~Collides(o.c, Rng(Res.r), LAMBDA i : New(o, i - Res.r[1]))
              /\ log' = Append(log, o.n)
    [] o.op = "list" ->
         LET W == {i \in DOMAIN D : o.a <= i /\ i <= o.b}
             R == Res.r
             P == {R[j][1] : j \in DOMAIN R}
             right == /\ OrderedIn(R, o.desc) /\ P \subseteq W
                      /\ Len(R) = IF o.lim < 0 THEN Cardinality(W) ELSE Min2(o.lim, Cardinality(W))
                      /\ (R # << >>) => \A i \in W \ P : IF o.desc = 1 THEN i < R[Len(R)][1] ELSE i > R[Len(R)][1]
                      /\ (o.headers = 0) => \A j \in DOMAIN R : R[j][2] = D[R[j][1]]
         IN Reads /\ right = TRUE
    [] o.op = "multi" ->
         Reads /\ Ordered(Res.r, 0) /\ {Res.r[j] : j \in DOMAIN Res.r} = {<< i, D[i] >> : i \in {x \in DOMAIN D : In(o, x)}}
    [] o.op = "count" ->
         Reads /\ Res.r = Cardinality(IF o.all = 1 THEN DOMAIN D ELSE {i \in DOMAIN D : o.a <= i /\ i <= o.b})
    [] o.op = "log" ->
         LET lim == IF o.lim < 0 THEN 100 ELSE Min2(o.lim, 1000)
             from == IF o.start = 1 THEN o.at + 1 ELSE 1
         IN Reads /\ Res.r = SubSeq(log, from, Min2(Len(log), from + lim - 1))
    [] o.op = "compact" -> Reads
    [] o.op = "view" ->
         /\ Res.t = "ok" /\ ViewRight(o, Res.r) = TRUE
         /\ IF o.what = "delete"
            THEN LET W == {t[2] : t \in Entries(o)} IN docs' = Without(o.c, W) /\ log' = Append(log, Cardinality(W))
            ELSE UNCHANGED << docs, log >>

Init == l = 1 /\ docs = [c \in {"l", "m"} |-> None] /\ ver = 0 /\ log = << >> /\ u = 0
Step ==
  CASE Line.op = "reset" -> docs' = [c \in {"l", "m"} |-> None] /\ ver' = 0 /\ log' = << >> /\ u' = Line.u
    [] Line.op = "reopen" -> Res.t = "ok" /\ ver' = ver + Line.bump /\ UNCHANGED << docs, log, u >>
    [] OTHER -> Op(Line) /\ UNCHANGED << ver, u >>
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
\* the position determines the state
View == l
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
