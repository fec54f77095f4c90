------------------------------ MODULE KeysTrace ------------------------------
(* Documents stored under the values of a key type, and a view that indexes   *)
(* them by values of that type: every listing and query returns the values    *)
(* that were stored, in their natural order.                                  *)
EXTENDS Keys, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* vals: the values, docs: number of the id -> number of the key it is indexed by;
\* twos: see Keys; signed: whether values of the type may be so ordered
\* ever: the ids there have been
VARIABLES l, name, nul, vals, docs, ever, twos
vars == << l, name, nul, vals, docs, ever, twos >>
Line == Trace[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* 2^124 and 2^123: what numbers of variable size may be
P124 == << 21, 2676, 4793, 2558, 6539, 6646, 912, 9644, 8551, 3216 >>
P123 == << 10, 6338, 2396, 6279, 3269, 8323, 456, 4822, 4275, 6608 >>
Unsig(n) == n \in {"Unsigned", "VarInt<u128>"}
Sig(n) == n \in {"Signed", "VarInt<i128>"}
\* values that can't be stored
Bad(n, v) ==
  \/ Unsig(n) /\ v.m # << >> /\ ~MagLess(v.m, P124)
  \/ Sig(n) /\ v.s = 1 /\ ~MagLess(v.m, P123)
  \/ Sig(n) /\ v.s = -1 /\ MagLess(P123, v.m)
  \/ n = "SystemTime" /\ v.s = -1
  \/ n = "Deny" /\ HasNul(v)

RECURSIVE HasFixed(_)
HasFixed(v) ==
  CASE v.k = "x" -> TRUE
    [] v.k \in {"n", "b"} -> FALSE
    [] v.k = "t" -> \E i \in 1..Len(v.f) : HasFixed(v.f[i])
    [] v.k = "v" -> HasFixed(v.d) \/ \E i \in 1..Len(v.f) : HasFixed(v.f[i])

Lt(i, j) == Less(vals[i], vals[j], twos)
Le(i, j) == i = j \/ Lt(i, j)

Init == l = 1 /\ name = "" /\ nul = 0 /\ vals = << >> /\ docs = << >> /\ ever = {} /\ twos = FALSE

IsType ==
  /\ Line.e = "type"
  /\ name' = Line.name /\ nul' = Line.nul /\ vals' = Line.vals /\ docs' = << >> /\ ever' = {}
  /\ twos' \in IF \E i \in 1..Len(Line.vals) : HasFixed(Line.vals[i]) THEN BOOLEAN ELSE {FALSE}

In(q, i) ==
  CASE q.t = "all" -> TRUE
    [] q.t = "key" -> i = q.i
    [] q.t = "keys" -> i \in Rng(q.is)
    [] q.t = "prefix" -> StrPrefix(vals[q.i].r, vals[i].r)
    [] q.t = "range" ->
         /\ CASE q.lo[1] = 0 -> TRUE [] q.lo[1] = 1 -> Le(q.lo[2], i) [] q.lo[1] = 2 -> Lt(q.lo[2], i)
         /\ CASE q.hi[1] = 0 -> TRUE [] q.hi[1] = 1 -> Le(i, q.hi[2]) [] q.hi[1] = 2 -> Lt(i, q.hi[2])

Unbound(q) == q.t = "all" \/ (q.t = "range" /\ q.lo[1] = 0 /\ q.hi[1] = 0)
SameBound(a, b) == a[1] = b[1] /\ (a[1] = 0 \/ a[2] = b[2])
\* a query is sent as the bytes of its keys, and read back
SameQuery(a, b) ==
  \/ Unbound(a) /\ Unbound(b)
  \/ /\ a.t = b.t
     /\ CASE a.t = "key" -> a.i = b.i
          [] a.t = "keys" -> a.is = b.is
          [] a.t = "range" -> SameBound(a.lo, b.lo) /\ SameBound(a.hi, b.hi)
          [] OTHER -> a = b

\* R holds, in the order of K, the elements of S, or the first lim of them
Ordered(R, p, K(_)) ==
  \A i \in 1..Len(R) - 1 : IF p.desc = 1 THEN Le(K(R[i + 1]), K(R[i])) ELSE Le(K(R[i]), K(R[i + 1]))
Selected(R, S, p, K(_)) ==
  /\ Rng(R) \subseteq S
  /\ Cardinality(Rng(R)) = Len(R)
  /\ nul = 1 \/ Ordered(R, p, K)
  /\ IF p.lim < 0 THEN Rng(R) = S
     ELSE /\ Len(R) = IF Cardinality(S) < p.lim THEN Cardinality(S) ELSE p.lim
          /\ Len(R) > 0 => \A s \in S \ Rng(R) :
               IF p.desc = 1 THEN Le(K(s), K(R[Len(R)])) ELSE Le(K(R[Len(R)]), K(s))
Free == [desc |-> 0, lim |-> -1]

Fresh == {i \in 1..Len(vals) : i \notin DOMAIN docs}

\* what an id that is generated has to be: a new one, after all others
Gen(i) == i \notin DOMAIN docs /\ (twos \/ \A j \in DOMAIN docs : Lt(j, i))
NoIds == {"bool", "()", "String", "Vec<u8>", "Bytes", "[u8; 1]", "[u8; 3]", "Uuid"}
\* ids are generated for the numbers
Numbers == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
            "NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128", "NonZeroUsize",
            "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128", "NonZeroIsize", "Signed", "Unsigned"}
P(n) == CASE n = 8 -> << 255 >> [] n = 16 -> << 6, 5535 >> [] n = 32 -> << 42, 9496, 7295 >>
          [] n = 64 -> << 1844, 6744, 737, 955, 1615 >>
          [] n = 128 -> << 340, 2823, 6692, 938, 4634, 6337, 4607, 4317, 6821, 1455 >>
          [] n = 7 -> << 127 >> [] n = 15 -> << 3, 2767 >> [] n = 31 -> << 21, 4748, 3647 >>
          [] n = 63 -> << 922, 3372, 368, 5477, 5807 >>
          [] n = 127 -> << 170, 1411, 8346, 469, 2317, 3168, 7303, 7158, 8410, 5727 >>
Max == [u8 |-> P(8), u16 |-> P(16), u32 |-> P(32), u64 |-> P(64), u128 |-> P(128), usize |-> P(64),
        i8 |-> P(7), i16 |-> P(15), i32 |-> P(31), i64 |-> P(63), i128 |-> P(127), isize |-> P(63),
        NonZeroU8 |-> P(8), NonZeroU16 |-> P(16), NonZeroU32 |-> P(32), NonZeroU64 |-> P(64), NonZeroU128 |-> P(128), NonZeroUsize |-> P(64),
        NonZeroI8 |-> P(7), NonZeroI16 |-> P(15), NonZeroI32 |-> P(31), NonZeroI64 |-> P(63), NonZeroI128 |-> P(127), NonZeroIsize |-> P(63)]
Largest(v) == IF name \in DOMAIN Max THEN v.s = 1 /\ v.m = Max[name] ELSE FALSE
\* the largest number that can be stored is P124 - 1 or P123 - 1
Dec(m) == [m EXCEPT ![Len(m)] = @ - 1]
Top(v) == Largest(v) \/ (name = "Unsigned" /\ v.m = Dec(P124)) \/ (name = "Signed" /\ v.s = 1 /\ v.m = Dec(P123))

PushOk(o, r) ==
  IF r.t = "ok"
  THEN /\ r.i >= 1
       /\ IF "n" \in DOMAIN r
          THEN r.i = Len(vals) + 1 /\ vals' = Append(vals, r.n)
               /\ (twos \/ \A j \in DOMAIN docs : Less(vals[j], r.n, FALSE))
          ELSE r.i <= Len(vals) /\ Gen(r.i) /\ vals' = vals
       /\ docs' = Put(docs, r.i, o.c)
  ELSE /\ UNCHANGED << vals, docs >>
       /\ \/ name \notin Numbers /\ r.t \in {"unsup", "wrap"}
          \/ name \in Numbers /\ r.t \in {"wrap", "err"} /\ \E j \in ever : Top(vals[j])
          \* after negative numbers that follow the others, the next one may be taken
          \/ twos /\ r.t = "conflict" /\ Cardinality(ever) > 1

IsOp ==
  /\ Line.e = "op"
  /\ UNCHANGED << name, nul, twos >>
  /\ LET o == Line.o
         r == Line.r
     IN
     CASE o.o = "ins" ->
            IF Bad(name, vals[o.i]) THEN r.t = "err" /\ UNCHANGED << vals, docs >>
            ELSE IF o.i \in DOMAIN docs THEN r.t = "conflict" /\ UNCHANGED << vals, docs >>
            ELSE r.t = "ok" /\ r.i = o.i /\ docs' = Put(docs, o.i, o.c) /\ vals' = vals
       [] o.o = "put" ->
            IF Bad(name, vals[o.i]) THEN r.t = "err" /\ UNCHANGED << vals, docs >>
            ELSE r.t = "ok" /\ r.i = o.i /\ docs' = Put(docs, o.i, o.c) /\ vals' = vals
       [] o.o = "del" ->
            IF Bad(name, vals[o.i]) THEN r.t = "err" /\ UNCHANGED << vals, docs >>
            ELSE r.t = "ok" /\ r.d = (IF o.i \in DOMAIN docs THEN 1 ELSE 0) /\ docs' = Drop(docs, {o.i}) /\ vals' = vals
       [] o.o = "push" -> PushOk(o, r)
       [] o.o = "get" ->
            /\ UNCHANGED << vals, docs >>
            /\ IF Bad(name, vals[o.i]) THEN r.t = "err"
               ELSE r.t = "ok" /\ r.r = (IF o.i \in DOMAIN docs THEN << << o.i, docs[o.i] >> >> ELSE << >>)
       [] o.o = "list" ->
            /\ UNCHANGED << vals, docs >>
            /\ IF (o.q.t = "key" /\ Bad(name, vals[o.q.i])) \/ (o.q.t = "keys" /\ \E i \in Rng(o.q.is) : Bad(name, vals[i]))
                  \/ (o.q.t = "range" /\ ((o.q.lo[1] > 0 /\ Bad(name, vals[o.q.lo[2]])) \/ (o.q.hi[1] > 0 /\ Bad(name, vals[o.q.hi[2]]))))
               THEN r.t = "err"
               ELSE /\ r.t = "ok"
                    /\ LET S == {<< i, docs[i] >> : i \in {i \in DOMAIN docs : In(o.q, i)}}
                           K(x) == x[1]
                       IN IF o.q.t \in {"key", "keys"}
                          THEN Rng(r.r) = S /\ Len(r.r) = Cardinality(S)
                          ELSE Selected(r.r, S, o.p, K)
       [] o.o = "view" ->
            /\ UNCHANGED << vals, docs >>
            /\ r.t = "ok"
            /\ LET S == {<< docs[i], i, 1 >> : i \in {i \in DOMAIN docs : In(o.q, docs[i])}}
                   K(x) == x[1]
               IN IF o.q.t \in {"key", "keys"} /\ o.p.lim < 0
                  THEN Rng(r.r) = S /\ Len(r.r) = Cardinality(S)
                  ELSE IF o.q.t = "keys" THEN Rng(r.r) \subseteq S /\ Cardinality(Rng(r.r)) = Len(r.r)
                  ELSE Selected(r.r, S, o.p, K)
       [] o.o = "wire" ->
            /\ UNCHANGED << vals, docs >>
            /\ r.t = "ok" /\ SameQuery(o.q, r.q)
       [] o.o = "group" ->
            /\ UNCHANGED << vals, docs >>
            /\ r.t = "ok"
            /\ LET S == {<< k, Cardinality({i \in DOMAIN docs : docs[i] = k}) >> : k \in {docs[i] : i \in {i \in DOMAIN docs : In(o.q, docs[i])}}}
                   K(x) == x[1]
               IN IF o.q.t \in {"key", "keys"} THEN Rng(r.r) = S /\ Len(r.r) = Cardinality(S)
                  ELSE Selected(r.r, S, Free, K)

IsOpE == IsOp /\ ever' = ever \cup DOMAIN docs'
Next == l <= Len(Trace) /\ l' = l + 1 /\ ((IsType /\ TRUE) \/ IsOpE)
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d >= Len(Trace) + 1
  \/ PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
