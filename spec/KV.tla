--------------------------------- MODULE KV ---------------------------------
(* The key-value store: a map from keys, which stand for (namespace, key)    *)
(* pairs, to values with an optional expiration time; and what of it is on   *)
(* disk.  Times are microseconds; an operation happens at some moment of its *)
(* interval [t0, t1].  64-bit integers are four limbs of 16 bits, most       *)
(* significant first; floats are quarters, or special values.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFn == [x \in {} |-> 0]
B16 == 65536
None == [t |-> "none"]
Nan == [t |-> "f", s |-> "nan", q |-> 0]
AnyF == [t |-> "any"]

(***************************************************************************)
(* Arithmetic.                                                             *)
(***************************************************************************)
Word(w) == w \in [1..4 -> 0..(B16 - 1)]
AddC(a, b, c0) ==
  LET s4 == a[4] + b[4] + c0
      s3 == a[3] + b[3] + s4 \div B16
      s2 == a[2] + b[2] + s3 \div B16
      s1 == a[1] + b[1] + s2 \div B16
  IN [w |-> << s1 % B16, s2 % B16, s3 % B16, s4 % B16 >>, c |-> s1 \div B16]
Not(a) == << B16 - 1 - a[1], B16 - 1 - a[2], B16 - 1 - a[3], B16 - 1 - a[4] >>
SubC(a, b) == AddC(a, Not(b), 1)      \* carry 0: it borrowed
Neg(a) == a[1] >= 32768
Zero == << 0, 0, 0, 0 >>
IMax == << 32767, 65535, 65535, 65535 >>
IMin == << 32768, 0, 0, 0 >>
UMax == << 65535, 65535, 65535, 65535 >>

\* a 31-bit integer as a word
OfInt(n) == IF n >= 0 THEN << 0, 0, n \div B16, n % B16 >> ELSE SubC(Zero, << 0, 0, (-n) \div B16, (-n) % B16 >>).w
\* small words as integers
Small(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] < 2048
SmallNeg(w) == Neg(w) /\ Small(SubC(Zero, w).w)
ToInt(w) == w[3] * B16 + w[4]
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)

AsI(v, sat) ==
  CASE v.t = "i" -> v.w
    [] v.t = "u" -> IF sat = 1 /\ Neg(v.w) THEN IMax ELSE v.w
    [] v.s = "inf" -> IMax [] v.s = "ninf" -> IMin
    [] v.s = "ok" -> OfInt(Trunc(v.q))
AsU(v, sat) ==
  CASE v.t = "u" -> v.w
    [] v.t = "i" -> IF sat = 1 /\ Neg(v.w) THEN Zero ELSE v.w
    [] v.s = "inf" -> UMax [] v.s = "ninf" -> Zero
    [] v.s = "ok" -> IF v.q < 0 THEN Zero ELSE OfInt(Trunc(v.q))
F(q) == [t |-> "f", s |-> "ok", q |-> q]
AsF(v) ==
  CASE v.t = "f" -> v
    [] Small(v.w) -> F(4 * ToInt(v.w))
    [] v.t = "i" /\ SmallNeg(v.w) -> F(-4 * ToInt(SubC(Zero, v.w).w))
    [] OTHER -> AnyF

AddI(a, b, sat) ==
  LET r == AddC(a, b, 0).w
  IN IF Neg(a) = Neg(b) /\ Neg(r) # Neg(a) /\ sat = 1 THEN (IF Neg(a) THEN IMin ELSE IMax) ELSE r
SubI(a, b, sat) ==
  LET r == SubC(a, b).w
  IN IF Neg(a) # Neg(b) /\ Neg(r) # Neg(a) /\ sat = 1 THEN (IF Neg(a) THEN IMin ELSE IMax) ELSE r
AddU(a, b, sat) == LET r == AddC(a, b, 0) IN IF r.c = 1 /\ sat = 1 THEN UMax ELSE r.w
SubU(a, b, sat) == LET r == SubC(a, b) IN IF r.c = 0 /\ sat = 1 THEN Zero ELSE r.w
NegF(v) == CASE v.t = "any" -> v [] v.s = "inf" -> [v EXCEPT !.s = "ninf"] [] v.s = "ninf" -> [v EXCEPT !.s = "inf"]
             [] OTHER -> [v EXCEPT !.q = -v.q]
AddF(a, b) ==
  IF a.t = "any" \/ b.t = "any" THEN AnyF
  ELSE CASE a.s = "nan" \/ b.s = "nan" -> Nan
    [] {a.s, b.s} = {"inf", "ninf"} -> Nan
    [] a.s \in {"inf", "ninf"} -> a
    [] b.s \in {"inf", "ninf"} -> b
    [] a.s = "big" \/ b.s = "big" -> AnyF
    [] a.q + b.q > 900000000 \/ a.q + b.q < -900000000 -> AnyF
    [] OTHER -> F(a.q + b.q)

\* what adding (neg: subtracting) amount to a stored number gives; the amount's kind decides
Added(v, amt, neg, sat) ==
  CASE amt.t = "i" -> IF v.t = "f" /\ v.s = "big" THEN AnyF
                      ELSE [t |-> "i", w |-> IF neg = 1 THEN SubI(AsI(v, sat), amt.w, sat) ELSE AddI(AsI(v, sat), amt.w, sat)]
    [] amt.t = "u" -> IF v.t = "f" /\ v.s = "big" THEN AnyF
                      ELSE [t |-> "u", w |-> IF neg = 1 THEN SubU(AsU(v, sat), amt.w, sat) ELSE AddU(AsU(v, sat), amt.w, sat)]
    [] OTHER -> AddF(AsF(v), IF neg = 1 /\ amt.s # "nan" THEN NegF(amt) ELSE amt)

(***************************************************************************)
(* One operation on its key.  cur: None, or [t |-> "e", v |-> value,       *)
(* x |-> expiration or -1].  Gives the set of [res, next] it may have.     *)
(***************************************************************************)
Val(v) == [t |-> "val", v |-> v]
St(s) == [t |-> "status", s |-> s]
CurV(cur) == IF cur.t = "none" THEN None ELSE cur.v
IsNan(v) == v.t = "f" /\ v.s = "nan"

Matches(spec, res) ==
  \/ spec = res
  \/ spec.t = "val" /\ res.t = "val" /\ spec.v.t = "any" /\ res.v.t \in {"f", "i", "u"}
  \/ spec.t = "val" /\ spec.v.t = "any" /\ res.t = "nan"

DoSet(cur, o) ==
  LET has == cur.t # "none"
      doit == o.chk = 0 \/ (o.chk = 1 /\ has) \/ (o.chk = 2 /\ ~has)
      x == IF o.keep = 1 /\ has THEN cur.x ELSE o.exp
      prev == [t |-> IF o.via = 1 THEN "prev" ELSE "val", v |-> CurV(cur)]
  IN IF IsNan(o.v) THEN [res |-> [t |-> "nan"], next |-> cur]
     ELSE IF ~doit THEN [res |-> IF o.ret = 1 /\ o.via = 1 THEN [t |-> "prev", v |-> None] ELSE St("notchanged"), next |-> cur]
     ELSE [res |-> IF o.ret = 1 THEN prev ELSE IF has THEN St("updated") ELSE St("inserted"),
           next |-> [t |-> "e", v |-> o.v, x |-> x]]

DoAdd(cur, o, res) ==
  LET base == IF cur.t = "none" THEN [t |-> "u", w |-> Zero] ELSE cur.v
      x == IF cur.t = "none" THEN -1 ELSE cur.x
  IN IF base.t = "b" THEN [res |-> [t |-> "notnum"], next |-> cur]
     ELSE IF base.t = "any" THEN [res |-> Val(AnyF), next |-> IF res.t = "val" THEN [t |-> "e", v |-> res.v, x |-> x] ELSE cur]
     ELSE LET n == Added(base, o.v, o.neg, o.sat) IN
          IF IsNan(n) THEN [res |-> [t |-> "nan"], next |-> cur]
          ELSE [res |-> Val(n), next |-> IF n.t = "any"
                                         THEN (IF res.t = "val" THEN [t |-> "e", v |-> res.v, x |-> x] ELSE cur)
                                         ELSE [t |-> "e", v |-> n, x |-> x]]

KvDo(cur, o, res) ==
  CASE o.op = "set" -> DoSet(cur, o)
    [] o.op = "get" -> [res |-> Val(CurV(cur)), next |-> IF o.del = 1 THEN None ELSE cur]
    [] o.op = "del" -> [res |-> St(IF cur.t = "none" THEN "notchanged" ELSE "deleted"), next |-> None]
    [] o.op = "add" -> DoAdd(cur, o, res)

\* what key k may look like to something happening in [t0, t1]
Seen(kv, k, t0, t1) ==
  IF k \notin DOMAIN kv THEN {None}
  ELSE LET e == kv[k] IN
       IF e.x >= 0 /\ e.x <= t0 THEN {None}
       ELSE IF e.x < 0 \/ e.x > t1 THEN {e}
       ELSE {None, e}

Put(kv, k, e) ==
  IF e.t = "none" THEN [j \in DOMAIN kv \ {k} |-> kv[j]]
  ELSE [j \in DOMAIN kv \cup {k} |-> IF j = k THEN e ELSE kv[j]]

\* the set of [kv] after o with its recorded result
KvSteps(kv, o, res) ==
  {Put(kv, o.k, KvDo(c, o, res).next) : c \in {d \in Seen(kv, o.k, o.t0, o.t1) : Matches(KvDo(d, o, res).res, res)}}

(***************************************************************************)
(* What is on disk is an earlier or the present state; the present one, as *)
(* far as the rules ask for it.                                            *)
(***************************************************************************)
ShowsAs(kv, keys, R, t0, t1) ==
  \A k \in 0..(keys - 1) : \E e \in Seen(kv, k, t0, t1) : CurV(e) = R[k + 1]

DiffKeys(a, b) == {k \in DOMAIN a \cup DOMAIN b :
                     (IF k \in DOMAIN a THEN a[k] ELSE None) # (IF k \in DOMAIN b THEN b[k] ELSE None)}

Grace == 5000    \* milliseconds a machine may be late
Overdue(rules, a, b, waited) ==
  \E i \in DOMAIN rules : rules[i][1] <= Cardinality(DiffKeys(a, b)) /\ waited >= rules[i][2] + Grace
=============================================================================
