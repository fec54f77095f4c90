------------------------------ MODULE StoreGen ------------------------------
(* Random behaviours of Store as programs for the implementation: TLC        *)
(* simulates, every behaviour of depth Depth is printed as one JSON line,    *)
(* the driver executes it and StoreTrace decides about the results.          *)
EXTENDS Store, Json

CONSTANT Depth
VARIABLES st, prog, done

Ks == {0, 1, 2, 3}
Ct == << [k |-> 1, v |-> 5, tags |-> << >>,       n |-> 19],
         [k |-> 2, v |-> 7, tags |-> << 8 >>,     n |-> 19],
         [k |-> 1, v |-> 9, tags |-> << 8, 12 >>, n |-> -1],
         [k |-> 3, v |-> 2, tags |-> << 12 >>,    n |-> 20],
         [k |-> 2, v |-> 5, tags |-> << >>,       n |-> -1] >>
Pick(S) == RandomElement(S)
Flip(n) == RandomElement(1..n) = 1
Cs == {"a", "a", "b", "e", "x"}
Ids == {1, 2, 3}

ARev(s, c, id) ==
  LET cur == CurOr(s.docs[c], id) IN
  IF cur.r >= 0 /\ ~Flip(5) THEN cur ELSE [r |-> Pick(0..2), h |-> Pick(DOMAIN Ct)]
AnOp(s, c) ==
  LET id == Pick(Ids) x == Pick(DOMAIN Ct) IN
  CASE Pick(1..8) = 1 -> [k |-> "ins", c |-> c, id |-> id, push |-> 0, ct |-> x]
    [] Pick(1..6) = 1 /\ c # "b" -> [k |-> "ins", c |-> c, id |-> 0, push |-> 1, ct |-> x]
    [] Pick(1..5) = 1 -> [k |-> "upd", c |-> c, id |-> id, rev |-> ARev(s, c, id), ct |-> x]
    [] Pick(1..3) = 1 -> [k |-> "ovr", c |-> c, id |-> id, ct |-> x]
    [] Pick(1..3) = 1 -> [k |-> "del", c |-> c, id |-> id, rev |-> ARev(s, c, id)]
    [] Pick(1..4) = 1 -> [k |-> "chk", c |-> c, id |-> id, rev |-> ARev(s, c, id)]
    [] OTHER -> [k |-> "upd", c |-> c, id |-> id, rev |-> ARev(s, c, id), ct |-> x]

RECURSIVE AnOpSeq(_, _)
AnOpSeq(s, n) ==
  IF n = 0 THEN << >>
  ELSE LET o == AnOp(s, Pick(Cs))
           x == ApplyOne(s, Ct, o, 0, IF o.k = "ins" THEN s.hi[o.c] + 1 ELSE -1)
       IN IF x.ok THEN << o >> \o AnOpSeq(x.st, n - 1) ELSE << o >>

\* a concrete value: RandomElement must be evaluated once
Gen(s) ==
  CASE Pick(1..10) <= 6 -> [op |-> "tx", via |-> 0, ops |-> AnOpSeq(s, Pick(1..4))]
    [] Pick(1..2) = 1 ->
         LET cv == Pick({<<"a", "by-k">>, <<"a", "by-tag">>, <<"a", "e-by-k">>, <<"a", "u-name">>, <<"b", "by-k">>, <<"e", "ev">>, <<"x", "by-tag">>}) IN
         [op |-> "query", c |-> cv[1], v |-> cv[2],
          sel |-> IF Flip(2) THEN [s |-> "all"] ELSE [s |-> "keys", ks |-> << Pick({1, 2, 3}), Pick({8, 12, 19, 20}) >>],
          desc |-> Pick(0..1), lim |-> Pick({-1, 1, 2}), pol |-> Pick({"before", "none", "after"}), docs |-> 0, via |-> 1]
    [] Pick(1..3) = 1 -> [op |-> "reduce", c |-> "a", v |-> "by-k", sel |-> [s |-> "key", k |-> Pick(1..3)], pol |-> "before"]
    [] OTHER -> [op |-> "list", c |-> Pick(Cs), kind |-> Pick({"docs", "headers", "count"}),
                 rg |-> << << Pick(0..2), Pick(Ids) >>, << 0, 0 >> >>, desc |-> Pick(0..1), lim |-> Pick({-1, 1, 2}), via |-> 0]

Effect(s, o) ==
  IF o.op = "tx"
  THEN LET x == ApplyOps(s, Ct, o.ops, 0, [t |-> "none"], 1, << >>, << >>)
       IN IF x.ok THEN x.st ELSE s
  ELSE IF o.op \in {"query", "reduce"} /\ o.pol = "before" THEN Synced(s, CV(o)) ELSE s

Init == st = InitStore /\ prog = << >> /\ done = 0
Next ==
  IF Len(prog) < Depth
  THEN \E o \in {Gen(st)} : prog' = Append(prog, o) /\ st' = Effect(st, o) /\ done' = 0
  ELSE /\ done = 0
       /\ PrintT("GEN " \o ToJson([ct |-> Ct, prog |-> prog]))
       /\ done' = 1 /\ UNCHANGED << st, prog >>
Spec == Init /\ [][Next]_<< st, prog, done >>
Inv == UniqueOk(st, Ct)
=============================================================================
