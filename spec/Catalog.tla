------------------------------ MODULE Catalog ------------------------------
(* The databases of a storage: a set of names, each with the schema it was   *)
(* created with and contents of its own, a document store (Store) and keys.  *)
(* A created database is empty.                                              *)
EXTENDS Store

NoDbs == [n \in {} |-> 0]
NewDb(s) == [s |-> s, st |-> InitStore, kv |-> EmptyFn]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Registered == {"main", "other"}

(* Names come in classes: "ok" is a name as documented, "bad" is not, and    *)
(* "own" is one the storage uses for files of its own, which it may refuse.  *)
CreateStep(dbs, o, res) ==
  LET there == o.n \in DOMAIN dbs
      right == IF o.cls = "bad" THEN {"invalidname"}
               ELSE (IF o.cls = "own" THEN {"invalidname"} ELSE {})
                    \cup {IF o.s \notin Registered THEN "notregistered"
                          ELSE IF ~there THEN "ok"
                          ELSE IF o.only = 0 THEN "taken"
                          ELSE IF dbs[o.n].s # o.s THEN "mismatch" ELSE "ok"}
  IN [ok |-> res.t \in right,
      dbs |-> IF res.t = "ok" /\ ~there THEN With(dbs, o.n, NewDb(o.s)) ELSE dbs]

DeleteStep(dbs, o, res) ==
  LET there == o.n \in DOMAIN dbs IN
  [ok |-> res.t = IF there THEN "ok" ELSE "notfound",
   dbs |-> IF there THEN Without(dbs, o.n) ELSE dbs]

OpenStep(dbs, o, res) ==
  [ok |-> res.t = IF o.n \notin DOMAIN dbs THEN "notfound"
                  ELSE IF dbs[o.n].s # o.s THEN "mismatch" ELSE "ok",
   dbs |-> dbs]

ListStep(dbs, res) ==
  [ok |-> /\ res.t = "ok"
          /\ Len(res.r) = Cardinality(DOMAIN dbs)
          /\ {<< x.n, x.s >> : x \in Rng(res.r)} = {<< n, dbs[n].s >> : n \in DOMAIN dbs},
   dbs |-> dbs]

KvStep(dbs, o, res) ==
  LET d == dbs[o.n]
      old == IF o.k \in DOMAIN d.kv THEN d.kv[o.k] ELSE -1
  IN CASE o.op = "kvset" -> [ok |-> res.t = "ok", dbs |-> [dbs EXCEPT ![o.n].kv = With(@, o.k, o.v)]]
       [] o.op = "kvdel" -> [ok |-> res.t = "ok" /\ res.n = (IF old = -1 THEN 0 ELSE 1), dbs |-> [dbs EXCEPT ![o.n].kv = Without(@, o.k)]]
       [] o.op = "kvget" -> [ok |-> res.t = "ok" /\ res.n = old, dbs |-> dbs]

(* What is done through a handle of a deleted database concerns nobody.      *)
StaleStep(dbs, o, res) == [ok |-> res.t # "crash", dbs |-> dbs]

DocStep(dbs, ct, pre, o, res) ==
  LET x == Step(dbs[o.db].st, ct, pre, o, res) IN
  [ok |-> x.ok, dbs |-> [dbs EXCEPT ![o.db].st = x.st]]

CatStep(dbs, ct, pre, o, res) ==
  CASE o.op = "create" -> CreateStep(dbs, o, res)
    [] o.op = "delete" -> DeleteStep(dbs, o, res)
    [] o.op = "opendb" -> OpenStep(dbs, o, res)
    [] o.op = "listdbs" -> ListStep(dbs, res)
    [] o.op \in {"kvset", "kvget", "kvdel"} -> KvStep(dbs, o, res)
    [] o.op = "stale" -> StaleStep(dbs, o, res)
    [] OTHER -> DocStep(dbs, ct, pre, o, res)
=============================================================================
