----------------------------- MODULE VaultTrace -----------------------------
(* A storage whose files may be seen by others.  Everything that is stored   *)
(* is a token.  A token may be found in clear once it was kept at a place    *)
(* that no key protected at the time: the places are the collections P (no   *)
(* key of its own) and E (with its own key), the key-value store and the     *)
(* storage's own database; the default key of the configuration protects all *)
(* of them.  Without the keys, only what may be found in clear can be read.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, key, docs, kv, ever, clear
vars == << l, key, docs, kv, ever, clear >>
Line == Trace[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
None == [x \in {} |-> 0]
Places == {"P", "E", "kv", "own"}
Protected(place) == key = 1 \/ place = "E"

Fresh == /\ key' = 0 /\ docs' = [c \in {"P", "E"} |-> None] /\ kv' = None
         /\ ever' = [p \in Places |-> {}] /\ clear' = {}
Init == /\ l = 1 /\ key = 0 /\ docs = [c \in {"P", "E"} |-> None] /\ kv = None
        /\ ever = [p \in Places |-> {}] /\ clear = {}

\* tokens T are kept at the place
Keep(p, T) == /\ ever' = [ever EXCEPT ![p] = @ \cup T]
              /\ clear' = IF Protected(p) THEN clear ELSE clear \cup T
RECURSIVE PutAll(_, _)
PutAll(d, ops) == IF ops = << >> THEN d
                  ELSE LET o == Head(ops) IN PutAll([d EXCEPT ![o.c] = Put(@, o.i, o.t)], Tail(ops))
Tokens(ops, c) == UNION {Rng(ops[i].t) : i \in {j \in DOMAIN ops : ops[j].c = c}}
Rows(c) == {<< i, docs[c][i][2], docs[c][i][3] >> : i \in DOMAIN docs[c]}
Same == UNCHANGED << key, docs, kv, ever, clear >>

Step ==
  CASE Line.e = "new" -> Fresh
    [] Line.e = "open" ->
         /\ Line.r = "ok" /\ key' = Line.key
         \* (what is not protected any more may be written again, in clear)
         /\ clear' = IF Line.key = 1 THEN clear ELSE clear \cup ever["P"] \cup ever["kv"] \cup ever["own"]
         /\ UNCHANGED << docs, kv, ever >>
    [] Line.e = "put" ->
         /\ Line.r = "ok" /\ docs' = [docs EXCEPT ![Line.c] = Put(@, Line.i, Line.t)]
         /\ Keep(Line.c, Rng(Line.t)) /\ UNCHANGED << key, kv >>
    [] Line.e = "tx" ->
         /\ Line.r = "ok" /\ docs' = PutAll(docs, Line.ops)
         /\ ever' = [ever EXCEPT !["P"] = @ \cup Tokens(Line.ops, "P"), !["E"] = @ \cup Tokens(Line.ops, "E")]
         /\ clear' = IF key = 1 THEN clear ELSE clear \cup Tokens(Line.ops, "P")
         /\ UNCHANGED << key, kv >>
    [] Line.e = "del" ->
         /\ Line.r = "ok" /\ (Line.d = 1) = (Line.i \in DOMAIN docs[Line.c])
         /\ docs' = [docs EXCEPT ![Line.c] = Drop(@, {Line.i})] /\ UNCHANGED << key, kv, ever, clear >>
    [] Line.e = "get" ->
         /\ Line.r = "ok"
         /\ Line.t = (IF Line.i \in DOMAIN docs[Line.c] THEN << docs[Line.c][Line.i] >> ELSE << >>)
         /\ Same
    [] Line.e = "view" ->
         LET R == {r \in Rows(Line.c) : Line.k = 0 \/ r[2] = Line.k} IN
         /\ Line.r = "ok" /\ Rng(Line.t) = R /\ Len(Line.t) = Cardinality(R) /\ Same
    [] Line.e = "set" ->
         /\ Line.r = "ok" /\ kv' = Put(kv, Line.k, Line.v) /\ Keep("kv", {Line.k, Line.v}) /\ UNCHANGED << key, docs >>
    [] Line.e = "kget" ->
         /\ Line.r = "ok" /\ Line.t = (IF Line.k \in DOMAIN kv THEN << kv[Line.k] >> ELSE << >>) /\ Same
    [] Line.e = "kdel" ->
         /\ Line.r = "ok" /\ kv' = Drop(kv, {Line.k}) /\ UNCHANGED << key, docs, ever, clear >>
    [] Line.e = "user" -> /\ Line.r = "ok" /\ Keep("own", {Line.u}) /\ UNCHANGED << key, docs, kv >>
    [] Line.e = "compact" -> Line.r = "ok" /\ Same
    [] Line.e = "scan" -> Rng(Line.t) \subseteq clear /\ Same
    [] Line.e = "stolen" -> Rng(Line.t) \subseteq clear /\ Same

Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
