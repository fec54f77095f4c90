------------------------------ MODULE StoreMC ------------------------------
(* All executions of Store with a small vocabulary: two documents in a       *)
(* collection with a unique view, one in a collection with a lazy view.      *)
(* The listed properties are stated here over states and steps.              *)
EXTENDS Store, TLCExt

CONSTANTS MaxLog, MaxRev, MaxTx

VARIABLES st, last        \* last: the operation just performed and its result
vars == << st, last >>

MCct == << [k |-> 1, v |-> 5, tags |-> << >>,     n |-> 0],
           [k |-> 2, v |-> 7, tags |-> << 1 >>,   n |-> 0],
           [k |-> 1, v |-> 9, tags |-> << 1, 2 >>, n |-> -1] >>
MCpre == << {} >>

Ids == {0, 1}
Cts == DOMAIN MCct

\* the single operations that can be tried in a state: every relevant revision
Revs(s, c, id) == {CurOr(s.docs[c], id)} \cup {[r |-> 0, h |-> 1]}
OpsOf(s) ==
  UNION { {[k |-> "ins", c |-> c, id |-> id, push |-> 0, ct |-> x] : id \in Ids, x \in Cts}
          \cup {[k |-> "ins", c |-> c, id |-> -1, push |-> 1, ct |-> x] : x \in Cts}
          \cup UNION {{[k |-> "upd", c |-> c, id |-> id, rev |-> r, ct |-> x] : r \in Revs(s, c, id), x \in Cts} : id \in Ids}
          \cup {[k |-> "ovr", c |-> c, id |-> id, ct |-> x] : id \in Ids, x \in Cts}
          \cup UNION {{[k |-> "del", c |-> c, id |-> id, rev |-> r] : r \in Revs(s, c, id)} : id \in Ids}
          \cup UNION {{[k |-> "chk", c |-> c, id |-> id, rev |-> r] : r \in Revs(s, c, id)} : id \in Ids}
        : c \in {"a"} }

NoRes == [t |-> "none"]
RunTx(s, ops) == ApplyOps(s, MCct, ops, 0, NoRes, 1, << >>, << >>)

Commit(s, x) == [x.st EXCEPT !.log = Append(@, [tx |-> Len(s.log), ch |-> x.ch]), !.bump = TRUE]

Tx(ops) ==
  LET x == RunTx(st, ops) IN
  /\ st' = IF x.ok THEN Commit(st, x) ELSE st
  /\ last' = [op |-> "tx", ops |-> ops, ok |-> x.ok, res |-> x.res, pre |-> st.docs]

\* a later operation of a transaction sees what the earlier ones did
NextTx == \E o1 \in OpsOf(st) :
  \/ Tx(<< o1 >>)
  \/ /\ MaxTx > 1
     /\ LET x == RunTx(st, << o1 >>) IN
        x.ok /\ \E o2 \in OpsOf(x.st) : Tx(<< o1, o2 >>)

Sync == \E cv \in {"a.by-k", "a.by-tag"} :
  /\ st' = Synced(st, cv)
  /\ last' = [op |-> "sync", ops |-> << >>, ok |-> TRUE, res |-> NoRes, pre |-> st.docs]

Init == st = InitStore /\ last = [op |-> "none", ops |-> << >>, ok |-> TRUE, res |-> NoRes, pre |-> InitStore.docs]
Next == NextTx \/ Sync
Spec == Init /\ [][Next]_vars

Bound == /\ Len(st.log) <= MaxLog
         /\ \A id \in DOMAIN st.docs["a"] : st.docs["a"][id].r <= MaxRev /\ id <= 2
View == << st.docs, st.hi, st.lag, Len(st.log) >>

(***************************************************************************)
(* C01  a failed transaction changes nothing; a successful one logs once   *)
AllOrNothing == [][ last'.op = "tx" =>
    IF last'.ok THEN Len(st'.log) = Len(st.log) + 1 ELSE st' = st ]_vars
(* C02  revisions advance by one per changed contents, start at 0, and a   *)
(*      checked write is only accepted against the current revision        *)
Revisions == [][ \A id \in DOMAIN st'.docs["a"] :
    LET new == st'.docs["a"][id] old == CurOr(st.docs["a"], id) IN
    /\ (last'.op = "tx" /\ Len(last'.ops) = 1 /\ old.r >= 0) =>
         IF new.h = old.h THEN new.r = old.r ELSE new.r = old.r + 1
    /\ (old.r < 0 /\ last'.op = "tx" /\ Len(last'.ops) = 1) => new.r = 0 ]_vars
Checked == [][ (last'.op = "tx" /\ last'.ok /\ Len(last'.ops) = 1) =>
    LET o == last'.ops[1] IN
    /\ o.k \in {"upd", "del"} => CurOr(st.docs["a"], o.id) = o.rev
    /\ o.k = "chk" => o.id \in DOMAIN st.docs["a"] /\ (o.rev.r < 0 \/ st.docs["a"][o.id] = o.rev) ]_vars
(* C06  an assigned id is one no stored document has                       *)
FreshIds == [][ (last'.op = "tx" /\ last'.ok) =>
    \A i \in DOMAIN last'.ops : (last'.ops[i].k = "ins" /\ Len(last'.ops) = 1) =>
       last'.res.r[i].id \notin DOMAIN st.docs["a"] ]_vars
(* C07  the entry names exactly the documents written                      *)
LogNames == [][ (last'.op = "tx" /\ last'.ok) =>
    LET e == st'.log[Len(st'.log)].ch
        touched == {id \in DOMAIN st.docs["a"] \cup DOMAIN st'.docs["a"] :
                       CurOr(st.docs["a"], id) # CurOr(st'.docs["a"], id)}
    IN touched \subseteq {x.id : x \in Rng(e)} ]_vars
(* C08  what a synchronized view shows is the map of the stored documents; *)
(*      a lagging one may show every version since                         *)
LagSound == \A cv \in {"a.by-k", "a.by-tag"} :
    \A id \in DOMAIN st.lag[cv] : CurOr(st.docs["a"], id) \in st.lag[cv][id]
(* C10  selections partition: the whole is the sum of a cut of the keys    *)
Partition == \A cv \in {"a.by-k", "a.by-tag"} :
    LET E == Entries(st, MCct, "a", cv) IN
    \A k \in 0..3 :
      LET L == {x \in E : InRange(<< <<0, 0>>, <<2, k>> >>, x.k)}
          R == {x \in E : InRange(<< <<1, k>>, <<0, 0>> >>, x.k)}
      IN L \cup R = E /\ L \cap R = {} /\ SumOf(L) + SumOf(R) = SumOf(E)
(* C12 *)
Unique == UniqueOk(st, MCct)
NoSpuriousRefusal == [][ (last'.op = "tx" /\ ~last'.ok /\ last'.res.t = "unique" /\ Len(last'.ops) = 1) =>
    \E x \in last'.res.oid : x \in DOMAIN st.docs["a"] /\ x # last'.res.nid ]_vars
=============================================================================
