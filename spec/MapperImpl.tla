----------------------------- MODULE MapperImpl -----------------------------
(***************************************************************************)
(* How a view is kept up to date (database.rs, tasks.rs, views/mapper.rs,  *)
(* views/integrity_scanner.rs): writers invalidate documents of a lazy     *)
(* view or update the entries of an eager one, a mapper maps what is       *)
(* invalidated, and a scanner starts the view over when its definition has *)
(* changed.  A commit publishes the trees it changed one by one.           *)
(*                                                                         *)
(*   docs   document -> version, as published                              *)
(*   inv    invalidated documents, as published                            *)
(*   idx    document -> [d definition, v version] that the entries are of   *)
(*   gen    generation of the entries' files: a tree that is started over  *)
(*          no longer gets what is written to its earlier file             *)
(*                                                                         *)
(* Fresh: a query returns entries of the current definition, and of each   *)
(* document at least the version that had been written (lazy: that could   *)
(* be read) when the query began.  Settled: when nothing runs, documents   *)
(* that are not up to date are invalidated.                                *)
(*                                                                         *)
(* Variants each leave out one step; and break Fresh or Settled.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Docs, Writers, Queries,
          Eager,      \* the view's policy
          Bump,       \* the view's definition changed since it was indexed
          Pending,    \* documents a lazy definition left invalidated
          Variant

VARIABLES docs, inv, idx, gen, txid, running, lock,
          w, m, q, s, status, checked, acked

vars == <<docs, inv, idx, gen, txid, running, lock, w, m, q, s, status, checked, acked>>

Free == "free"
Max2(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ docs = [d \in Docs |-> 1]
  /\ inv = Pending
  /\ idx = [d \in Docs |-> [d |-> IF Bump THEN 0 ELSE 1, v |-> IF d \in Pending THEN 0 ELSE 1]]
  /\ gen = 0 /\ txid = 1 /\ running = {} /\ lock = Free
  /\ w = [x \in Writers |-> [pc |-> "idle", d |-> 0, g |-> 0, pub |-> {}]]
  /\ m = [pc |-> "none", t |-> 0, wait |-> {}, ids |-> {}, map |-> docs, pub |-> {}, by |-> "job"]
  /\ q = [x \in Queries |-> [pc |-> "idle", must |-> docs, c |-> 0, ok |-> TRUE]]
  /\ s = [pc |-> "none", listed |-> {}]
  /\ status = -1 /\ checked = FALSE
  /\ acked = docs

(***************************************************************************)
(* Writers: one transaction that changes one document.                     *)
(***************************************************************************)
WStart(x) ==
  /\ w[x].pc = "idle"
  /\ \E d \in Docs : w' = [w EXCEPT ![x].pc = IF Eager /\ Variant # "nowait" THEN "check" ELSE "open", ![x].d = d]
  /\ UNCHANGED <<docs, inv, idx, gen, txid, running, lock, m, q, s, status, checked, acked>>

\* transactions wait until eager views have been checked
WCheck(x) ==
  /\ w[x].pc = "check"
  /\ IF checked
     THEN /\ w' = [w EXCEPT ![x].pc = "open"] /\ UNCHANGED s
     ELSE /\ s.pc = "none" /\ s' = [s EXCEPT !.pc = "version"] /\ UNCHANGED w
  /\ UNCHANGED <<docs, inv, idx, gen, txid, running, lock, m, q, status, checked, acked>>

WOpen(x) ==
  /\ w[x].pc = "open"
  /\ w' = [w EXCEPT ![x].pc = "lock", ![x].g = gen]
  /\ UNCHANGED <<docs, inv, idx, gen, txid, running, lock, m, q, s, status, checked, acked>>

WLock(x) ==
  /\ w[x].pc = "lock" /\ lock = Free
  /\ lock' = x
  /\ w' = [w EXCEPT ![x].pc = "log"]
  /\ running' = running \cup {x}
  /\ UNCHANGED <<docs, inv, idx, gen, txid, m, q, s, status, checked, acked>>

WLog(x) ==
  /\ w[x].pc = "log"
  /\ txid' = txid + 1
  /\ w' = [w EXCEPT ![x].pc = "publish", ![x].pub = IF Eager THEN {"docs", "idx"} ELSE {"docs", "inv"}]
  /\ UNCHANGED <<docs, inv, idx, gen, running, lock, m, q, s, status, checked, acked>>

WPublish(x) ==
  /\ w[x].pc = "publish"
  /\ \E t \in w[x].pub :
       /\ docs' = IF t = "docs" THEN [docs EXCEPT ![w[x].d] = @ + 1] ELSE docs
       /\ inv' = IF t = "inv" THEN inv \cup {w[x].d} ELSE inv
       /\ idx' = IF t = "idx" /\ w[x].g = gen
                 THEN [idx EXCEPT ![w[x].d] = [d |-> 1, v |-> docs[w[x].d] + (IF "docs" \in w[x].pub THEN 1 ELSE 0)]]
                 ELSE idx
       /\ w' = [w EXCEPT ![x].pub = @ \ {t}, ![x].pc = IF w[x].pub = {t} THEN "unlock" ELSE "publish"]
  /\ UNCHANGED <<gen, txid, running, lock, m, q, s, status, checked, acked>>

WUnlock(x) ==
  /\ w[x].pc = "unlock"
  /\ lock' = Free
  /\ w' = [w EXCEPT ![x].pc = "end"]
  /\ UNCHANGED <<docs, inv, idx, gen, txid, running, m, q, s, status, checked, acked>>

WEnd(x) ==
  /\ w[x].pc = "end"
  /\ running' = running \ {x}
  /\ w' = [w EXCEPT ![x].pc = "done"]
  \* (a later writer of the document may have been quicker)
  /\ acked' = [acked EXCEPT ![w[x].d] = Max2(@, docs[w[x].d] - Cardinality({y \in Writers \ {x} :
                  w[y].d = w[x].d /\ (w[y].pc \in {"unlock", "end"} \/ (w[y].pc = "publish" /\ "docs" \notin w[y].pub))}))]
  /\ UNCHANGED <<docs, inv, idx, gen, txid, lock, m, q, s, status, checked>>

(***************************************************************************)
(* The mapper: a job, of which one runs at a time, or called by the scanner. *)
(***************************************************************************)
MUn == UNCHANGED <<docs, txid, running, w, q, checked, acked, gen>>

\* remember the transaction up to which documents will have been mapped
MTx ==
  /\ m.pc = "txid"
  /\ m' = [m EXCEPT !.t = txid, !.pc = "running"]
  /\ UNCHANGED <<inv, idx, lock, s, status>> /\ MUn

\* commits that are publishing may have been given their id already
MRunning ==
  /\ m.pc = "running"
  /\ m' = [m EXCEPT !.wait = IF Variant = "nopublishwait" THEN {} ELSE running, !.pc = "wait"]
  /\ UNCHANGED <<inv, idx, lock, s, status>> /\ MUn

MInv ==
  /\ m.pc = "wait" /\ m.wait \cap running = {}
  /\ m' = [m EXCEPT !.ids = inv,
                    !.map = IF Variant = "readfirst" THEN docs ELSE @,
                    !.pc = IF inv = {} THEN "mark" ELSE "lock"]
  /\ UNCHANGED <<inv, idx, lock, s, status>> /\ MUn

\* documents are read while their tree is locked
MLock ==
  /\ m.pc = "lock" /\ lock = Free
  /\ lock' = "mapper"
  /\ m' = [m EXCEPT !.map = IF Variant = "readfirst" THEN @ ELSE docs, !.pub = {"inv", "idx"}, !.pc = "publish"]
  /\ UNCHANGED <<inv, idx, s, status>> /\ MUn

MPublish ==
  /\ m.pc = "publish"
  /\ \E t \in m.pub :
       /\ inv' = IF t = "inv" THEN inv \ m.ids ELSE inv
       /\ idx' = IF t = "idx" THEN [d \in Docs |-> IF d \in m.ids THEN [d |-> 1, v |-> m.map[d]] ELSE idx[d]] ELSE idx
       /\ m' = [m EXCEPT !.pub = @ \ {t}, !.pc = IF m.pub = {t} THEN "unlock" ELSE "publish"]
  /\ UNCHANGED <<lock, s, status>> /\ MUn

MUnlock ==
  /\ m.pc = "unlock"
  /\ lock' = Free
  /\ m' = [m EXCEPT !.pc = "mark"]
  /\ UNCHANGED <<inv, idx, s, status>> /\ MUn

MMark ==
  /\ m.pc = "mark"
  /\ status' = IF Variant = "marknow" THEN txid ELSE m.t
  /\ m' = [m EXCEPT !.pc = "finish", !.t = IF Variant = "marknow" THEN txid ELSE @]
  /\ UNCHANGED <<inv, idx, lock, s>> /\ MUn

\* everyone who waits gets the id
MFinish ==
  /\ m.pc = "finish"
  /\ m' = [m EXCEPT !.pc = "none", !.by = "job", !.ids = {}]
  /\ IF m.by = "scan"
     THEN /\ s' = [s EXCEPT !.pc = "mark"] /\ UNCHANGED q
     ELSE /\ q' = [x \in Queries |->
                     IF q[x].pc # "await" THEN q[x]
                     ELSE [q[x] EXCEPT !.pc = IF q[x].c <= m.t \/ Variant = "anyjob" THEN "read" ELSE "enqueue"]]
          /\ UNCHANGED s
  /\ UNCHANGED <<docs, inv, idx, gen, txid, running, lock, w, status, checked, acked>>

(***************************************************************************)
(* The scanner, of which one runs at a time.                               *)
(***************************************************************************)
SUn == UNCHANGED <<docs, txid, running, w, q, status, acked>>

SVersion ==
  /\ s.pc = "version"
  /\ s' = [s EXCEPT !.pc = IF Bump THEN "lock" ELSE "map"]
  /\ UNCHANGED <<inv, idx, gen, lock, m, checked>> /\ SUn

SLock ==
  /\ s.pc = "lock" /\ lock = Free
  /\ lock' = "scan"
  /\ s' = [s EXCEPT !.pc = "delete", !.listed = Docs]
  /\ checked' = (Variant = "markfirst")
  /\ UNCHANGED <<inv, idx, gen, m>> /\ SUn

SDelete ==
  /\ s.pc = "delete"
  /\ gen' = gen + 1
  /\ idx' = [d \in Docs |-> [d |-> 1, v |-> 0]]
  /\ s' = [s EXCEPT !.pc = "commit"]
  /\ UNCHANGED <<inv, lock, m, checked>> /\ SUn

SCommit ==
  /\ s.pc = "commit"
  /\ inv' = IF Variant = "nolist" THEN inv ELSE inv \cup s.listed
  /\ lock' = Free
  /\ s' = [s EXCEPT !.pc = "map"]
  /\ UNCHANGED <<idx, gen, m, checked>> /\ SUn

\* eager views are mapped by the scanner itself
SMap ==
  /\ s.pc = "map"
  /\ IF Eager /\ inv # {} /\ Variant # "nopending"
     THEN /\ m.pc = "none"
          /\ m' = [m EXCEPT !.pc = "txid", !.by = "scan"]
          /\ s' = [s EXCEPT !.pc = "mapping"]
     ELSE /\ s' = [s EXCEPT !.pc = "mark"] /\ UNCHANGED m
  /\ UNCHANGED <<inv, idx, gen, lock, checked>> /\ SUn

SMark ==
  /\ s.pc = "mark"
  /\ checked' = TRUE
  /\ s' = [s EXCEPT !.pc = "none"]
  /\ UNCHANGED <<inv, idx, gen, lock, m>> /\ SUn

(***************************************************************************)
(* Queries.                                                                *)
(***************************************************************************)
QUn == UNCHANGED <<docs, inv, idx, gen, txid, running, lock, w, status, checked, acked>>

QStart(x) ==
  /\ q[x].pc = "idle"
  /\ q' = [q EXCEPT ![x].pc = "check", ![x].must = IF Eager THEN acked ELSE docs]
  /\ UNCHANGED <<m, s>> /\ QUn

QCheck(x) ==
  /\ q[x].pc = "check"
  /\ IF checked
     THEN /\ q' = [q EXCEPT ![x].pc = IF Eager THEN "read" ELSE "tx"] /\ UNCHANGED s
     ELSE /\ s.pc = "none" /\ s' = [s EXCEPT !.pc = "version"] /\ UNCHANGED q
  /\ UNCHANGED m /\ QUn

QTx(x) ==
  /\ q[x].pc = "tx"
  /\ q' = [q EXCEPT ![x].c = txid, ![x].pc = IF status >= txid THEN "read" ELSE "enqueue"]
  /\ UNCHANGED <<m, s>> /\ QUn

QEnqueue(x) ==
  /\ q[x].pc = "enqueue"
  /\ m' = IF m.pc = "none" THEN [m EXCEPT !.pc = "txid"] ELSE m
  /\ q' = [q EXCEPT ![x].pc = "await"]
  /\ UNCHANGED s /\ QUn

QRead(x) ==
  /\ q[x].pc = "read"
  /\ q' = [q EXCEPT ![x].pc = "done",
                    ![x].ok = \A d \in Docs : idx[d].d = 1 /\ idx[d].v >= q[x].must[d]]
  /\ UNCHANGED <<m, s>> /\ QUn

Next ==
  \/ \E x \in Writers : WStart(x) \/ WCheck(x) \/ WOpen(x) \/ WLock(x) \/ WLog(x) \/ WPublish(x) \/ WUnlock(x) \/ WEnd(x)
  \/ MTx \/ MRunning \/ MInv \/ MLock \/ MPublish \/ MUnlock \/ MMark \/ MFinish
  \/ SVersion \/ SLock \/ SDelete \/ SCommit \/ SMap \/ SMark
  \/ \E x \in Queries : QStart(x) \/ QCheck(x) \/ QTx(x) \/ QEnqueue(x) \/ QRead(x)

Spec == Init /\ [][Next]_vars

Fresh == \A x \in Queries : q[x].ok

Quiet == /\ lock = Free /\ m.pc = "none" /\ s.pc = "none"
         /\ \A x \in Writers : w[x].pc \in {"idle", "done"}
Settled == Quiet /\ checked => \A d \in Docs : d \in inv \/ idx[d] = [d |-> 1, v |-> docs[d]]

\* everything that began ends
Ended == /\ \A x \in Writers : w[x].pc = "done"
         /\ \A x \in Queries : q[x].pc = "done"
Stuck == ~ENABLED Next => Ended
=============================================================================
