------------------------------ MODULE KVTrace -------------------------------
(* Checks recorded key-value programs, sequential or concurrent, against KV:  *)
(* some order of the operations, each between its call and its return,        *)
(* explains every result; every look at the disk shows a state no older than  *)
(* the one seen there before, and no older than the persistence rules allow.  *)
(* Concurrent programs don't look at the disk, only at what is left after it   *)
(* is closed and opened again; so the order of operations on different keys   *)
(* doesn't matter to them.                                                    *)
EXTENDS KV, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 1..5
Idle == [on |-> FALSE, at |-> 0, lin |-> FALSE]

\* listed: the keys whose last listed change is not a deletion; timed: those that ever had an expiration
VARIABLES l, hd, kv, hist, pend, listed, timed
vars == << l, hd, kv, hist, pend, listed, timed >>
Line == Trace[l]

(* Every transaction lists keys, each once, and deletions only of keys that   *)
(* were there; together the lists tell which keys there are.                  *)
RECURSIVE Listed(_, _)
Listed(S, log) ==     \* the keys there are after these transactions, or {-2} if they can't be
  IF log = << >> THEN S
  ELSE LET t == Head(log)
           K(d) == {t.ks[i][1] : i \in {i \in DOMAIN t.ks : t.ks[i][2] = d}}
       IN IF t.after = 1 /\ t.n > 0 /\ Cardinality(K(0) \cup K(1)) = t.n /\ -1 \notin K(0) \cup K(1) /\ K(1) \subseteq S
          THEN Listed((S \ K(1)) \cup K(0), Tail(log)) ELSE {-2}

Init == /\ l = 1 /\ hd = 1 /\ kv = EmptyFn /\ hist = << EmptyFn >> /\ pend = [t \in Threads |-> Idle]
        /\ listed = {} /\ timed = {}
        /\ TLCSet(1, 0)

IsReset == /\ Line.e = "reset" /\ hd' = l /\ kv' = EmptyFn /\ hist' = << EmptyFn >>
           /\ pend' = [t \in Threads |-> Idle] /\ l' = l + 1 /\ listed' = {} /\ timed' = {}
IsReopen ==
  /\ Line.e = "reopen" /\ l' = l + 1 /\ hist' = << kv >> /\ UNCHANGED << hd, kv, pend, timed >>
  /\ listed' = Listed(listed, Line.log)
  /\ -2 \notin listed'
  /\ DOMAIN kv \ timed = listed' \ timed
IsSnap ==
  /\ Line.e = "snap" /\ l' = l + 1 /\ UNCHANGED << hd, kv, pend, listed, timed >>
  /\ \E i \in DOMAIN hist :
       /\ ShowsAs(hist[i], Trace[hd].keys, Line.r, Line.t0, Line.t1)
       /\ ~Overdue(Trace[hd].rules, hist[i], kv, Line.waited)
       /\ hist' = SubSeq(hist, i, Len(hist))
IsCall == /\ Line.e = "call" /\ l' = l + 1 /\ pend' = [pend EXCEPT ![Line.th] = [on |-> TRUE, at |-> l, lin |-> FALSE]]
          /\ timed' = IF Line.op = "set" /\ Line.exp >= 0 THEN timed \cup {Line.k} ELSE timed
          /\ UNCHANGED << hd, kv, hist, listed >>
IsRet == /\ Line.e = "ret" /\ pend[Line.th].lin /\ l' = l + 1 /\ pend' = [pend EXCEPT ![Line.th] = Idle]
         /\ UNCHANGED << hd, kv, hist, listed, timed >>
Lin ==
  /\ Line.e = "ret" /\ ~pend[Line.th].lin
  /\ \E t \in Threads :
       /\ pend[t].on /\ ~pend[t].lin
       /\ Trace[pend[t].at].k = Trace[pend[Line.th].at].k
       /\ \E s \in KvSteps(kv, Trace[pend[t].at], Trace[pend[t].at].res) :
            /\ kv' = s
            /\ hist' = IF s = kv \/ Trace[hd].conc = 1 THEN hist ELSE Append(hist, s)
       /\ pend' = [pend EXCEPT ![t].lin = TRUE]
  /\ UNCHANGED << l, hd, listed, timed >>

Next == l <= Len(Trace) /\ (IsReset \/ IsReopen \/ IsSnap \/ IsCall \/ IsRet \/ Lin)
Spec == Init /\ [][Next]_vars
Inv == l - 1 > TLCGet(1) => TLCSet(1, l - 1)
Accepted ==
  \/ TLCGet(1) = Len(Trace)
  \/ PrintT(<< "REJECTED", TLCGet(1) + 1 >>) /\ FALSE
=============================================================================
