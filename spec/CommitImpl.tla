----------------------------- MODULE CommitImpl -----------------------------
(* How transactions reach the disk.  Every tree is a file to which each       *)
(* transaction appends a root holding the tree's contents; when all of its    *)
(* trees are written the transaction's id is appended to the log, and only    *)
(* then is it acknowledged.  Whoever opens the folder later believes, in each *)
(* tree, the last root whose id is in the log.  The process may stop between  *)
(* any two writes.                                                            *)
(*                                                                            *)
(* Retire: what opening does about ids that trees name and the log does not   *)
(*   TRUE   they are never assigned again (the code)                          *)
(*   FALSE  the log's next id follows its last entry (as it once was)         *)
(* Order: "trees" writes the trees first (the code), "log" the log first.     *)
(* EarlyAck: a transaction is acknowledged without its log entry.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Trees, MaxTx, MaxCrash, Retire, Order, EarlyAck

VARIABLES disk, log, next, mem, run, touch, acked, lost, crashes
vars == << disk, log, next, mem, run, touch, acked, lost, crashes >>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Txs == DOMAIN touch

Init == /\ disk = [t \in Trees |-> << >>]
        /\ log = {} /\ next = 1
        /\ mem = [t \in Trees |-> {}]
        /\ run = {} /\ touch = << >> /\ acked = {} /\ lost = {} /\ crashes = 0

Busy == UNION {r.trees : r \in run}

Begin == \E S \in (SUBSET Trees \ {{}}) :
  /\ Len(touch) < MaxTx /\ S \cap Busy = {}
  /\ touch' = Append(touch, S)
  /\ run' = run \cup {[tx |-> Len(touch) + 1, id |-> next, trees |-> S, todo |-> S, logged |-> FALSE]}
  /\ next' = next + 1
  /\ UNCHANGED << disk, log, mem, acked, lost, crashes >>

\* an id is used up, nothing is written
RollBack == \E r \in run :
  /\ r.todo = r.trees /\ ~r.logged
  /\ run' = run \ {r} /\ lost' = lost \cup {r.tx}
  /\ UNCHANGED << disk, log, next, mem, touch, acked, crashes >>

WriteTree == \E r \in run : \E t \in r.todo :
  /\ Order = "log" => r.logged
  /\ disk' = [disk EXCEPT ![t] = Append(@, [id |-> r.id, txs |-> mem[t] \cup {r.tx}])]
  /\ run' = (run \ {r}) \cup {[r EXCEPT !.todo = @ \ {t}]}
  /\ UNCHANGED << log, next, mem, touch, acked, lost, crashes >>

\* entries are written in the order of their ids
WriteLog == \E r \in run :
  /\ ~r.logged /\ (Order = "trees" => r.todo = {})
  /\ log' = log \cup {r.id}
  /\ run' = (run \ {r}) \cup {[r EXCEPT !.logged = TRUE]}
  /\ UNCHANGED << disk, next, mem, touch, acked, lost, crashes >>

Ack == \E r \in run :
  /\ r.todo = {} /\ (r.logged \/ EarlyAck)
  /\ run' = run \ {r}
  /\ mem' = [t \in Trees |-> IF t \in r.trees THEN mem[t] \cup {r.tx} ELSE mem[t]]
  /\ acked' = acked \cup {r.tx}
  /\ UNCHANGED << disk, log, next, touch, lost, crashes >>

Believed(t) ==
  LET I == {i \in DOMAIN disk[t] : disk[t][i].id \in log}
  IN IF I = {} THEN {} ELSE disk[t][Max(I)].txs

Crash ==
  LET written == UNION {{disk[t][i].id : i \in DOMAIN disk[t]} : t \in Trees}
      top == Max(log \cup {0})
      high == Max(written \cup {0})
      m == [t \in Trees |-> Believed(t)]
      retired == Retire /\ high > top
  IN /\ crashes < MaxCrash /\ crashes' = crashes + 1
     /\ mem' = m
     \* an empty transaction is logged behind the ids that are not to be used
     /\ log' = IF retired THEN log \cup {high + 1} ELSE log
     /\ next' = IF retired THEN high + 2 ELSE top + 1
     /\ lost' = lost \cup {r.tx : r \in {x \in run : \A t \in Trees : x.tx \notin m[t]}}
     /\ run' = {}
     /\ UNCHANGED << disk, touch, acked >>

Next == Begin \/ RollBack \/ WriteTree \/ WriteLog \/ Ack \/ Crash
Spec == Init /\ [][Next]_vars

\* what was acknowledged is there
Durable == \A x \in acked : \A t \in touch[x] : x \in mem[t]
\* a transaction is there in all of its trees or in none
Atomic == \A x \in Txs : (\E t \in touch[x] : x \in mem[t]) => \A t \in touch[x] : x \in mem[t]
\* what was found missing stays so
Gone == \A x \in lost : \A t \in Trees : x \notin mem[t]
Inv == Durable /\ Atomic /\ Gone
=============================================================================
