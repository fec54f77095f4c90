----------------------------- MODULE PubSubImpl -----------------------------
(* How a message travels: the relay of the server puts it in the queue of     *)
(* each subscriber of its topic, one after the other; for a remote            *)
(* subscriber a task moves it to the connection, in which it is followed by   *)
(* what else the server says; the client looks up the subscriber by its       *)
(* number and puts it in the queue its user reads.  Several sessions share a  *)
(* connection.  Checked: what a subscriber has received, followed by what is  *)
(* on its way to it, is what the relay decided to give it, in that order, and *)
(* nothing of another database or of before its subscription.                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Subs,      \* a subscriber is << number in the model, database, session >>
          Publishers, Topics, Dbs, MaxMsgs,
          Prefixed,  \* the relay's topics begin with the name of the database
          GlobalIds, \* subscribers are numbered by the storage, not by the session
          EarlyMap,  \* the client knows a subscriber before its user can subscribe it
          InOrder,   \* the client handles messages one at a time
          TopicsGone \* dropping a subscriber ends its subscriptions, and no others

VARIABLES state,     \* sub -> "none", "asked", "known" (user has it), "dropped"
          id,        \* sub -> number
          map,       \* client: number -> sub, 0: none
          relay,     \* set of << db (or 0), topic, sub >>
          queue,     \* sub -> what the relay has put there
          conn,      \* what is on the connection: << number, message >>
          hands,     \* messages taken from the connection and being handled
          got, due,  \* sub -> received; decided by the relay
          pub,       \* publisher -> what it is publishing, and to whom it still has to go
          n, subbed  \* messages so far; sub -> topics as the user sees it
vars == << state, id, map, relay, queue, conn, hands, got, due, pub, n, subbed >>

Nums == 0..Cardinality(Subs)
Db(s) == s[2]
Session(s) == s[3]
TopicOf(d, t) == << IF Prefixed THEN d ELSE 0, t >>
NoMsg == [n |-> 0, db |-> 0, topic |-> 0, th |-> 0]
IdlePub == [m |-> NoMsg, to |-> {}]

Init == /\ state = [s \in Subs |-> "none"] /\ id = [s \in Subs |-> 0]
        /\ map = [i \in Nums |-> << 0 >>] /\ relay = {}
        /\ queue = [s \in Subs |-> << >>] /\ conn = << >> /\ hands = {}
        /\ got = [s \in Subs |-> << >>] /\ due = [s \in Subs |-> << >>]
        /\ pub = [p \in Publishers |-> IdlePub] /\ n = 0
        /\ subbed = [s \in Subs |-> {}]

NextId(s) == 1 + (IF GlobalIds THEN Cardinality({x \in Subs : state[x] # "none"})
                  ELSE Cardinality({x \in Subs : state[x] # "none" /\ Session(x) = Session(s)}))
Create(s) == /\ state[s] = "none" /\ state' = [state EXCEPT ![s] = IF EarlyMap THEN "known" ELSE "asked"]
             /\ id' = [id EXCEPT ![s] = NextId(s)]
             /\ map' = IF EarlyMap THEN [map EXCEPT ![NextId(s)] = s] ELSE map
             /\ UNCHANGED << relay, queue, conn, hands, got, due, pub, n, subbed >>
Register(s) == /\ state[s] = "asked" /\ state' = [state EXCEPT ![s] = "known"]
               /\ map' = [map EXCEPT ![id[s]] = s]
               /\ UNCHANGED << id, relay, queue, conn, hands, got, due, pub, n, subbed >>
Subscribe(s, t) == /\ state[s] \in {"known", "asked"} /\ t \notin subbed[s]
                   /\ relay' = relay \cup {<< TopicOf(Db(s), t), s >>}
                   /\ subbed' = [subbed EXCEPT ![s] = @ \cup {t}]
                   /\ UNCHANGED << state, id, map, queue, conn, hands, got, due, pub, n >>
Unsubscribe(s, t) == /\ state[s] = "known" /\ t \in subbed[s]
                     /\ relay' = relay \ {<< TopicOf(Db(s), t), s >>}
                     /\ subbed' = [subbed EXCEPT ![s] = @ \ {t}]
                     /\ UNCHANGED << state, id, map, queue, conn, hands, got, due, pub, n >>
Drop(s) == /\ state[s] = "known" /\ state' = [state EXCEPT ![s] = "dropped"]
           /\ relay' = {r \in relay : IF TopicsGone THEN r[2] # s
                                      ELSE \A t \in subbed[s] : r[1] # TopicOf(Db(s), t)}
           /\ map' = [map EXCEPT ![id[s]] = << 0 >>] /\ subbed' = [subbed EXCEPT ![s] = {}]
           /\ UNCHANGED << id, queue, conn, hands, got, due, pub, n >>

\* publishing: the subscribers of the topic are looked up, then given the message one by one
Begin(p, d, t) ==
  /\ pub[p].to = {} /\ n < MaxMsgs /\ n' = n + 1
  /\ LET to == {r[2] : r \in {x \in relay : x[1] = TopicOf(d, t)}}
     IN /\ pub' = [pub EXCEPT ![p] = [m |-> [n |-> n + 1, db |-> d, topic |-> t, th |-> p], to |-> to]]
        /\ due' = [s \in Subs |-> IF Db(s) = d /\ t \in subbed[s] THEN Append(due[s], n + 1) ELSE due[s]]
  /\ UNCHANGED << state, id, map, relay, queue, conn, hands, got, subbed >>
Give(p, s) == /\ s \in pub[p].to /\ pub' = [pub EXCEPT ![p].to = @ \ {s}]
              /\ queue' = IF state[s] = "dropped" THEN queue ELSE [queue EXCEPT ![s] = Append(@, pub[p].m)]
              /\ UNCHANGED << state, id, map, relay, conn, hands, got, due, n, subbed >>
Forward(s) == /\ queue[s] # << >> /\ conn' = Append(conn, << id[s], Head(queue[s]) >>)
              /\ queue' = [queue EXCEPT ![s] = Tail(@)]
              /\ UNCHANGED << state, id, map, relay, hands, got, due, pub, n, subbed >>
Take == /\ conn # << >> /\ (InOrder => hands = {}) /\ hands' = hands \cup {Head(conn)} /\ conn' = Tail(conn)
        /\ UNCHANGED << state, id, map, relay, queue, got, due, pub, n, subbed >>
Handle(h) == /\ h \in hands /\ hands' = hands \ {h}
             /\ got' = IF map[h[1]] = << 0 >> THEN got ELSE [got EXCEPT ![map[h[1]]] = Append(@, h[2])]
             /\ UNCHANGED << state, id, map, relay, queue, conn, due, pub, n, subbed >>

Next == \/ \E s \in Subs : Create(s) \/ Register(s) \/ Drop(s) \/ Forward(s)
                           \/ \E t \in Topics : Subscribe(s, t) \/ Unsubscribe(s, t)
        \/ \E p \in Publishers : (\E d \in Dbs, t \in Topics : Begin(p, d, t)) \/ \E s \in Subs : Give(p, s)
        \/ Take \/ \E h \in hands : Handle(h)
Spec == Init /\ [][Next]_vars

Of(q, p) == LET f(m) == m.th = p IN SelectSeq(q, f)
Quiet == conn = << >> /\ hands = {} /\ (\A s \in Subs : queue[s] = << >>) /\ \A p \in Publishers : pub[p].to = {}
Numbers(q) == {q[i].n : i \in 1..Len(q)}
\* nothing of another database, another topic, or twice
Own == \A s \in Subs : \A i \in 1..Len(got[s]) :
         /\ got[s][i].db = Db(s) /\ \E j \in 1..Len(due[s]) : due[s][j] = got[s][i].n
         /\ \A j \in 1..Len(got[s]) : got[s][i].n = got[s][j].n => i = j
\* one publisher's messages arrive as it published them
Fifo == \A s \in Subs, p \in Publishers :
          LET q == Of(got[s], p) IN \A i, j \in 1..Len(q) : i < j => q[i].n < q[j].n
\* what was due has arrived once nothing is on its way
All == Quiet => \A s \in Subs : state[s] \in {"known", "asked"} => Numbers(got[s]) = {due[s][i] : i \in 1..Len(due[s])}
=============================================================================
