------------------------------- MODULE PubSub -------------------------------
(* Publishing and subscribing, as one subscriber sees it: the topics it is    *)
(* subscribed to, whether it still exists, and the messages it is yet to      *)
(* receive.  A publish gives it, for each topic named and in that order, one  *)
(* message if it is subscribed to the topic in the same database.  Messages   *)
(* of one publisher arrive in the order they were published; those of         *)
(* different publishers in any order.                                         *)
EXTENDS Integers, Sequences, FiniteSets

\* a subscriber: topics, on (not dropped), rem (received, not yet explained),
\* lost (publishers of whom the rest may be lost with the dropped connection)
NewSub == [topics |-> {}, on |-> TRUE, rem |-> << >>, lost |-> {}]

RECURSIVE FirstOf(_, _, _)
FirstOf(rem, th, i) == IF i > Len(rem) THEN 0 ELSE IF rem[i].th = th THEN i ELSE FirstOf(rem, th, i + 1)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* What one message published by th may do to the subscriber.
Publish(s, th, n, topic, mayLose) ==
  IF ~s.on \/ topic \notin s.topics THEN {s}
  ELSE LET i == FirstOf(s.rem, th, 1)
           good == i > 0 /\ s.rem[i].topic = topic /\ s.rem[i].n = n /\ s.rem[i].whole = 1 /\ th \notin s.lost
       IN (IF good THEN {[s EXCEPT !.rem = Without(s.rem, i)]} ELSE {})
          \cup (IF mayLose THEN {[s EXCEPT !.lost = @ \cup {th}]} ELSE {})
Subscribe(s, topic) == [s EXCEPT !.topics = @ \cup {topic}]
Unsubscribe(s, topic) == [s EXCEPT !.topics = @ \ {topic}]
Dropped(s) == [s EXCEPT !.on = FALSE, !.topics = {}]
=============================================================================
