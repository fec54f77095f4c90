---------------------------- MODULE PubSubTrace -----------------------------
(* Checks what subscribers received in recorded rounds of concurrent          *)
(* operations: some moment for every operation between its call and its       *)
(* return explains it.  Each section of the trace is what concerns one        *)
(* subscriber in one round, with everything it received in that round.        *)
EXTENDS PubSub, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Threads == 1..5
Idle == [on |-> FALSE, at |-> 0, k |-> 0]

\* subs: subscribers of the current scenario; at: section being checked;
\* pend: per thread the call under way and how much of it has happened
VARIABLES l, subs, sec, pend
vars == << l, subs, sec, pend >>
Line == Trace[l]
EmptyFn == [x \in {} |-> NewSub]
Sec == Trace[sec]

Init == l = 1 /\ subs = EmptyFn /\ sec = 0 /\ pend = [t \in Threads |-> Idle] /\ TLCSet(1, 0)

IsReset == Line.e = "reset" /\ subs' = EmptyFn /\ pend' = [t \in Threads |-> Idle] /\ sec' = l /\ l' = l + 1
IsLook ==
  /\ Line.e = "look" /\ Line.bad = "" /\ sec' = l /\ l' = l + 1
  /\ LET s == IF Line.sid \in DOMAIN subs THEN subs[Line.sid] ELSE NewSub
     IN subs' = [x \in DOMAIN subs \cup {Line.sid} |-> IF x = Line.sid THEN [s EXCEPT !.rem = Line.got] ELSE subs[x]]
  /\ pend' = [t \in Threads |-> Idle]
IsCall == /\ Line.e = "call" /\ Line.res = "ok" /\ l' = l + 1
          /\ pend' = [pend EXCEPT ![Line.th] = [on |-> TRUE, at |-> l, k |-> 0]]
          /\ UNCHANGED << subs, sec >>
Steps(o) == IF o.op = "publish" THEN Len(o.topics) ELSE 1
Done(t) == pend[t].k >= Steps(Trace[pend[t].at])
Late(t) == LET o == Trace[pend[t].at] IN o.op = "drop" /\ o.late = 1
IsRet == /\ Line.e = "ret" /\ pend[Line.th].on /\ l' = l + 1
         \* what a thread does next may overtake the drop it left to the background
         /\ \/ Done(Line.th) /\ pend' = [pend EXCEPT ![Line.th] = Idle] /\ UNCHANGED subs
            \/ ~Done(Line.th) /\ Late(Line.th)
               /\ pend' = [pend EXCEPT ![Line.th] = Idle, ![5] = pend[Line.th]] /\ UNCHANGED subs
         /\ UNCHANGED sec
Step(t) ==
  /\ pend[t].on /\ ~Done(t)
  /\ LET o == Trace[pend[t].at]
         s == subs[Sec.sid]
         new == CASE o.op = "publish" -> Publish(s, t, o.n, o.topics[pend[t].k + 1], Sec.gone = 1 /\ Sec.conn >= 3)
                  [] o.op = "sub" -> {Subscribe(s, o.topic)}
                  [] o.op = "unsub" -> {Unsubscribe(s, o.topic)}
                  [] o.op = "drop" -> {Dropped(s)}
     IN \E n \in new : subs' = [subs EXCEPT ![Sec.sid] = n]
  /\ pend' = [pend EXCEPT ![t].k = @ + 1]
  /\ UNCHANGED << l, sec >>
Lin == Line.e \in {"ret", "end"} /\ (Line.e = "ret" => ~Done(Line.th)) /\ \E t \in Threads : Step(t)
IsEnd == /\ Line.e = "end" /\ l' = l + 1 /\ UNCHANGED << subs, sec >>
         /\ \A t \in Threads : pend[t].on => Done(t)
         /\ subs[Sec.sid].rem = << >>
         /\ subs[Sec.sid].on = (Sec.gone = 0)
         /\ pend' = [t \in Threads |-> Idle]

Next == l <= Len(Trace) /\ (IsReset \/ IsLook \/ IsCall \/ IsRet \/ Lin \/ IsEnd)
Spec == Init /\ [][Next]_vars
Inv == l - 1 > TLCGet(1) => TLCSet(1, l - 1)
Accepted ==
  \/ TLCGet(1) = Len(Trace)
  \/ PrintT(<< "REJECTED", TLCGet(1) + 1 >>) /\ FALSE
=============================================================================
