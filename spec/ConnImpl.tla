------------------------------ MODULE ConnImpl ------------------------------
(* How the server and its clients keep sessions and subscribers apart: each      *)
(* connection has its own tables at the server, and a client marks what it got   *)
(* with the number of the connection it got it from.  Numbers given out by the   *)
(* server start again when it does.  Requests travel separately from what        *)
(* happens to the connection.                                                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Clients, Users, MaxSteps, MaxConns, Variant
\* Variant: "ok", or what is broken
VARIABLES
  conn,     \* client -> number of its current connection at the server (0: none)
  count,    \* client -> times it has connected
  hs,       \* client -> set of handles [sid, u, at]: at = count when obtained
  subs,     \* client -> set of subscribers [id, at, own]
  srv,      \* connections the server knows: number -> [c, sess: sid -> user, subs: set of ids]
  nextc, nexts, nextid,
  relay,    \* subscriptions in force: set of [conn, id, c, epoch]
  steps,
  bad       \* what went wrong
vars == << conn, count, hs, subs, srv, nextc, nexts, nextid, relay, steps, bad >>
NoSess == 0
Init ==
  /\ conn = [c \in Clients |-> 0] /\ count = [c \in Clients |-> 0]
  /\ hs = [c \in Clients |-> {}] /\ subs = [c \in Clients |-> {}]
  /\ srv = << >> /\ nextc = 1 /\ nexts = 1 /\ nextid = 1 /\ relay = {} /\ steps = 0 /\ bad = {}
Step == steps < MaxSteps /\ steps' = steps + 1
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* a request over connection n for session sid runs with the rights of ...
Lookup(n, sid) ==
  IF Variant = "global" /\ \E m \in DOMAIN srv : sid \in DOMAIN srv[m].sess
    THEN LET m == CHOOSE m \in DOMAIN srv : sid \in DOMAIN srv[m].sess IN srv[m].sess[sid]
  ELSE IF sid \in DOMAIN srv[n].sess THEN srv[n].sess[sid] ELSE 0
Current(c, h) == h.at = count[c]
SentSid(c, h) == IF Current(c, h) \/ Variant = "stale" THEN h.sid ELSE NoSess

Connect(c) ==
  /\ Step /\ conn[c] = 0 /\ nextc <= MaxConns
  /\ conn' = [conn EXCEPT ![c] = nextc] /\ count' = [count EXCEPT ![c] = @ + 1] /\ nextc' = nextc + 1
  /\ srv' = Put(srv, nextc, [c |-> c, sess |-> << >>, subs |-> {}])
  /\ UNCHANGED << hs, subs, nexts, nextid, relay, bad >>
Login(c, u) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv
  /\ srv' = [srv EXCEPT ![conn[c]].sess = Put(@, nexts, u)] /\ nexts' = nexts + 1
  /\ hs' = [hs EXCEPT ![c] = @ \cup {[sid |-> nexts, u |-> u, at |-> count[c]]}]
  /\ UNCHANGED << conn, count, subs, nextc, nextid, relay, bad >>
\* the rights used are those of the handle's session, if it still has one
Use(c, h) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv
  /\ bad' = bad \cup (IF Lookup(conn[c], SentSid(c, h)) = (IF Current(c, h) THEN h.u ELSE 0) THEN {} ELSE {"rights"})
  /\ UNCHANGED << conn, count, hs, subs, srv, nextc, nexts, nextid, relay >>
\* a client that names a session of another connection gets nothing by it
UseForeign(c, sid) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv /\ sid \notin DOMAIN srv[conn[c]].sess
  /\ bad' = bad \cup (IF Lookup(conn[c], sid) = 0 THEN {} ELSE {"rights"})
  /\ UNCHANGED << conn, count, hs, subs, srv, nextc, nexts, nextid, relay >>
LogoutForeign(c, sid) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv /\ sid \notin DOMAIN srv[conn[c]].sess
  /\ srv' = [m \in DOMAIN srv |-> IF m = conn[c] \/ Variant = "globallogout" THEN [srv[m] EXCEPT !.sess = Drop(@, {sid})] ELSE srv[m]]
  /\ UNCHANGED << conn, count, hs, subs, nextc, nexts, nextid, relay, bad >>
Logout(c, h) ==
  /\ Step /\ hs' = [hs EXCEPT ![c] = @ \ {h}]
  /\ IF conn[c] # 0 /\ conn[c] \in DOMAIN srv /\ (Current(c, h) \/ Variant = "stalelogout")
       THEN LET n == {conn[c]} IN
            srv' = [m \in DOMAIN srv |-> IF m \in n THEN [srv[m] EXCEPT !.sess = Drop(@, {h.sid})] ELSE srv[m]]
       ELSE UNCHANGED srv
  /\ UNCHANGED << conn, count, subs, nextc, nexts, nextid, relay, bad >>
Subscribe(c) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv
  /\ srv' = [srv EXCEPT ![conn[c]].subs = @ \cup {nextid}] /\ nextid' = nextid + 1
  /\ relay' = relay \cup {[conn |-> conn[c], id |-> nextid]}
  /\ subs' = [subs EXCEPT ![c] = @ \cup {[id |-> nextid, at |-> count[c]]}]
  /\ UNCHANGED << conn, count, hs, nextc, nexts, bad >>
\* dropping a subscriber ends its own subscription and no other
Unsubscribe(c, s) ==
  /\ Step /\ subs' = [subs EXCEPT ![c] = @ \ {s}]
  /\ IF conn[c] # 0 /\ conn[c] \in DOMAIN srv /\ (s.at = count[c] \/ Variant = "staleunsub")
       THEN /\ srv' = [m \in DOMAIN srv |-> IF m = conn[c] \/ Variant = "globalunsub" THEN [srv[m] EXCEPT !.subs = @ \ {s.id}] ELSE srv[m]]
            /\ relay' = {r \in relay : r.id # s.id \/ (r.conn # conn[c] /\ Variant # "globalunsub")}
       ELSE UNCHANGED << srv, relay >>
  /\ UNCHANGED << conn, count, hs, nextc, nexts, nextid, bad >>
\* another connection names an id that isn't its own
Foreign(c, id) ==
  /\ Step /\ conn[c] # 0 /\ conn[c] \in DOMAIN srv /\ id \notin srv[conn[c]].subs
  /\ IF Variant = "globalunsub" THEN relay' = {r \in relay : r.id # id} /\ srv' = [m \in DOMAIN srv |-> [srv[m] EXCEPT !.subs = @ \ {id}]]
                                ELSE UNCHANGED << relay, srv >>
  /\ UNCHANGED << conn, count, hs, subs, nextc, nexts, nextid, bad >>
\* the connection is lost; the server notices
Lose(c) ==
  /\ Step /\ conn[c] # 0
  /\ srv' = IF Variant = "keep" THEN srv ELSE Drop(srv, {conn[c]})
  /\ relay' = IF Variant \in {"keep", "keepsubs"} THEN relay ELSE {r \in relay : r.conn # conn[c]}
  /\ conn' = [conn EXCEPT ![c] = 0]
  /\ UNCHANGED << count, hs, subs, nextc, nexts, nextid, bad >>
Restart ==
  /\ Step /\ srv' = << >> /\ relay' = {} /\ nexts' = 1 /\ nextid' = 1
  /\ conn' = [c \in Clients |-> 0]
  /\ UNCHANGED << count, hs, subs, nextc, bad >>

Next ==
  \/ Restart
  \/ \E c \in Clients : Connect(c) \/ Subscribe(c) \/ Lose(c) \/ (\E u \in Users : Login(c, u)) \/ (\E h \in hs[c] : Use(c, h) \/ Logout(c, h))
                        \/ (\E s \in subs[c] : Unsubscribe(c, s)) \/ (\E i \in 1..nextid : Foreign(c, i))
                        \/ (\E i \in 1..nexts : UseForeign(c, i) \/ LogoutForeign(c, i))
Spec == Init /\ [][Next]_vars

Rights == bad = {}
\* what the server has of the connections is what their clients have
Live(c) == {h \in hs[c] : Current(c, h)}
Kept == \A c \in Clients : conn[c] # 0 /\ conn[c] \in DOMAIN srv =>
          /\ DOMAIN srv[conn[c]].sess = {h.sid : h \in Live(c)}
          /\ srv[conn[c]].subs = {s.id : s \in {s \in subs[c] : s.at = count[c]}}
          /\ srv[conn[c]].subs = {r.id : r \in {r \in relay : r.conn = conn[c]}}
Gone == /\ DOMAIN srv \subseteq {conn[c] : c \in Clients}
        /\ \A r \in relay : r.conn \in DOMAIN srv
=============================================================================
