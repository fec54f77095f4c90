------------------------------ MODULE ConnTrace ------------------------------
(* Several connections to a server, each a program of its own: what each        *)
(* observes is a function of what it did itself, of what the server allows its   *)
(* sessions, and of the messages published.  ep counts the times a connection    *)
(* was replaced by another one (cut off, closed, or the server was restarted);   *)
(* nothing of an earlier one remains in force.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  hd,      \* the line of the last reset
  ep,      \* connection -> its current epoch
  tries,   \* connection -> requests that may still fail because the connection was lost
  H,       \* handle -> [c, ep, s, u]   (s = 0: no session)
  S,       \* subscriber -> [c, ep, s, db, on, ended]
  pubs,    \* publications of this round
  late,    \* earlier ones that may yet arrive
  notes,   \* what the server sent unasked in this round
  had      \* notes received before
vars == << l, hd, ep, tries, H, S, pubs, late, notes, had >>
Line == Trace[l]
RangeOf(q) == {q[i] : i \in DOMAIN q}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Inf == 1000000000
None == << >>

Init ==
  /\ l = 1 /\ hd = 1 /\ ep = None /\ tries = None /\ H = None /\ S = None
  /\ pubs = {} /\ late = {} /\ notes = {} /\ had = {}
IsReset ==
  /\ Line.e = "reset" /\ hd' = l
  /\ ep' = None /\ tries' = None /\ H' = None /\ S' = None
  /\ pubs' = {} /\ late' = {} /\ notes' = {} /\ had' = {}

\* what a handle may do now
Valid(h) == H[h].ep = ep[H[h].c] /\ H[h].s > 0
UserOf(h) == IF Valid(h) THEN H[h].u ELSE 0
Default == RangeOf(Trace[hd].def)
Rights(h) == IF Valid(h) THEN RangeOf(Trace[hd].auth) \cup RangeOf(Trace[hd].users[H[h].u]) ELSE Default

\* a request may fail when the connection was lost before, a few times
Answered(c, r) ==
  IF r = "net" THEN tries[c] > 0 /\ tries' = [tries EXCEPT ![c] = @ - 1]
  ELSE tries' = [tries EXCEPT ![c] = 0]
Expect(c, r, may) == Answered(c, r) /\ (r # "net" => r = IF may THEN "ok" ELSE "denied")
Mine(h) == h \in DOMAIN H /\ H[h].c = Line.c

IsConnect ==
  /\ Line.e = "connect"
  /\ Line.ep = (IF Line.c \in DOMAIN ep THEN ep[Line.c] + 1 ELSE 1)
  /\ ep' = Put(ep, Line.c, Line.ep) /\ tries' = Put(tries, Line.c, 0)
  /\ H' = Put(H, Line.n, [c |-> Line.c, ep |-> Line.ep, s |-> 0, u |-> 0])
  /\ UNCHANGED << hd, S, pubs, late, notes, had >>
Name(u) == IF u = 0 THEN "" ELSE "u" \o ToString(u)
IsWho ==
  /\ Line.e = "who" /\ Mine(Line.h) /\ Answered(Line.c, Line.r)
  /\ Line.r # "net" => Line.r = "ok" /\ Line.rc = Line.c /\ Line.rep = ep[Line.c] /\ Line.u = Name(UserOf(Line.h))
  /\ UNCHANGED << hd, ep, H, S, pubs, late, notes, had >>
IsLogin ==
  /\ Line.e = "login" /\ Mine(Line.h)
  /\ Expect(Line.c, Line.r, Line.assume = 0 \/ Valid(Line.h))
  /\ H' = IF Line.r = "ok" THEN Put(H, Line.n, [c |-> Line.c, ep |-> ep[Line.c], s |-> Line.s, u |-> Line.u]) ELSE H
  /\ UNCHANGED << hd, ep, S, pubs, late, notes, had >>
IsProbe ==
  /\ Line.e = "probe" /\ Mine(Line.h)
  /\ Expect(Line.c, Line.r, Line.db \in Rights(Line.h))
  /\ UNCHANGED << hd, ep, H, S, pubs, late, notes, had >>
IsClone ==
  /\ Line.e = "clone" /\ Mine(Line.h) /\ H' = Put(H, Line.n, H[Line.h])
  /\ UNCHANGED << hd, ep, tries, S, pubs, late, notes, had >>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
IsDrop ==
  /\ Line.e = "drop" /\ Mine(Line.h) /\ H' = Without(H, Line.h)
  /\ UNCHANGED << hd, ep, tries, S, pubs, late, notes, had >>

\* subscribers
IsNewSub ==
  /\ Line.e = "newsub" /\ Mine(Line.h)
  /\ Expect(Line.c, Line.r, Line.db \in Rights(Line.h))
  /\ S' = IF Line.r # "ok" THEN S
          ELSE Put(S, Line.s, [c |-> Line.c, ep |-> ep[Line.c], s |-> IF Valid(Line.h) THEN H[Line.h].s ELSE 0, u |-> UserOf(Line.h),
                               db |-> Line.db, on |-> {}, ended |-> FALSE, seen |-> {}])
  /\ UNCHANGED << hd, ep, H, pubs, late, notes, had >>
\* times of being subscribed: from somewhere in a0..a1 to somewhere in b0..b1
Open(i) == i.b1 = Inf
Set(on, t, x) ==
  IF x.on = 1 THEN IF \E i \in on : i.t = t /\ Open(i) THEN on ELSE on \cup {[t |-> t, a0 |-> x.s0, a1 |-> x.s1, b0 |-> Inf, b1 |-> Inf]}
  ELSE {IF i.t = t /\ Open(i) THEN [i EXCEPT !.b0 = x.s0, !.b1 = x.s1] ELSE i : i \in on}
IsSet ==
  /\ Line.e = "set" /\ S[Line.s].c = Line.c
  \* one of an earlier connection is of no use
  /\ IF S[Line.s].ep # ep[Line.c] THEN Line.r = "net" /\ UNCHANGED << S, tries >>
     ELSE Line.r = "ok" /\ UNCHANGED tries /\ S' = [S EXCEPT ![Line.s].on = Set(@, Line.t, Line)]
  /\ UNCHANGED << hd, ep, H, pubs, late, notes, had >>
End(s, s0, s1) == [s EXCEPT !.ended = TRUE, !.on = {IF Open(i) THEN [i EXCEPT !.b0 = s0, !.b1 = s1] ELSE i : i \in @}]
IsDropSub ==
  /\ Line.e = "dropsub" /\ S[Line.s].c = Line.c
  /\ S' = [S EXCEPT ![Line.s] = [End(@, Line.s0, IF Line.late = 1 THEN Inf - 1 ELSE Line.s1) EXCEPT !.s = 0]]
  /\ UNCHANGED << hd, ep, tries, H, pubs, late, notes, had >>
\* the end of a connection: (what was on its way may still come for a moment)
Lost(c, s0) == [s \in DOMAIN S |-> IF S[s].c = c THEN End(S[s], s0, Inf - 1) ELSE S[s]]
IsCut ==
  /\ Line.e = "cut" /\ Line.ep = ep[Line.c] + 1
  /\ ep' = [ep EXCEPT ![Line.c] = @ + 1] /\ tries' = [tries EXCEPT ![Line.c] = 3]
  /\ S' = Lost(Line.c, Line.s1)
  /\ UNCHANGED << hd, H, pubs, late, notes, had >>
IsDisconnect ==
  /\ Line.e = "disconnect"
  /\ H' = [h \in {h \in DOMAIN H : H[h].c # Line.c} |-> H[h]]
  /\ UNCHANGED << hd, ep, tries, S, pubs, late, notes, had >>
IsRestart ==
  /\ Line.e = "restart"
  /\ \A c \in DOMAIN ep : \E i \in DOMAIN Line.eps : Line.eps[i] = ep[c] + 1
  /\ ep' = [c \in DOMAIN ep |-> ep[c] + 1] /\ tries' = [c \in DOMAIN ep |-> 3]
  /\ S' = [s \in DOMAIN S |-> End(S[s], 0, 0)]
  /\ late' = {}
  /\ UNCHANGED << hd, H, pubs, notes, had >>
IsPub ==
  /\ Line.e = "pub" /\ Mine(Line.h)
  /\ Expect(Line.c, Line.r, Line.db \in Rights(Line.h))
  /\ LET p == [db |-> Line.db, t |-> Line.t, c |-> Line.c, n |-> Line.n, s0 |-> Line.s0, s1 |-> Line.s1] IN
     CASE Line.r = "ok" -> pubs' = pubs \cup {p} /\ UNCHANGED late
       [] Line.r = "net" /\ Line.db \in Rights(Line.h) -> late' = late \cup {[p EXCEPT !.s1 = Inf]} /\ UNCHANGED pubs
       [] OTHER -> UNCHANGED << pubs, late >>
  /\ UNCHANGED << hd, ep, H, S, notes, had >>
\* asking for what another connection has: nothing happens
IsForeign ==
  /\ Line.e = "foreign" /\ Mine(Line.h) /\ Answered(Line.c, Line.r)
  /\ Line.r # "net" => Line.r = IF Line.what = "logout" THEN "ok" ELSE "nosub"
  /\ UNCHANGED << hd, ep, H, S, pubs, late, notes, had >>

\* what a subscriber received in a round, after everything published in it has arrived
Fits(i, p) == i.t = p.t /\ i.a0 <= p.s1 /\ p.s0 <= i.b1
Sure(i, p) == i.t = p.t /\ i.a1 < p.s0 /\ p.s1 < i.b0
IsRecv ==
  /\ Line.e = "recv"
  /\ IF Line.s \notin DOMAIN S THEN Line.got = << >>
     ELSE LET s == S[Line.s]
              id(m) == << m.c, m.n >>
              may == {p \in pubs \cup late : p.db = s.db /\ \E i \in s.on : Fits(i, p)}
              must == {p \in pubs : p.db = s.db /\ \E i \in s.on : Sure(i, p)}
              got == {id(Line.got[i]) : i \in DOMAIN Line.got}
          IN /\ \A i \in DOMAIN Line.got : \E p \in may : id(Line.got[i]) = << p.c, p.n >> /\ p.t = Line.got[i].t
             /\ Cardinality(got) = Len(Line.got) /\ got \cap s.seen = {}
             /\ ~s.ended => Line.closed = 0 /\ Line.mark = 1 /\ \A p \in must : id(p) \in got
             /\ s.ended => Line.closed = 1
             \* each publisher's in order
             /\ \A i, j \in DOMAIN Line.got : i < j /\ Line.got[i].c = Line.got[j].c => Line.got[i].n < Line.got[j].n
             /\ S' = [S EXCEPT ![Line.s].seen = {x \in @ : \E p \in late : x = id(p)} \cup {x \in got : \E p \in late : x = id(p)},
                               \* what remains for the next round
                               ![Line.s].on = {i \in @ : Open(i)}]
  /\ (Line.s \notin DOMAIN S => UNCHANGED S)
  /\ UNCHANGED << hd, ep, tries, H, pubs, late, notes, had >>

\* what the server knows of the connections when everything has calmed down
Sessions(c) == {<< H[h].s, H[h].u >> : h \in {h \in DOMAIN H : H[h].c = c /\ Valid(h)}}
               \cup {<< S[s].s, S[s].u >> : s \in {s \in DOMAIN S : S[s].c = c /\ S[s].ep = ep[c] /\ S[s].s > 0}}
IsSeen ==
  /\ Line.e = "seen"
  /\ Len(Line.cs) = Cardinality(DOMAIN ep)
  /\ \A c \in DOMAIN ep : \E i \in DOMAIN Line.cs :
       /\ Line.cs[i].c = c /\ Line.cs[i].ep = ep[c]
       /\ \A u \in DOMAIN Line.cs[i].us : Line.cs[i].us[u] = Cardinality({x \in Sessions(c) : x[2] = u})
  \* ... and it has forgotten the others
  /\ Len(Line.known) = Cardinality(DOMAIN ep)
  /\ \A c \in DOMAIN ep : \E i \in DOMAIN Line.known : Line.known[i] = << c, ep[c] >>
  /\ UNCHANGED << hd, ep, tries, H, S, pubs, late, notes, had >>
IsNote ==
  /\ Line.e = "note" /\ notes' = notes \cup {[n |-> Line.n, c |-> Line.c, ep |-> Line.ep, ok |-> Line.r = "ok"]}
  /\ UNCHANGED << hd, ep, tries, H, S, pubs, late, had >>
IsNotes ==
  /\ Line.e = "notes"
  /\ \A i \in DOMAIN Line.got : \E x \in notes : x.n = Line.got[i] /\ x.c \in {0, Line.c}
  /\ Cardinality(RangeOf(Line.got)) = Len(Line.got)
  /\ \A i \in DOMAIN Line.got : << Line.c, Line.got[i] >> \notin had
  \* (what is sent to a connection that stays arrives)
  /\ \A x \in notes : x.ok /\ x.c = Line.c /\ x.ep = ep[Line.c] => x.n \in RangeOf(Line.got) \/ << Line.c, x.n >> \in had
  /\ had' = had \cup {<< Line.c, Line.got[i] >> : i \in DOMAIN Line.got}
  /\ UNCHANGED << hd, ep, tries, H, S, pubs, late, notes >>
IsEnd ==
  /\ Line.e = "end" /\ Line.slow = 0 /\ pubs' = {}
  /\ UNCHANGED << hd, ep, tries, H, S, late, notes, had >>

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ IsReset \/ IsConnect \/ IsWho \/ IsLogin \/ IsProbe \/ IsClone \/ IsDrop \/ IsNewSub \/ IsSet \/ IsDropSub \/ IsCut \/ IsDisconnect
     \/ IsRestart \/ IsPub \/ IsForeign \/ IsRecv \/ IsSeen \/ IsNote \/ IsNotes \/ IsEnd
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
