------------------------------ MODULE AuthTrace ------------------------------
(* Checks recorded programs of authentication against Auth.                   *)
EXTENDS Auth, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hd, adm, hs
vars == << l, hd, adm, hs >>
Line == Trace[l]
Default == Trace[hd].default
AuthDefault == Trace[hd].auth

Init == l = 1 /\ hd = 1 /\ adm = InitAdm /\ hs = << >>
IsReset == Line.e = "reset" /\ hd' = l /\ adm' = InitAdm /\ hs' = << >>
IsOpen ==
  /\ Line.e = "open" /\ Line.h = Len(hs) + 1
  /\ hs' = Append(hs, IF Line.free = 1 THEN Free(Line.conn) ELSE Limited(Line.conn, << Default >>, 0, ""))
  /\ UNCHANGED << hd, adm >>
\* without sessions, by the unrestricted storage
IsAdm ==
  /\ adm' = CASE Line.e = "putgroup" -> [adm EXCEPT !.groups = Put(@, Line.id, [n |-> Line.n, sts |-> Line.sts])]
              [] Line.e = "delgroup" -> [adm EXCEPT !.groups = Del(@, Line.id)]
              [] Line.e = "putrole" -> [adm EXCEPT !.roles = Put(@, Line.id, [n |-> Line.n, groups |-> RangeOf(Line.groups)])]
              [] Line.e = "delrole" -> [adm EXCEPT !.roles = Del(@, Line.id)]
              [] Line.e = "puttoken" -> [adm EXCEPT !.tokens = Put(@, Line.tk, [what |-> Line.what, id |-> Line.id])]
              [] Line.e = "deltoken" -> [adm EXCEPT !.tokens = Del(@, Line.tk)]
  /\ UNCHANGED << hd, hs >>
IsAct ==
  /\ Line.e = "act"
  /\ LET h == hs[Line.h]
         x == Act(adm, AuthDefault, h, {hs[i].sid : i \in DOMAIN hs}, Line, Line.res)
         spent == [hs EXCEPT ![Line.h].spent = @ \/ (Line.op = "tfinish" /\ h.sid > 0)]
     IN /\ x.ok
        /\ adm' = x.adm
        /\ hs' = spent \o x.new
  /\ UNCHANGED hd
\* several operations at once: some order explains them; a change to a user that
\* collides with another may be refused
Collides == {"group", "role", "setpw", "deleteuser"}
RECURSIVE Runs(_, _, _, _)
Runs(a, H, left, news) ==
  IF left = {} THEN {[adm |-> a, hs |-> H, news |-> news]}
  ELSE UNION {
    LET o == Line.ops[i]
        x == Act(a, AuthDefault, H[o.h], {hs[j].sid : j \in DOMAIN hs} \cup UNION {{news[k][j].sid : j \in DOMAIN news[k]} : k \in DOMAIN news}, o, o.res)
    IN IF o.res.t \in {"conflict", "notfound"} THEN IF o.op \in Collides THEN Runs(a, H, left \ {i}, news) ELSE {}
       ELSE IF ~x.ok THEN {}
       ELSE Runs(x.adm, [H EXCEPT ![o.h].spent = @ \/ (o.op = "tfinish" /\ H[o.h].sid > 0)], left \ {i}, [news EXCEPT ![i] = x.new])
    : i \in left}
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
IsRace ==
  /\ Line.e = "race"
  /\ \E r \in Runs(adm, hs, DOMAIN Line.ops, [i \in DOMAIN Line.ops |-> << >>]) : adm' = r.adm /\ hs' = r.hs \o Flat(r.news)
  /\ UNCHANGED hd
IsAsk ==
  /\ Line.e = "ask"
  /\ \A i \in DOMAIN Line.qs : Line.qs[i].may = IF Allowed(hs[Line.h].P, Line.qs[i].res, Line.qs[i].act) THEN 1 ELSE 0
  /\ UNCHANGED << hd, adm, hs >>
IsDrop == Line.e = "drop" /\ UNCHANGED << hd, adm, hs >>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (IsReset \/ IsOpen \/ (Line.e \in {"putgroup", "delgroup", "putrole", "delrole", "puttoken", "deltoken"} /\ IsAdm) \/ IsAct \/ IsRace \/ IsAsk \/ IsDrop)
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
