------------------------------ MODULE AuthImpl -------------------------------
(* How the code authenticates: a password is verified against the user as it  *)
(* was loaded, then groups and roles are read; a challenge is taken out of    *)
(* the table of sessions before its answer is checked.  Meanwhile the user's  *)
(* password, groups and roles change.  Whatever the interleaving, a session   *)
(* has rights the user had during the call, for a password that was right     *)
(* during the call, and a challenge gives one session.                        *)
EXTENDS Integers, FiniteSets

CONSTANTS Procs, Changes, Variant
Groups == {1, 2}
Roles == {1, 2}
None == 99

VARIABLES user,      \* [pw, groups, roles]
          rolesg,    \* groups of each role
          table,     \* challenges waiting for their answer
          pc, got, mode, since,  \* per process: where it is, what it read, states of the user since it started
          out,       \* sessions established: [c |-> challenge or 0, rights, seen]
          n, cache
vars == << user, rolesg, table, pc, got, mode, since, out, n, cache >>

Ids == 1..Cardinality(Procs)
RightsOf(u, rg) == u.groups \cup UNION {rg[r] : r \in u.roles}
State == [u |-> user, rg |-> rolesg]

Init ==
  /\ user = [pw |-> 1, groups |-> {1}, roles |-> {}]
  /\ rolesg = [r \in Roles |-> IF r = 1 THEN {2} ELSE {}]
  /\ table = {1}
  /\ pc = [p \in Procs |-> "idle"] /\ got = [p \in Procs |-> [pw |-> 0, groups |-> {}, roles |-> {}]]
  /\ mode = [p \in Procs |-> << "none", 0 >>] /\ since = [p \in Procs |-> {}]
  /\ out = {} /\ n = 0 /\ cache = RightsOf([groups |-> {1}, roles |-> {}], [r \in Roles |-> {}])

Saw(s) == [p \in Procs |-> IF pc[p] \in {"idle", "done"} THEN since[p] ELSE since[p] \cup {s}]
Change ==
  /\ n < Changes /\ n' = n + 1
  /\ \/ \E w \in {1, 2} : user' = [user EXCEPT !.pw = w] /\ UNCHANGED rolesg
     \/ \E g \in Groups : user' = [user EXCEPT !.groups = IF g \in @ THEN @ \ {g} ELSE @ \cup {g}] /\ UNCHANGED rolesg
     \/ \E r \in Roles : user' = [user EXCEPT !.roles = IF r \in @ THEN @ \ {r} ELSE @ \cup {r}] /\ UNCHANGED rolesg
  /\ since' = Saw([u |-> user', rg |-> rolesg'])
  /\ UNCHANGED << table, pc, got, mode, out, cache >>

Start(p, m) ==
  /\ pc[p] = "idle"
  /\ mode' = [mode EXCEPT ![p] = m] /\ since' = [since EXCEPT ![p] = {State}]
  /\ pc' = [pc EXCEPT ![p] = "begun"]
  /\ UNCHANGED << user, rolesg, table, got, out, n, cache >>
\* takes the challenge out of the table, or finds none
Take(p) ==
  /\ pc[p] = "begun" /\ mode[p][1] = "answer"
  /\ IF 1 \in table
     THEN /\ table' = IF Variant = "peek" THEN table ELSE table \ {1}
          /\ pc' = [pc EXCEPT ![p] = "taken"]
     ELSE table' = table /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ UNCHANGED << user, rolesg, got, mode, since, out, n, cache >>
Load(p) ==
  /\ pc[p] = "taken" \/ (pc[p] = "begun" /\ mode[p][1] = "password")
  /\ got' = [got EXCEPT ![p] = user]
  /\ pc' = [pc EXCEPT ![p] = IF mode[p][1] = "password" /\ user.pw # mode[p][2] /\ Variant # "unchecked" THEN "done" ELSE "verified"]
  /\ table' = IF Variant = "peek" /\ mode[p][1] = "answer" THEN table \ {1} ELSE table
  /\ UNCHANGED << user, rolesg, mode, since, out, n, cache >>
Establish(p) ==
  /\ pc[p] = "verified"
  /\ LET r == CASE Variant = "groupids" -> got[p].groups \cup UNION {rolesg[x] : x \in got[p].groups \cap Roles}
                [] Variant = "cached" -> cache
                [] Variant = "early" -> got[p].groups
                [] OTHER -> RightsOf(got[p], rolesg)
     IN out' = out \cup {[p |-> p, m |-> mode[p], rights |-> r, seen |-> since[p]]}
  /\ cache' = RightsOf(got[p], rolesg)
  /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ UNCHANGED << user, rolesg, table, got, mode, since, n >>

Next == Change \/ \E p \in Procs : Start(p, << "answer", 1 >>) \/ Start(p, << "password", 1 >>) \/ Start(p, << "password", 2 >>) \/ Take(p) \/ Load(p) \/ Establish(p)
Spec == Init /\ [][Next]_vars

Once == Cardinality({o \in out : o.m[1] = "answer"}) <= 1
Right == \A o \in out : \E s \in o.seen : /\ o.rights = RightsOf(s.u, s.rg)
                                          /\ o.m[1] = "password" => s.u.pw = o.m[2]
=============================================================================
