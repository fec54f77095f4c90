----------------------------- MODULE AccessImpl ------------------------------
(* How the code decides what is allowed: the statements of all groups are     *)
(* merged into a tree of resource names whose nodes hold trees of actions,    *)
(* and a name is looked up along the exact and the wildcard branches.  For    *)
(* every small permission set this decides as Access does.                    *)
EXTENDS Access, FiniteSets

CONSTANT Variant   \* "ok", or a way to get it wrong

Names == {"a", "b"}
Paths == {<< x >> : x \in {"a", "*"}} \cup {<< x, y >> : x, y \in {"a", "*"}}
Acts == {<< >>, << "D" >>, << "D", "G" >>, << "D", "L" >>}
Sts == [res : Paths, act : {<< x >> : x \in Acts}]
Groups == {<< >>} \cup {<< s >> : s \in Sts} \cup {<< s, t >> : s, t \in {x \in Sts : x.res[1] = "*" \/ Len(x.res) = 1}}
Ress == {<< x >> : x \in Names} \cup {<< x, y >> : x, y \in Names} \cup {<< x, y, z >> : x, y, z \in Names}
Asked == {<< "D", "G" >>, << "D", "L" >>, << "S" >>}

VARIABLE P
Init == P \in {<< g, h >> : g \in Groups, h \in {x \in Groups : Len(x) <= 1}}
        /\ \A g \in DOMAIN P : Len(P[g]) = 2 => P[g][1].res # P[g][2].res
Next == UNCHANGED P
Spec == Init /\ [][Next]_P

\* the actions at a node after merging: a set of action paths
At(path) ==
  LET of(g) == UNION {{P[g][s].act[a] : a \in DOMAIN P[g][s].act} : s \in {x \in DOMAIN P[g] : P[g][x].res = path}}
  IN IF Variant = "lastgroup" /\ of(2) # {} THEN of(2) ELSE of(1) \cup of(2)
HasNode(path) == \E g \in DOMAIN P : \E s \in DOMAIN P[g] : PrefixOf(path, P[g][s].res, ActMatch)

RECURSIVE Here(_, _)
Here(acts, act) == << >> \in acts \/ (Len(act) > 0 /\ Here({Tail(a) : a \in {x \in acts : Len(x) > 0 /\ x[1] = act[1]}}, Tail(act)))

RECURSIVE Look(_, _, _)
Look(path, res, act) ==
  LET exact == Append(path, res[1])
      any == Append(path, "*")
  IN \/ /\ Len(res) > 0
        /\ \/ HasNode(exact) /\ Look(exact, Tail(res), act)
           \/ HasNode(any) /\ ~(Variant = "firstchild" /\ HasNode(exact)) /\ Look(any, Tail(res), act)
     \/ ~(Variant = "leafonly" /\ Len(res) > 0) /\ At(path) # {} /\ Here(At(path), act)

Same == \A r \in Ress : \A a \in Asked : Look(<< >>, r, a) <=> Allowed(P, r, a)
\* nothing allows nothing, and more statements never allow less
None == (\A g \in DOMAIN P : P[g] = << >>) => \A r \in Ress : \A a \in Asked : ~Look(<< >>, r, a)
Monotone == \A r \in Ress : \A a \in Asked : Allowed(<< P[1] >>, r, a) => Look(<< >>, r, a)
=============================================================================
