-------------------------------- MODULE Auth --------------------------------
(* Users, groups, roles, passwords and tokens, and the sessions they give:    *)
(* a session has what the groups of the user, or of its roles, and the        *)
(* default for authenticated sessions allowed when it was established.        *)
EXTENDS Access, FiniteSets

\* an administrated state: users, groups, roles, tokens and databases
InitAdm == [users |-> << >>, groups |-> << >>, roles |-> << >>, tokens |-> << >>, dbs |-> {"main"}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* what a reference by name or by id means
Find(f, ref) == {k \in DOMAIN f : IF ref.by = "name" THEN f[k].n = ref.n ELSE k = ref.i}
The(set) == CHOOSE x \in set : TRUE

UserRes(id) == << "bonsaidb", "user", "#" \o ToString(id) >>
RoleRes(id) == << "bonsaidb", "role", "#" \o ToString(id) >>
TokenRes(tk) == << "bonsaidb", "authentication-token", tk >>
ServerAct(a) == << "Server", a >>
LoginAct(a) == << "Server", "Authenticate", a >>

\* the rights of the groups with these ids, and of authenticated sessions as such
Rights(adm, ids, auth) ==
  LET there == ids \cap DOMAIN adm.groups
  IN [k \in there \cup {-1} |-> IF k = -1 THEN auth ELSE adm.groups[k].sts]
GroupsOf(adm, what, id) ==
  IF what = "role" THEN adm.roles[id].groups
  ELSE adm.users[id].groups \cup UNION {adm.roles[r].groups : r \in adm.users[id].roles \cap DOMAIN adm.roles}
Exists(adm, what, id) == id \in IF what = "role" THEN DOMAIN adm.roles ELSE DOMAIN adm.users
NameOf(adm, what, id) == IF what = "role" THEN adm.roles[id].n ELSE adm.users[id].n

(***************************************************************************)
(* handles: what they may do, and the challenge they were given            *)
(***************************************************************************)
Free(conn) == [all |-> TRUE, P |-> << >>, sid |-> 0, tk |-> "", spent |-> FALSE, conn |-> conn]
Limited(conn, P, sid, tk) == [all |-> FALSE, P |-> P, sid |-> sid, tk |-> tk, spent |-> FALSE, conn |-> conn]
May(h, res, act) == h.all \/ Allowed(h.P, res, act)

(***************************************************************************)
(* What an operation returns and does.  The result is a record             *)
(*   [ok |-> the result is right, adm |-> state after, new |-> handles]    *)
(***************************************************************************)
Denied == [t |-> "denied"]
BadCred == [t |-> "badcred"]
NoUser == [t |-> "nouser"]
Ok == [t |-> "ok"]
Is(b, adm) == [ok |-> b, adm |-> adm, new |-> << >>]

\* a session of user or role id is given as `res` says
Given(adm, auth, h, sids, what, id, res) ==
  [ok |-> /\ res.t = "ok" /\ res.who = what /\ res.id = id /\ res.n = NameOf(adm, what, id)
          /\ res.sid > 0 /\ res.sid \notin sids,
   adm |-> adm,
   new |-> << Limited(h.conn, Rights(adm, GroupsOf(adm, what, id), auth), IF res.t = "ok" THEN res.sid ELSE 0, "") >>]

\* an operation on a user, and on a group or role: both must be there, then it must be allowed
OnUser(adm, h, u, others, act, res, then) ==
  LET us == Find(adm.users, u) IN
  IF us = {} \/ others = {} THEN Is(res = NoUser \/ (~h.all /\ res = Denied), adm)
  ELSE IF ~May(h, UserRes(The(us)), ServerAct(act)) THEN Is(res = Denied, adm)
  ELSE Is(res = Ok, [adm EXCEPT !.users = Put(@, The(us), then)])
WithSet(s, on, x) == IF on = 1 THEN s \cup {x} ELSE s \ {x}

Act(adm, auth, h, sids, o, res) ==
  LET me == IF "u" \in DOMAIN o THEN Find(adm.users, o.u) ELSE {}
      user == IF me = {} THEN [n |-> "", groups |-> {}, roles |-> {}, pw |-> << >>] ELSE adm.users[The(me)]
  IN
  CASE o.op = "createuser" ->
         IF ~May(h, Root, ServerAct("CreateUser")) THEN Is(res = Denied, adm)
         ELSE IF \E id \in DOMAIN adm.users : adm.users[id].n = o.n THEN Is(res.t = "unique", adm)
         ELSE IF res.t # "ok" THEN Is(FALSE, adm)
         ELSE Is(res.id \notin DOMAIN adm.users,
                 [adm EXCEPT !.users = Put(@, res.id, [n |-> o.n, groups |-> {}, roles |-> {}, pw |-> << >>])])
    [] o.op = "deleteuser" ->
         IF me = {} THEN Is(res = NoUser \/ (~h.all /\ res = Denied), adm)
         ELSE IF ~May(h, UserRes(The(me)), ServerAct("DeleteUser")) THEN Is(res = Denied, adm)
         ELSE Is(res = Ok, [adm EXCEPT !.users = Del(@, The(me))])
    [] o.op = "setpw" -> OnUser(adm, h, o.u, {1}, "SetPassword", res, [user EXCEPT !.pw = << o.pw >>])
    [] o.op = "group" ->
         LET gs == Find(adm.groups, o.g) IN
         OnUser(adm, h, o.u, gs, "ModifyUserPermissionGroups", res,
                IF gs = {} THEN user ELSE [user EXCEPT !.groups = WithSet(@, o.on, The(gs))])
    [] o.op = "role" ->
         LET rs == Find(adm.roles, o.g) IN
         OnUser(adm, h, o.u, rs, "ModifyUserRoles", res,
                IF rs = {} THEN user ELSE [user EXCEPT !.roles = WithSet(@, o.on, The(rs))])
    [] o.op = "login" ->
         IF me = {} THEN Is(res = BadCred \/ (~h.all /\ res = Denied), adm)
         ELSE IF ~May(h, UserRes(The(me)), LoginAct("PasswordHash")) THEN Is(res = Denied, adm)
         ELSE IF user.pw # << o.pw >> THEN Is(res = BadCred, adm)
         ELSE Given(adm, auth, h, sids, "user", The(me), res)
    [] o.op = "assume" ->
         LET them == IF o.what = "user" THEN me ELSE Find(adm.roles, o.u) IN
         IF them = {} THEN Is(res = BadCred \/ (~h.all /\ res = Denied), adm)
         ELSE IF ~May(h, IF o.what = "user" THEN UserRes(The(them)) ELSE RoleRes(The(them)), ServerAct("AssumeIdentity"))
         THEN Is(res = Denied, adm)
         ELSE Given(adm, auth, h, sids, o.what, The(them), res)
    \* a proof of holding the token that is less than five minutes old gives a challenge
    [] o.op = "tbegin" ->
         IF ~May(h, TokenRes(o.tk), LoginAct("Token")) THEN Is(res = Denied, adm)
         ELSE IF o.tk \notin DOMAIN adm.tokens \/ o.good = 0 \/ o.dt > 300 \/ o.dt < -300 THEN Is(res = BadCred, adm)
         ELSE [ok |-> res.t = "ok" /\ res.who = "challenge" /\ res.sid > 0 /\ res.sid \notin sids, adm |-> adm,
               new |-> << Limited(h.conn, << >>, IF res.t = "ok" THEN res.sid ELSE 0, o.tk) >>]
    \* which can be answered once
    [] o.op = "tfinish" ->
         IF h.spent \/ h.tk \notin DOMAIN adm.tokens \/ o.good = 0 THEN Is(res = BadCred, adm)
         ELSE LET t == adm.tokens[h.tk] IN
              IF ~Exists(adm, t.what, t.id) THEN Is(res = BadCred, adm)
              ELSE Given(adm, auth, h, sids, t.what, t.id, res)
    [] o.op = "tlogin" ->
         IF ~May(h, TokenRes(o.tk), LoginAct("Token")) THEN Is(res = Denied, adm)
         ELSE IF o.tk \notin DOMAIN adm.tokens \/ o.good = 0 THEN Is(res = BadCred, adm)
         ELSE LET t == adm.tokens[o.tk] IN
              IF ~Exists(adm, t.what, t.id) THEN Is(res = BadCred, adm)
              ELSE Given(adm, auth, h, sids, t.what, t.id, res)
    [] o.op = "listdb" ->
         IF ~May(h, Root, ServerAct("ListDatabases")) THEN Is(res = Denied, adm)
         ELSE Is(res.t = "ok" /\ (RangeOf(res.r) \ {"_admin", "_hosted"}) = adm.dbs /\ Len(res.r) = Cardinality(RangeOf(res.r)), adm)
    [] o.op = "listschemas" ->
         IF ~May(h, Root, ServerAct("ListAvailableSchemas")) THEN Is(res = Denied, adm) ELSE Is(res.t = "ok" /\ res.r # << >>, adm)
    [] o.op = "createdb" ->
         IF ~May(h, DbRes(o.n), ServerAct("CreateDatabase")) THEN Is(res = Denied, adm)
         ELSE IF o.n \in adm.dbs THEN Is(res.t = "taken", adm) ELSE Is(res = Ok, [adm EXCEPT !.dbs = @ \cup {o.n}])
    [] o.op = "deletedb" ->
         IF ~May(h, DbRes(o.n), ServerAct("DeleteDatabase")) THEN Is(res = Denied, adm)
         ELSE IF o.n \notin adm.dbs THEN Is(res.t = "nodb", adm) ELSE Is(res = Ok, [adm EXCEPT !.dbs = @ \ {o.n}])
    [] o.op = "get" ->
         IF ~May(h, DocRes("main", "a", o.doc), DocAct("Get")) THEN Is(res = Denied, adm)
         ELSE Is(res = [t |-> "ok", some |-> IF o.doc < 2 THEN 1 ELSE 0], adm)
    [] o.op = "getuser" ->
         IF ~May(h, DocRes("_admin", "khonsulabs.user", o.id), DocAct("Get")) THEN Is(res = Denied, adm)
         ELSE Is(res = [t |-> "ok", n |-> IF o.id \in DOMAIN adm.users THEN adm.users[o.id].n ELSE ""], adm)
=============================================================================
