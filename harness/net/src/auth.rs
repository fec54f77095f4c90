//! Programs that change users, groups, roles, passwords and tokens, authenticate, and use
//! the sessions they get, through every kind of connection.
use std::time::{Duration, SystemTime};

use anyhow::Result;
use bonsaidb_client::{AsyncClient, BlockingClient};
use bonsaidb_core::actionable::ResourceName;
use bonsaidb_core::admin::{AuthenticationToken, PermissionGroup, Role};
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{
    Authentication, HasSession, Identity, IdentityReference, SensitiveString, Session, SessionAuthentication, AsyncStorageConnection, StorageConnection,
    TokenChallengeAlgorithm,
};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::permissions::Permissions;
use bonsaidb_core::schema::{NamedReference, SerializedCollection};
use bonsaidb_local::config::{ArgonParams, Builder};
use bonsaidb_local::{AsyncStorage, Storage};
use bonsaidb_server::{DefaultPermissions, Server};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::access::*;
use crate::net::*;
use crate::schema::*;
use crate::util::*;

/// A user, role or group, by name or by id.
#[derive(Clone, Debug)]
pub enum Ref {
    N(String),
    I(u64),
}
impl Ref {
    pub fn named<T: From<u64>>(&self) -> NamedReference<'static, T>
    where
        T: for<'k> bonsaidb_core::key::Key<'k>,
    {
        match self {
            Ref::N(n) => NamedReference::Name(n.clone().into()),
            Ref::I(i) => NamedReference::Id(DocumentId::from_u64(*i)),
        }
    }
    fn json(&self) -> Value {
        match self {
            Ref::N(n) => json!({"by":"name","n":n,"i":0}),
            Ref::I(i) => json!({"by":"id","n":"","i":i}),
        }
    }
}

#[derive(Clone, Debug)]
pub enum AOp {
    CreateUser(String),
    DeleteUser(Ref),
    SetPw(Ref, String),
    Group(bool, Ref, Ref),
    Role(bool, Ref, Ref),
    Login(Ref, String),
    TBegin(Authentication),
    TFinish(Vec<u8>),
    TLogin(u64, String),
    /// true: a user
    Assume(bool, Ref),
    ListDb,
    ListSchemas,
    CreateDb(String),
    DeleteDb(String),
    Get(i64),
    GetUser(u64),
}
impl AOp {
    fn json(&self) -> Value {
        match self {
            AOp::CreateUser(n) => json!({"op":"createuser","n":n}),
            AOp::DeleteUser(u) => json!({"op":"deleteuser","u":u.json()}),
            AOp::SetPw(u, pw) => json!({"op":"setpw","u":u.json(),"pw":pw}),
            AOp::Group(on, u, g) => json!({"op":"group","on":i64::from(*on),"u":u.json(),"g":g.json()}),
            AOp::Role(on, u, g) => json!({"op":"role","on":i64::from(*on),"u":u.json(),"g":g.json()}),
            AOp::Login(u, pw) => json!({"op":"login","u":u.json(),"pw":pw}),
            AOp::TBegin(_) => json!({"op":"tbegin"}),
            AOp::TFinish(_) => json!({"op":"tfinish"}),
            AOp::TLogin(id, _) => json!({"op":"tlogin","tk":format!("#{id}")}),
            AOp::Assume(u, r) => json!({"op":"assume","what":if *u { "user" } else { "role" },"u":r.json()}),
            AOp::ListDb => json!({"op":"listdb"}),
            AOp::ListSchemas => json!({"op":"listschemas"}),
            AOp::CreateDb(n) => json!({"op":"createdb","n":n}),
            AOp::DeleteDb(n) => json!({"op":"deletedb","n":n}),
            AOp::Get(id) => json!({"op":"get","doc":id}),
            AOp::GetUser(id) => json!({"op":"getuser","id":id}),
        }
    }
}

pub fn identity(s: &Session) -> Option<(&'static str, u64, String)> {
    match &s.authentication {
        SessionAuthentication::Identity(i) => match &**i {
            Identity::User { id, username } => Some(("user", *id, username.clone())),
            Identity::Role { id, name } => Some(("role", *id, name.clone())),
            _ => None,
        },
        _ => None,
    }
}

/// One way to reach the storage.
#[derive(Clone)]
pub enum Way {
    Local(Storage),
    LocalAsync(AsyncStorage),
    Server(Server),
    Remote(AsyncClient),
    Blocking(BlockingClient),
}
impl Way {
    pub fn new(host: &Host, kind: usize) -> Result<Self> {
        Ok(match kind {
            0 => Way::Local(Storage::from(host.server.clone())),
            1 => Way::LocalAsync(Storage::from(host.server.clone()).into_async_with_runtime(host.rt.handle().clone())),
            2 => Way::Server(host.server.clone()),
            3 | 5 => Way::Remote(host.client(kind == 5)?),
            _ => Way::Blocking(host.blocking(kind == 6)?),
        })
    }
    pub fn act(&self, rt: &tokio::runtime::Handle, op: &AOp) -> (Value, Option<Way>) {
        match self {
            Way::Local(s) => {
                let (v, h) = crate::authexec::act(s, op);
                (v, h.map(Way::Local))
            }
            Way::Blocking(s) => {
                let (v, h) = crate::authexec::act(s, op);
                (v, h.map(Way::Blocking))
            }
            Way::LocalAsync(s) => {
                let (v, h) = rt.block_on(crate::aauthexec::act(s, op));
                (v, h.map(Way::LocalAsync))
            }
            Way::Server(s) => {
                let (v, h) = rt.block_on(crate::aauthexec::act(s, op));
                (v, h.map(Way::Server))
            }
            Way::Remote(s) => {
                let (v, h) = rt.block_on(crate::aauthexec::act(s, op));
                (v, h.map(Way::Remote))
            }
        }
    }
    pub fn session(&self) -> Option<Session> {
        match self {
            Way::Local(s) => s.session().cloned(),
            Way::LocalAsync(s) => s.session().cloned(),
            Way::Server(s) => s.session().cloned(),
            Way::Remote(s) => s.session().cloned(),
            Way::Blocking(s) => s.session().cloned(),
        }
    }
    pub fn guarded(&self, rt: &tokio::runtime::Handle, op: &AOp) -> (Value, Option<Way>) {
        let (w, rt, op) = (self.clone(), rt.clone(), op.clone());
        with_timeout(60, move || w.act(&rt, &op)).unwrap_or_else(|m| (json!({"t":"crash","m":m}), None))
    }
}

pub const USERS: [&str; 4] = ["ann", "bob", "cy", "ann2"];
const GROUPS: [&str; 5] = ["g1", "g2", "g3", "g4", "g5"];
const ROLES: [&str; 3] = ["r1", "r2", "r3"];
const EXTRA: [&str; 3] = ["x1", "x2", "x3"];
const PWS: [&str; 3] = ["hunter2", "", "hunter2 "];

fn res(path: &[&str], last: Option<Seg>) -> Vec<Seg> {
    let mut v: Vec<Seg> = path.iter().map(|p| s(p)).collect();
    v.extend(last);
    v
}

/// A statement about what the storage offers.
fn statement(rng: &mut StdRng, tokens: &[u64]) -> St {
    let n = |rng: &mut StdRng| if rng.gen_bool(0.4) { None } else { Some(if rng.gen_bool(0.4) { Seg::Any } else { Seg::Num(rng.gen_range(0..7)) }) };
    let (r, acts): (Vec<Seg>, &[&[&'static str]]) = match rng.gen_range(0..12) {
        0..=3 => (
            {
                let x = n(rng);
                res(&["bonsaidb", "user"], x)
            },
            &[
                &["Server", "DeleteUser"],
                &["Server", "SetPassword"],
                &["Server", "Authenticate", "PasswordHash"],
                &["Server", "Authenticate"],
                &["Server", "AssumeIdentity"],
                &["Server", "ModifyUserPermissionGroups"],
                &["Server", "ModifyUserRoles"],
                &["Server"],
            ],
        ),
        4 => (
            {
                let x = n(rng);
                res(&["bonsaidb", "role"], x)
            },
            &[&["Server", "AssumeIdentity"], &["Server", "ModifyUserRoles"]],
        ),
        5 => {
            let l = if tokens.is_empty() || rng.gen_bool(0.5) { None } else { Some(Seg::Num(*tokens.choose(rng).unwrap())) };
            (res(&["bonsaidb", "authentication-token"], l), &[&["Server", "Authenticate", "Token"], &["Server", "Authenticate"]])
        }
        6 | 7 => {
            let l = if rng.gen_bool(0.3) { Seg::Any } else { s(EXTRA.choose(rng).unwrap()) };
            (res(&["bonsaidb"], Some(l)), &[&["Server", "CreateDatabase"], &["Server", "DeleteDatabase"], &["Server"]])
        }
        8 | 9 => (
            res(&["bonsaidb"], None),
            &[
                &["Server", "ListDatabases"],
                &["Server", "ListAvailableSchemas"],
                &["Server", "CreateUser"],
                &["Server", "AssumeIdentity"],
                &["Server", "Authenticate", "PasswordHash"],
                &["Server", "Authenticate", "Token"],
                &["Server", "ModifyUserRoles"],
                &["Server"],
            ],
        ),
        10 => (
            {
                let c = crate::ops::cname("a").to_string();
                let mut r = res(&["bonsaidb", "main", &c, "document"], None);
                r[2] = Seg::Coll("a".into());
                if rng.gen_bool(0.5) {
                    r.push(Seg::Doc("a".into(), rng.gen_range(0..3)));
                }
                r
            },
            &[&["Database", "Document", "Get"], &["Database", "Document", "List"]],
        ),
        _ => (
            {
                let mut r = res(&["bonsaidb", "_admin"], None);
                if rng.gen_bool(0.5) {
                    r.extend([s("khonsulabs.user"), s("document")]);
                    if rng.gen_bool(0.5) {
                        r.push(Seg::Num(rng.gen_range(0..6)));
                    }
                }
                r
            },
            &[&["Database", "Document", "Get"], &["Database", "Document"]],
        ),
    };
    let mut act: Vec<Vec<&'static str>> = Vec::new();
    for _ in 0..rng.gen_range(1..4) {
        let a = acts.choose(rng).unwrap().to_vec();
        if act.iter().all(|b| !a.starts_with(b) && !b.starts_with(&a)) {
            act.push(a);
        }
    }
    St { res: r, act }
}
/// Statements of one group: none takes back what another gives (see access.rs).
fn group(rng: &mut StdRng, tokens: &[u64], n: usize) -> Vec<St> {
    let mut g: Vec<St> = Vec::new();
    for _ in 0..n {
        let st = statement(rng, tokens);
        if g.iter().all(|x| x.res != st.res) {
            g.push(st);
        }
    }
    g
}
fn sts(g: &[St]) -> Value {
    json!(g.iter().map(St::json).collect::<Vec<_>>())
}

/// What sessions may be asked about.
fn question(rng: &mut StdRng, tokens: &[u64]) -> (Vec<Seg>, Vec<&'static str>) {
    loop {
        let st = statement(rng, tokens);
        if st.res.contains(&Seg::Any) {
            continue;
        }
        let all = actions();
        let fit: Vec<_> = all.iter().filter(|a| a.0.starts_with(&st.act[0])).collect();
        return (st.res, fit.choose(rng).unwrap().0.clone());
    }
}

struct Handle {
    kind: usize,
    way: Option<Way>,
    session: bool,
    /// challenge was answered
    spent: bool,
    /// tokens' secret the challenge asks for
    token: Option<u64>,
}

/// The right answer to a handle's challenge.
fn answer(h: &Handle, tokens: &[(u64, String)]) -> Vec<u8> {
    match (h.token, h.way.as_ref().and_then(Way::session).map(|s| s.authentication)) {
        (Some(t), Some(SessionAuthentication::TokenChallenge { nonce, server_timestamp, .. })) => {
            let secret = SensitiveString(tokens.iter().find(|x| x.0 == t).unwrap().1.clone());
            AuthenticationToken::compute_challenge_response_blake3(&secret, &nonce, server_timestamp).as_bytes().to_vec()
        }
        _ => Vec::new(),
    }
}
fn time_hash(t: TimestampAsNanoseconds, secret: &str) -> Vec<u8> {
    let key = blake3::derive_key(&format!("bonsaidb {t} token-authentication"), secret.as_bytes());
    blake3::keyed_hash(&key, &t.representation().to_be_bytes()).as_bytes().to_vec()
}

#[allow(clippy::too_many_lines)]
pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let nops = args.n("ops", 250);
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 8_000_009 + sc);
        let dir = Scratch::new("auth");
        EV_PRESENT.store(1, std::sync::atomic::Ordering::SeqCst);
        let kind = [4, 0, 4][(sc % 3) as usize];
        // what connections may do before, and in addition after authenticating
        let n = rng.gen_range(0..5);
        let mut default = group(&mut rng, &[], n);
        default.retain(|x| x.res.len() > 1);
        default.push(St { res: res(&["bonsaidb"], None), act: vec![vec!["Server", "Connect"]] });
        if rng.gen_bool(0.6) {
            default.push(St { res: res(&["bonsaidb", "user"], None), act: vec![vec!["Server", "Authenticate"], vec!["Server", "AssumeIdentity"]] });
            default.dedup_by(|a, b| a.res == b.res);
        }
        let default: Vec<St> = {
            let mut d: Vec<St> = Vec::new();
            for x in default.into_iter().rev() {
                if d.iter().all(|y| y.res != x.res) {
                    d.push(x);
                }
            }
            d
        };
        let n = if rng.gen_bool(0.5) { 0 } else { rng.gen_range(1..3) };
        let auth = group(&mut rng, &[], n);
        let (dp, ap) = (Permissions::from(statements(&default)), Permissions::from(statements(&auth)));
        let host = Host::start(kind, &dir.0, DefaultPermissions::Permissions(dp), |mut c| {
            // (passwords are hashed with as little effort as possible)
            let mut cheap = argon2::ParamsBuilder::new();
            cheap.m_cost(8).t_cost(1).p_cost(1);
            c.storage.argon.hashers = 1;
            c.storage.argon.params = ArgonParams::Params(cheap);
            c.storage.authenticated_permissions = ap;
            Ok(c.with_schema::<Main>()?)
        })?;
        let free = Storage::from(host.server.clone());
        host.rt.block_on(host.server.create_database::<Main>("main", true))?;
        let admin = free.admin();
        let db = free.database::<Main>("main")?;
        let pool = crate::gen::make_pool(&mut rng, 4, false);
        for i in 0..2 {
            A::wrap(Content { name: format!("n{i}"), ..pool.content(i + 1) }).insert_into(&A::id(i), &db).map_err(|e| e.error)?;
        }
        out.line(&json!({"e":"reset","kind":kind,"sc":sc,"seed":seed,"default":sts(&default),"auth":sts(&auth)}));
        let mut hs: Vec<Handle> = Vec::new();
        for kind in 0..TARGETS {
            hs.push(Handle { kind, way: Some(Way::new(&host, kind)?), session: false, spent: false, token: None });
            out.line(&json!({"e":"open","h":hs.len(),"free":i64::from(kind < 3),"conn":kind}));
        }
        let mut users: Vec<u64> = vec![0];
        let mut groups: Vec<(u64, &str)> = Vec::new();
        let mut roles: Vec<(u64, &str)> = Vec::new();
        let mut tokens: Vec<(u64, String)> = Vec::new();
        // passwords that were set, by whom they were asked for
        let mut pws: Vec<(Ref, String)> = Vec::new();
        let mut crashed = false;
        for step in 0..nops {
            let setup = step < 60;
            let live: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].way.is_some() && !hs[*i].spent).collect();
            // without a handle, by the unrestricted one
            if rng.gen_range(0..100) < if setup { 45 } else { 14 } {
                let tids: Vec<u64> = tokens.iter().map(|t| t.0).collect();
                match rng.gen_range(0..10) {
                    0..=2 => {
                        let n = *GROUPS.choose(&mut rng).unwrap();
                        let k = rng.gen_range(1..6);
                        let g = group(&mut rng, &tids, k);
                        if let Some((id, _)) = groups.iter().find(|x| x.1 == n) {
                            let mut d = PermissionGroup::get(id, &admin)?.unwrap();
                            if rng.gen_bool(0.3) {
                                d.delete(&admin)?;
                                out.line(&json!({"e":"delgroup","id":id}));
                                groups.retain(|x| x.1 != n);
                                continue;
                            }
                            d.contents.statements = statements(&g);
                            d.update(&admin)?;
                            out.line(&json!({"e":"putgroup","id":id,"n":n,"sts":sts(&g)}));
                        } else {
                            let mut d = PermissionGroup::named(n);
                            d.statements = statements(&g);
                            let id = d.push_into(&admin)?.header.id;
                            groups.push((id, n));
                            out.line(&json!({"e":"putgroup","id":id,"n":n,"sts":sts(&g)}));
                        }
                    }
                    3..=5 => {
                        let n = *ROLES.choose(&mut rng).unwrap();
                        let k = rng.gen_range(0..4);
                        let mut g: Vec<u64> = groups.iter().map(|x| x.0).collect::<Vec<_>>().choose_multiple(&mut rng, k).copied().collect();
                        g.shuffle(&mut rng);
                        if rng.gen_bool(0.2) {
                            g.extend(g.first().copied());
                        }
                        if let Some((id, _)) = roles.iter().find(|x| x.1 == n) {
                            let mut d = Role::get(id, &admin)?.unwrap();
                            if rng.gen_bool(0.3) {
                                d.delete(&admin)?;
                                out.line(&json!({"e":"delrole","id":id}));
                                roles.retain(|x| x.1 != n);
                                continue;
                            }
                            d.contents.groups = g.clone();
                            d.update(&admin)?;
                            out.line(&json!({"e":"putrole","id":id,"n":n,"groups":g}));
                        } else {
                            let id = Role::named(n).with_group_ids(g.clone()).push_into(&admin)?.header.id;
                            roles.push((id, n));
                            out.line(&json!({"e":"putrole","id":id,"n":n,"groups":g}));
                        }
                    }
                    6..=8 => {
                        let user = rng.gen_bool(0.6);
                        let id = if user { users.choose(&mut rng).copied() } else { roles.choose(&mut rng).map(|r| r.0) };
                        let Some(id) = id else { continue };
                        let named: NamedReference<'static, u64> = Ref::I(id).named();
                        let r = if user { IdentityReference::User(named) } else { IdentityReference::Role(named) };
                        match AuthenticationToken::create(&r, &admin) {
                            Ok(d) => {
                                out.line(&json!({"e":"puttoken","tk":format!("#{}", d.header.id),"what":if user { "user" } else { "role" },"id":id}));
                                tokens.push((d.header.id, d.contents.token.0.clone()));
                            }
                            Err(_) => continue,
                        }
                    }
                    _ => {
                        if let Some((id, _)) = tokens.choose(&mut rng).cloned() {
                            if let Some(d) = AuthenticationToken::get(&id, &admin)? {
                                d.delete(&admin)?;
                                out.line(&json!({"e":"deltoken","tk":format!("#{id}")}));
                            }
                        }
                    }
                }
                continue;
            }
            let user = |rng: &mut StdRng, users: &[u64]| {
                if rng.gen_bool(0.55) {
                    Ref::N(USERS.choose(rng).unwrap().to_string())
                } else {
                    Ref::I(*users.choose(rng).unwrap())
                }
            };
            // half the time one of the handles everyone starts with
            let h = if rng.gen_bool(if setup { 0.75 } else { 0.4 }) {
                if rng.gen_bool(if setup { 0.9 } else { 0.3 }) { rng.gen_range(0..3) } else { rng.gen_range(3..TARGETS) }
            } else {
                *live.choose(&mut rng).unwrap()
            };
            let pw = |rng: &mut StdRng| PWS[if rng.gen_bool(0.6) { 0 } else { rng.gen_range(0..PWS.len()) }].to_string();
            let role_ref = |rng: &mut StdRng, roles: &[(u64, &str)]| {
                if rng.gen_bool(0.5) || roles.is_empty() {
                    Ref::N(ROLES.choose(rng).unwrap().to_string())
                } else {
                    Ref::I(roles.choose(rng).unwrap().0)
                }
            };
            if !setup && rng.gen_bool(0.08) {
                // several at once, on one user, name or challenge
                let mut ops: Vec<(usize, AOp, Value)> = Vec::new();
                let k = rng.gen_range(2..4);
                let challenges: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].token.is_some() && hs[*i].way.is_some() && !hs[*i].spent).collect();
                if !challenges.is_empty() && rng.gen_bool(0.5) {
                    let h = *challenges.choose(&mut rng).unwrap();
                    let a = answer(&hs[h], &tokens);
                    for _ in 0..k {
                        ops.push((h, AOp::TFinish(a.clone()), json!({"good":1})));
                    }
                    hs[h].spent = true;
                } else if rng.gen_bool(0.3) {
                    let n = USERS.choose(&mut rng).unwrap().to_string();
                    for _ in 0..k {
                        ops.push((rng.gen_range(0..3), AOp::CreateUser(n.clone()), json!({})));
                    }
                } else {
                    let u = user(&mut rng, &users);
                    for _ in 0..k {
                        let g = || Ref::N(GROUPS[0].to_string());
                        let op = match rng.gen_range(0..8) {
                            0 | 1 => AOp::SetPw(u.clone(), PWS.choose(&mut rng).unwrap().to_string()),
                            2 | 3 => AOp::Login(u.clone(), PWS.choose(&mut rng).unwrap().to_string()),
                            4 => AOp::Assume(true, u.clone()),
                            5 => AOp::Group(rng.gen_bool(0.5), u.clone(), g()),
                            6 => AOp::Role(rng.gen_bool(0.5), u.clone(), Ref::N(ROLES.choose(&mut rng).unwrap().to_string())),
                            _ => AOp::DeleteUser(u.clone()),
                        };
                        let h = if rng.gen_bool(0.7) { rng.gen_range(0..3) } else { rng.gen_range(3..TARGETS) };
                        ops.push((h, op, json!({})));
                    }
                }
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(ops.len()));
                let threads: Vec<_> = ops
                    .iter()
                    .map(|(h, op, _)| {
                        let rt = if matches!(hs[*h].kind, 3 | 5) { host.crt.handle() } else { host.rt.handle() }.clone();
                        let (w, op, b) = (hs[*h].way.clone().unwrap(), op.clone(), barrier.clone());
                        std::thread::spawn(move || {
                            b.wait();
                            w.guarded(&rt, &op)
                        })
                    })
                    .collect();
                let mut lines = Vec::new();
                for (t, (h, op, extra)) in threads.into_iter().zip(ops) {
                    let (r, new) = t.join().unwrap();
                    crashed |= r["t"] == "crash";
                    if let (AOp::CreateUser(_), Some(id)) = (&op, r["id"].as_u64()) {
                        users.push(id);
                    }
                    let mut line = op.json();
                    line.as_object_mut().unwrap().extend(extra.as_object().unwrap().clone());
                    line["h"] = json!(h + 1);
                    line["conn"] = json!(hs[h].kind);
                    line["res"] = r;
                    lines.push(line);
                    if let Some(w) = new {
                        let kind = hs[h].kind;
                        hs.push(Handle { kind, way: Some(w), session: true, spent: false, token: None });
                    }
                }
                out.line(&json!({"e":"race","ops":lines}));
                if crashed {
                    break;
                }
                continue;
            }
            let mut extra = json!({});
            let mut token = None;
            let mut h = h;
            let op = match rng.gen_range(0..if setup { 40 } else { 100 }) {
                0..=9 => AOp::CreateUser(USERS.choose(&mut rng).unwrap().to_string()),
                10..=15 => AOp::SetPw(user(&mut rng, &users), pw(&mut rng)),
                16..=23 => AOp::Group(
                    rng.gen_bool(0.7),
                    user(&mut rng, &users),
                    if rng.gen_bool(0.6) || groups.is_empty() { Ref::N(GROUPS.choose(&mut rng).unwrap().to_string()) } else { Ref::I(groups.choose(&mut rng).unwrap().0) },
                ),
                24..=31 => AOp::Role(rng.gen_bool(0.7), user(&mut rng, &users), role_ref(&mut rng, &roles)),
                32 | 33 => AOp::DeleteUser(user(&mut rng, &users)),
                34..=47 => match pws.choose(&mut rng) {
                    Some((u, pw)) if rng.gen_bool(0.75) => AOp::Login(u.clone(), pw.clone()),
                    _ => AOp::Login(user(&mut rng, &users), pw(&mut rng)),
                },
                48..=52 => {
                    let Some((id, secret)) = tokens.choose(&mut rng).cloned() else { continue };
                    let wrong = rng.gen_bool(0.15);
                    extra = json!({"good":i64::from(!wrong)});
                    if rng.gen_bool(0.5) {
                        h = rng.gen_range(0..3);
                    }
                    AOp::TLogin(id, if wrong { secret[1..].to_string() } else { secret })
                }
                53..=59 => {
                    let Some((id, secret)) = tokens.choose(&mut rng).cloned() else { continue };
                    let (mut secret, mut asked, mut dt, mut good) = (secret, id, 0i64, 1);
                    match rng.gen_range(0..8) {
                        0 => {
                            secret.push('x');
                            good = 0;
                        }
                        1 => asked = id.wrapping_add(1),
                        2 => dt = *[-250i64, 250, -200].choose(&mut rng).unwrap(),
                        3 => dt = *[-350i64, 350, -100_000, 100_000].choose(&mut rng).unwrap(),
                        _ => {}
                    }
                    let now = SystemTime::now();
                    let time = if dt < 0 { now - Duration::from_secs(dt.unsigned_abs()) } else { now + Duration::from_secs(dt.unsigned_abs()) };
                    let now = TimestampAsNanoseconds::try_from(time)?;
                    let mut hash = time_hash(now, &secret);
                    if rng.gen_bool(0.08) {
                        good = 0;
                        match rng.gen_range(0..3) {
                            0 => hash[31] ^= 1,
                            1 => hash.truncate(31),
                            _ => hash = time_hash(TimestampAsNanoseconds::now(), &secret),
                        }
                    }
                    extra = json!({"tk":format!("#{asked}"),"dt":dt,"good":good});
                    token = Some(id);
                    if rng.gen_bool(0.5) {
                        h = rng.gen_range(0..3);
                    }
                    AOp::TBegin(Authentication::Token { id: asked, now, now_hash: Bytes::from(hash), algorithm: TokenChallengeAlgorithm::Blake3 })
                }
                60..=66 => {
                    // mostly answers a challenge
                    let again = rng.gen_bool(0.3);
                    if let Some(c) = (0..hs.len()).filter(|i| hs[*i].token.is_some() && hs[*i].way.is_some() && (again || !hs[*i].spent)).collect::<Vec<_>>().choose(&mut rng) {
                        if rng.gen_bool(0.9) {
                            h = *c;
                        }
                    }
                    let mut answer = answer(&hs[h], &tokens);
                    let mut good = 0;
                    if !answer.is_empty() {
                        good = 1;
                        if rng.gen_bool(0.15) {
                            good = 0;
                            if rng.gen_bool(0.5) {
                                answer[0] ^= 128;
                            } else {
                                answer.truncate(16);
                            }
                        }
                    }
                    extra = json!({"good":good});
                    AOp::TFinish(answer)
                }
                67..=76 => {
                    if rng.gen_bool(0.5) {
                        AOp::Assume(true, user(&mut rng, &users))
                    } else {
                        AOp::Assume(false, role_ref(&mut rng, &roles))
                    }
                }
                77..=79 => AOp::ListDb,
                80 => AOp::ListSchemas,
                81..=83 => AOp::CreateDb(EXTRA.choose(&mut rng).unwrap().to_string()),
                84..=86 => AOp::DeleteDb(EXTRA.choose(&mut rng).unwrap().to_string()),
                87..=90 => AOp::Get(rng.gen_range(0..3)),
                91..=93 => AOp::GetUser(*users.choose(&mut rng).unwrap()),
                94 | 95 if hs.len() > TARGETS => {
                    h = rng.gen_range(TARGETS..hs.len());
                    if hs[h].way.take().is_some() {
                        hs[h].spent = true;
                        out.line(&json!({"e":"drop","h":h + 1}));
                    }
                    continue;
                }
                _ => {
                    // asks the session itself
                    let Some(session) = hs[h].way.as_ref().filter(|_| hs[h].session && !hs[h].spent).and_then(Way::session) else { continue };
                    let tids: Vec<u64> = tokens.iter().map(|t| t.0).collect();
                    let mut qs = Vec::new();
                    for _ in 0..8 {
                        let (r, a) = question(&mut rng, &tids);
                        let action = actions().into_iter().find(|x| x.0 == a).unwrap().1;
                        let st = St { res: r.clone(), act: vec![] };
                        let name: ResourceName<'static> = st.statement().resources.into_iter().next().unwrap();
                        qs.push(json!({"res":st.json()["res"],"act":a,"may":i64::from(session.allowed_to(&name, &action))}));
                    }
                    out.line(&json!({"e":"ask","h":h + 1,"qs":qs}));
                    continue;
                }
            };
            if hs[h].spent && !matches!(op, AOp::TFinish(_)) || hs[h].way.is_none() {
                continue;
            }
            let rt = if matches!(hs[h].kind, 3 | 5) { host.crt.handle() } else { host.rt.handle() };
            let (r, new) = hs[h].way.as_ref().unwrap().guarded(rt, &op);
            crashed = r["t"] == "crash";
            if let (AOp::CreateUser(_), Some(id)) = (&op, r["id"].as_u64()) {
                users.push(id);
            }
            if let (AOp::SetPw(u, pw), true) = (&op, r["t"] == "ok") {
                pws.push((u.clone(), pw.clone()));
            }
            if matches!(op, AOp::TFinish(_)) && h >= TARGETS {
                hs[h].spent = true;
            }
            let mut line = op.json();
            line.as_object_mut().unwrap().extend(extra.as_object().unwrap().clone());
            line["e"] = json!("act");
            line["h"] = json!(h + 1);
            line["conn"] = json!(hs[h].kind);
            line["res"] = r;
            out.line(&line);
            if let Some(w) = new {
                let kind = hs[h].kind;
                let token = token.filter(|_| matches!(op, AOp::TBegin(_)));
                hs.push(Handle { kind, way: Some(w), session: true, spent: false, token });
            }
            if crashed {
                break;
            }
        }
        drop((hs, free, admin, db));
        if crashed {
            out.flush();
            std::process::exit(0);
        }
        host.stop();
    }
    out.flush();
    Ok(())
}
