//! Programs whose operations run with different rights, through every kind of connection.
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

use anyhow::Result;
use bonsaidb_core::actionable::{ActionName, ActionNameList, Identifier, ResourceName};
use bonsaidb_core::admin::{PermissionGroup, Role};
use bonsaidb_core::connection::{AsyncStorageConnection, AuthenticationMethod, IdentityReference, StorageConnection};
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Action, Permissions, Statement};
use bonsaidb_core::pubsub::Receiver;
use bonsaidb_core::schema::{Nameable, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::Storage;
use bonsaidb_server::DefaultPermissions;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::gen::*;
use crate::kvops::*;
use crate::net::*;
use crate::ops::*;
use crate::pubsub::{publish, Sub};
use crate::schema::*;
use crate::util::*;

pub const DBS: [&str; 2] = ["main", "other"];
const TOPICS: [&str; 3] = ["t", "tt", "u"];

/// All actions, as traces name them.
pub fn actions() -> Vec<(Vec<&'static str>, BonsaiAction)> {
    use BonsaiAction::{Database as D, Server as S};
    let doc = |a| D(DatabaseAction::Document(a));
    let ps = |a| D(DatabaseAction::PubSub(a));
    vec![
        (vec!["Database", "Compact"], D(DatabaseAction::Compact)),
        (vec!["Database", "Document", "Get"], doc(DocumentAction::Get)),
        (vec!["Database", "Document", "List"], doc(DocumentAction::List)),
        (vec!["Database", "Document", "ListHeaders"], doc(DocumentAction::ListHeaders)),
        (vec!["Database", "Document", "Count"], doc(DocumentAction::Count)),
        (vec!["Database", "Document", "Insert"], doc(DocumentAction::Insert)),
        (vec!["Database", "Document", "Update"], doc(DocumentAction::Update)),
        (vec!["Database", "Document", "Overwrite"], doc(DocumentAction::Overwrite)),
        (vec!["Database", "Document", "Delete"], doc(DocumentAction::Delete)),
        (vec!["Database", "View", "Query"], D(DatabaseAction::View(ViewAction::Query))),
        (vec!["Database", "View", "Reduce"], D(DatabaseAction::View(ViewAction::Reduce))),
        (vec!["Database", "View", "DeleteDocs"], D(DatabaseAction::View(ViewAction::DeleteDocs))),
        (vec!["Database", "Transaction", "ListExecuted"], D(DatabaseAction::Transaction(TransactionAction::ListExecuted))),
        (vec!["Database", "Transaction", "GetLastId"], D(DatabaseAction::Transaction(TransactionAction::GetLastId))),
        (vec!["Database", "PubSub", "CreateSuscriber"], ps(PubSubAction::CreateSuscriber)),
        (vec!["Database", "PubSub", "Publish"], ps(PubSubAction::Publish)),
        (vec!["Database", "PubSub", "SubscribeTo"], ps(PubSubAction::SubscribeTo)),
        (vec!["Database", "PubSub", "UnsubscribeFrom"], ps(PubSubAction::UnsubscribeFrom)),
        (vec!["Database", "KeyValue", "ExecuteOperation"], D(DatabaseAction::KeyValue(KeyValueAction::ExecuteOperation))),
        (vec!["Server", "Connect"], S(ServerAction::Connect)),
        (vec!["Server", "ListAvailableSchemas"], S(ServerAction::ListAvailableSchemas)),
        (vec!["Server", "ListDatabases"], S(ServerAction::ListDatabases)),
        (vec!["Server", "CreateDatabase"], S(ServerAction::CreateDatabase)),
        (vec!["Server", "DeleteDatabase"], S(ServerAction::DeleteDatabase)),
        (vec!["Server", "CreateUser"], S(ServerAction::CreateUser)),
        (vec!["Server", "DeleteUser"], S(ServerAction::DeleteUser)),
        (vec!["Server", "SetPassword"], S(ServerAction::SetPassword)),
        (vec!["Server", "Authenticate", "PasswordHash"], S(ServerAction::Authenticate(AuthenticationMethod::PasswordHash))),
        (vec!["Server", "Authenticate", "Token"], S(ServerAction::Authenticate(AuthenticationMethod::Token))),
        (vec!["Server", "AssumeIdentity"], S(ServerAction::AssumeIdentity)),
        (vec!["Server", "ModifyUserPermissionGroups"], S(ServerAction::ModifyUserPermissionGroups)),
        (vec!["Server", "ModifyUserRoles"], S(ServerAction::ModifyUserRoles)),
    ]
}

/// One element of a resource's path.
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Any,
    S(String),
    Coll(String),
    Doc(String, i64),
    Topic(String),
    Num(u64),
}
impl Seg {
    fn json(&self) -> Value {
        match self {
            Seg::Any => json!("*"),
            Seg::S(s) | Seg::Coll(s) | Seg::Topic(s) => json!(s),
            Seg::Doc(_, i) => json!(format!("#{i}")),
            Seg::Num(i) => json!(format!("#{i}")),
        }
    }
    fn id(&self) -> Identifier<'static> {
        match self {
            Seg::Any => Identifier::Any,
            Seg::S(s) => Identifier::from(s.clone()),
            Seg::Coll(c) => Identifier::from(cname(c).to_string()),
            Seg::Doc(c, i) => Identifier::from(doc_id(c, *i)),
            Seg::Topic(t) => Identifier::from(t.as_bytes().to_vec()),
            Seg::Num(n) => Identifier::from(*n),
        }
    }
}
pub fn s(x: &str) -> Seg {
    Seg::S(x.into())
}
#[derive(Clone, Debug)]
pub struct St {
    pub res: Vec<Seg>,
    pub act: Vec<Vec<&'static str>>,
}
impl St {
    pub fn json(&self) -> Value {
        json!({"res": self.res.iter().map(Seg::json).collect::<Vec<_>>(), "act": self.act})
    }
    pub fn statement(&self) -> Statement {
        let mut r: Option<ResourceName<'static>> = None;
        for seg in &self.res {
            r = Some(match r {
                None => ResourceName::named(seg.id()),
                Some(r) => r.and(seg.id()),
            });
        }
        let all = actions();
        let act = if self.act.iter().any(Vec::is_empty) {
            ActionNameList::All
        } else {
            ActionNameList::List(
                self.act
                    .iter()
                    .map(|a| {
                        let full = all.iter().find(|x| x.0.starts_with(a)).unwrap();
                        ActionName(full.1.name().0[..a.len()].to_vec())
                    })
                    .collect(),
            )
        };
        Statement { resources: r.into_iter().collect(), actions: Some(act), configuration: None }
    }
}
pub type Set = Vec<Vec<St>>;
pub fn set_json(p: &Set) -> Value {
    json!(p.iter().map(|g| g.iter().map(St::json).collect::<Vec<_>>()).collect::<Vec<_>>())
}
pub fn statements(g: &[St]) -> Vec<Statement> {
    g.iter().map(St::statement).collect()
}
pub fn permissions(p: &Set) -> Permissions {
    let gs: Vec<Permissions> = p.iter().map(|g| Permissions::from(statements(g))).collect();
    Permissions::merged(gs.iter())
}
pub fn everything() -> Set {
    vec![vec![St { res: vec![Seg::Any], act: vec![vec![]] }]]
}

fn resource(rng: &mut StdRng) -> (Vec<Seg>, &'static str) {
    let mut r = vec![if rng.gen_bool(0.1) { Seg::Any } else { s("bonsaidb") }];
    if rng.gen_bool(0.05) {
        return (r, "any");
    }
    r.push(if rng.gen_bool(0.3) { Seg::Any } else { s(DBS[usize::from(rng.gen_bool(0.3))]) });
    if rng.gen_bool(0.2) {
        return (r, "db");
    }
    match rng.gen_range(0..10) {
        0 => {
            r.push(s("pubsub"));
            if rng.gen_bool(0.7) {
                r.push(if rng.gen_bool(0.2) { Seg::Any } else { Seg::Topic(TOPICS.choose(rng).unwrap().to_string()) });
            }
            (r, "pubsub")
        }
        1 | 2 => {
            r.push(s("keyvalue"));
            if rng.gen_bool(0.8) {
                let (ns, key) = pair(rng.gen_range(0..npairs()));
                r.push(if rng.gen_bool(0.25) { Seg::Any } else { s(ns.unwrap_or("")) });
                if rng.gen_bool(0.7) {
                    r.push(if rng.gen_bool(0.25) { Seg::Any } else { s(key) });
                }
            }
            (r, "kv")
        }
        3..=5 => {
            let (c, v) = [("a", "by-k"), ("a", "by-tag"), ("a", "e-by-k"), ("a", "u-name"), ("b", "by-k"), ("b", "u-name"), ("e", "ev"), ("x", "by-tag")][rng.gen_range(0..8)];
            r.push(if rng.gen_bool(0.2) { Seg::Any } else { Seg::Coll(c.into()) });
            r.push(if rng.gen_bool(0.1) { Seg::Any } else { s("view") });
            if rng.gen_bool(0.8) {
                r.push(if rng.gen_bool(0.2) { Seg::Any } else { s(v) });
            }
            (r, "view")
        }
        _ => {
            let c = ["a", "b", "n", "e", "x"][rng.gen_range(0..5)];
            let any = rng.gen_bool(0.2);
            r.push(if any { Seg::Any } else { Seg::Coll(c.into()) });
            if rng.gen_bool(0.7) {
                r.push(if rng.gen_bool(0.1) { Seg::Any } else { s("document") });
                if rng.gen_bool(0.7) {
                    let id = if c == "b" { (rng.gen_range(0..8) * 5 % strings().0.len()) as i64 } else { rng.gen_range(0..8) };
                    r.push(if any || rng.gen_bool(0.15) { Seg::Any } else { Seg::Doc(c.into(), id) });
                }
            }
            (r, "doc")
        }
    }
}
fn some_actions(rng: &mut StdRng, about: &str) -> Vec<Vec<&'static str>> {
    if rng.gen_bool(0.12) {
        return vec![vec![]];
    }
    let all = actions();
    let mut v = Vec::new();
    for _ in 0..rng.gen_range(1..5) {
        // (an action named after one that includes it takes the rest of that one back)
        let about = if rng.gen_bool(0.1) { "any" } else { about };
        let fit: Vec<_> = all
            .iter()
            .filter(|a| match about {
                "doc" => a.0[1] == "Document" || a.0[1] == "Compact",
                "view" => a.0[1] == "View",
                "pubsub" => a.0[1] == "PubSub",
                "kv" => a.0[1] == "KeyValue" || a.0[1] == "Compact",
                _ => true,
            })
            .collect();
        let a = fit.choose(rng).unwrap().0.clone();
        let n = if rng.gen_bool(0.2) { rng.gen_range(1..=a.len()) } else { a.len() };
        let a = a[..n].to_vec();
        if v.iter().all(|b: &Vec<&str>| !a.starts_with(b) && !b.starts_with(&a)) {
            v.push(a);
        }
    }
    v
}
pub fn random_set(rng: &mut StdRng) -> Set {
    let mut set = Vec::new();
    for _ in 0..rng.gen_range(1..4) {
        let mut g: Vec<St> = Vec::new();
        for _ in 0..rng.gen_range(1..7) {
            let (res, about) = resource(rng);
            // (statements of one group about the same resource may take one another back)
            if g.iter().all(|s| s.res != res) {
                g.push(St { act: some_actions(rng, about), res });
            }
        }
        if rng.gen_bool(0.6) {
            // something wide
            let res = vec![s("bonsaidb"), if rng.gen_bool(0.5) { Seg::Any } else { s("main") }];
            if g.iter().all(|s| s.res != res) {
                let w: Vec<Vec<&'static str>> = vec![
                    vec!["Database", "Document"],
                    vec!["Database", "Document", "Insert"],
                    vec!["Database", "Document", "Get"],
                    vec!["Database", "Document", "Delete"],
                    vec!["Database", "View"],
                    vec!["Database", "View", "Query"],
                    vec!["Database", "PubSub"],
                    vec!["Database", "PubSub", "CreateSuscriber"],
                    vec!["Database", "Transaction"],
                    vec!["Database", "KeyValue"],
                    vec!["Database", "Document", "Overwrite"],
                    vec!["Database", "Document", "Update"],
                ];
                let n = rng.gen_range(1..5);
                let mut act: Vec<Vec<&'static str>> = Vec::new();
                for a in w.choose_multiple(rng, n) {
                    if act.iter().all(|b| !a.starts_with(b) && !b.starts_with(a)) {
                        act.push(a.clone());
                    }
                }
                g.push(St { res, act });
            }
        }
        set.push(g);
    }
    let mark = vec![s("bonsaidb"), Seg::Any, s("pubsub"), Seg::Topic("mark".into())];
    set.push(vec![St { res: mark, act: vec![vec!["Database", "PubSub", "SubscribeTo"]] }]);
    set
}

/// Everyone may connect and assume identities.
pub fn connect_only() -> DefaultPermissions {
    let st = St { res: vec![s("bonsaidb")], act: vec![vec!["Server", "Connect"], vec!["Server", "AssumeIdentity"]] };
    DefaultPermissions::Permissions(Permissions::from(vec![st.statement()]))
}

/// A way to reach a database with the rights of a set.
fn restricted(host: &Host, kind: usize, how: u64, role: &str, set: &Set, db: &str) -> Result<Target> {
    let storage = Storage::from(host.server.clone());
    let id = || IdentityReference::Role(role.name().unwrap());
    let refused = || anyhow::anyhow!("no session");
    Ok(match kind {
        0 | 1 => {
            let d = match how {
                0 => storage.database::<Main>(db)?.with_effective_permissions(permissions(set)).ok_or_else(refused)?,
                1 => storage.with_effective_permissions(permissions(set)).ok_or_else(refused)?.database::<Main>(db)?,
                _ => StorageConnection::assume_identity(&storage, IdentityReference::Role(role.name()?))?.database::<Main>(db)?,
            };
            if kind == 0 {
                Target::Local(d)
            } else {
                Target::LocalAsync(d.into_async_with_runtime(host.rt.handle().clone()))
            }
        }
        2 => {
            let set = permissions(set);
            Target::Server(host.rt.block_on(async {
                Ok::<_, anyhow::Error>(match how {
                    0 | 1 => host.server.database::<Main>(db).await?.with_effective_permissions(set).ok_or_else(refused)?,
                    _ => AsyncStorageConnection::assume_identity(&host.server, id()).await?.database::<Main>(db).await?,
                })
            })?)
        }
        3 | 5 => {
            let c = host.client(kind == 5)?;
            Target::Remote(host.crt.block_on(async {
                let c = c.assume_identity(id()).await?;
                // (a handle the session's handle is cloned into has the same rights)
                let c = if how == 1 { c.clone() } else { c };
                c.database::<Main>(db).await
            })?)
        }
        _ => {
            let c = host.blocking(kind == 6)?;
            Target::Blocking(StorageConnection::assume_identity(&c, IdentityReference::Role(role.name()?))?.database::<Main>(db)?)
        }
    })
}

fn outcome<T>(r: Result<Result<T, Error>, String>) -> (Value, Option<T>) {
    match r {
        Ok(Ok(x)) => (json!({"t":"ok"}), Some(x)),
        Ok(Err(e)) => (err(&e), None),
        Err(m) => (json!({"t":"crash","m":m}), None),
    }
}

struct Held {
    sub: Sub,
    recv: Receiver,
    conn: usize,
    live: bool,
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let nops = args.n("ops", 150);
    let nsets = args.n("sets", 6) as usize;
    let kinds: Vec<u64> = args.s("kinds", "4,0,4").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 9_000_011 + sc);
        let kind = kinds[(sc as usize) % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 20, false));
        let mut gens: Vec<Gen> = DBS.iter().map(|_| Gen::new(mix("access"), &pool)).collect();
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("access");
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        EV_PRESENT.store(1, Ordering::SeqCst);
        EV_MODE.store(0, Ordering::SeqCst);
        EV_POLICY.store(0, Ordering::SeqCst);
        EV_VERSION.store(4, Ordering::SeqCst);
        let host = Host::start(kind, &dir.0, connect_only(), |mut c| {
            // (key-value changes don't get into the transaction log)
            c.storage.key_value_persistence = KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1_000_000)]);
            Ok(c.with_schema::<Main>()?)
        })?;
        for d in DBS {
            host.rt.block_on(host.server.create_database::<Main>(d, true))?;
        }
        let admin = StorageConnection::admin(&Storage::from(host.server.clone()));
        let mut sets: Vec<Set> = vec![everything()];
        // ts[p]: the ways to act with set p; per way, one target per database
        let mut ts: Vec<Vec<((usize, u64), Vec<Target>)>> = Vec::new();
        while sets.len() < nsets {
            sets.push(random_set(&mut rng));
        }
        for (p, set) in sets.iter().enumerate() {
            out.line(&json!({"e":"perms","p":p + 1,"g":set_json(set)}));
            let mut ids = Vec::new();
            for (i, g) in set.iter().enumerate() {
                let mut group = PermissionGroup::named(format!("g{p}-{i}"));
                group.statements = statements(g);
                ids.push(group.push_into(&admin)?.header.id);
            }
            let role = format!("r{p}");
            Role::named(&role).with_group_ids(ids).push_into(&admin)?;
            let mut ways = Vec::new();
            for _ in 0..3 {
                let (k, how) = (rng.gen_range(0..TARGETS), rng.gen_range(0..3));
                let mut v = Vec::new();
                for d in DBS {
                    v.push(restricted(&host, k, how, &role, set, d)?);
                }
                ways.push(((k, how), v));
            }
            ts.push(ways);
        }
        let free = Target::new::<Main>(&host, 0, "main")?;
        let free2 = Target::new::<Main>(&host, 0, "other")?;
        let base = Base::now();
        let kvgen = KvGen { keys: npairs(), expiry: 0.0, numeric: 0.3, next: 0 };
        let mut kvgen = kvgen;
        let mut subs: Vec<Held> = Vec::new();
        let mut marks = 0u64;
        let mut crashed = false;
        for _ in 0..nops {
            let p = if rng.gen_bool(0.4) { 0 } else { rng.gen_range(0..sets.len()) };
            let (conn, way) = ts[p].choose(&mut rng).unwrap();
            let db = usize::from(rng.gen_bool(0.3));
            let t = way[db].clone();
            let rt = t.rt(&host).clone();
            match rng.gen_range(0..20) {
                0..=2 => {
                    let op = kvgen.op(&mut rng, &base);
                    let (ns, key) = pair(op.k());
                    let mut v = serde_json::to_value(&op).unwrap();
                    let t0 = base.us();
                    let res = with_timeout(60, move || t.kv(&rt, &base, &op)).unwrap_or_else(|m| json!({"t":"crash","m":m}));
                    v["e"] = json!("kv");
                    v["t0"] = json!(t0);
                    v["t1"] = json!(base.us() + 1);
                    v["ns"] = json!(ns.unwrap_or(""));
                    v["key"] = json!(key);
                    v["p"] = json!(p + 1);
                    v["db"] = json!(DBS[db]);
                    v["conn"] = json!(conn);
                    crashed = res["t"] == "crash";
                    v["res"] = res;
                    out.line(&v);
                }
                3 if subs.len() < 6 => {
                    let (res, sub) = outcome(with_timeout(60, move || Sub::new(&t, &rt)));
                    crashed = res["t"] == "crash";
                    out.line(&json!({"e":"subnew","p":p + 1,"db":DBS[db],"conn":conn,"s":subs.len() + 1,"res":res}));
                    if let Some(sub) = sub {
                        let (res, _) = outcome(Ok(sub.set(way[db].rt(&host), &(None, b"mark".to_vec()), true, false)));
                        subs.push(Held { recv: sub.receiver(), sub, conn: conn.0, live: res["t"] == "ok" });
                        out.line(&json!({"e":"sub","s":subs.len(),"topic":"mark","on":1,"res":res}));
                    }
                }
                4 | 5 if !subs.is_empty() => {
                    let i = rng.gen_range(0..subs.len());
                    let rt = if matches!(subs[i].conn, 3 | 5) { host.crt.handle() } else { host.rt.handle() };
                    let topic = *TOPICS.choose(&mut rng).unwrap();
                    let on = rng.gen_bool(0.75);
                    let (res, _) = outcome(Ok(subs[i].sub.set(rt, &(None, topic.as_bytes().to_vec()), on, false)));
                    out.line(&json!({"e":"sub","s":i + 1,"topic":topic,"on":i64::from(on),"res":res}));
                }
                6 | 7 if !subs.is_empty() => {
                    let n = if rng.gen_bool(0.6) { 1 } else { rng.gen_range(1..4) };
                    let topics: Vec<&str> = TOPICS.choose_multiple(&mut rng, n).copied().collect();
                    let tp: Vec<_> = topics.iter().map(|t| (None, t.as_bytes().to_vec())).collect();
                    let (res, _) = outcome(with_timeout(60, move || publish(&t, &rt, &tp, false, vec![1, 2, 3])));
                    crashed = res["t"] == "crash";
                    marks += 1;
                    for f in [&free, &free2] {
                        publish(f, host.rt.handle(), &[(None, b"mark".to_vec())], false, marks.to_be_bytes().to_vec())?;
                    }
                    let mut got = Vec::new();
                    for h in &mut subs {
                        let mut g = Vec::new();
                        let end = Instant::now() + Duration::from_secs(20);
                        while h.live {
                            if Instant::now() > end {
                                g.push("nothing".to_string());
                                h.live = false;
                                break;
                            }
                            match h.recv.try_receive() {
                                Ok(m) if m.topic[..] == b"mark"[..] => {
                                    let body: Vec<u8> = m.payload::<Vec<u8>>().unwrap_or_default();
                                    if body == marks.to_be_bytes() {
                                        break;
                                    }
                                }
                                Ok(m) => g.push(String::from_utf8_lossy(&m.topic[..]).to_string()),
                                Err(_) => std::thread::sleep(Duration::from_micros(300)),
                            }
                        }
                        got.push(g);
                    }
                    out.line(&json!({"e":"pub","p":p + 1,"db":DBS[db],"topics":topics,"conn":conn,"res":res,"got":got}));
                }
                _ => {
                    let op = gens[db].next(&mut rng);
                    let mut todo = vec![(p, op)];
                    match &todo[0].1 {
                        Op::DelView { c, .. } => {
                            let c = c.clone();
                            todo.push((0, Op::List { c, kind: "headers".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 }));
                        }
                        Op::TxLog { start, .. } if *start >= 0 => todo.insert(0, (0, Op::TxLog { start: -1, lim: 1000 })),
                        _ => {}
                    }
                    for (p, op) in todo {
                        let (conn, way) = ts[p].choose(&mut rng).unwrap();
                        let res = way[db].guarded_op(&host, &pool, &op);
                        gens[db].learn(&op, &res);
                        let mut line = serde_json::to_value(&op).unwrap();
                        line["e"] = json!("op");
                        line["p"] = json!(p + 1);
                        line["db"] = json!(DBS[db]);
                        line["conn"] = json!(conn);
                        crashed = res["t"] == "crash";
                        line["res"] = res;
                        out.line(&line);
                        if crashed {
                            break;
                        }
                    }
                }
            }
            if crashed {
                out.flush();
                std::process::exit(0);
            }
        }
        // nothing that was denied left anything behind
        for (db, gen) in gens.iter_mut().enumerate() {
            for c in ["a", "b", "n", "e", "x"] {
                let mut ops = vec![Op::List { c: c.into(), kind: "docs".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 }];
                for v in views_of(c) {
                    ops.push(Op::Query { c: c.into(), v: v.to_string(), sel: Sel::All, desc: 0, lim: -1, pol: "before".into(), docs: 0, via: 1 });
                }
                for op in ops {
                    let res = ts[0][0].1[db].guarded_op(&host, &pool, &op);
                    gen.learn(&op, &res);
                    let mut line = serde_json::to_value(&op).unwrap();
                    line["e"] = json!("op");
                    line["p"] = json!(1);
                    line["db"] = json!(DBS[db]);
                    line["res"] = res;
                    out.line(&line);
                }
            }
        }
        drop(subs);
        drop(ts);
        drop((free, free2));
        host.stop();
    }
    out.flush();
    Ok(())
}
