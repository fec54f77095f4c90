//! Programs that create, use and delete databases of one storage.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Arc;

use anyhow::Result;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::document::KeyId;
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{Qualified, Schema, SchemaName, Schematic};
use bonsaidb_core::Error as E;
use bonsaidb_local::config::{Builder, Compression, StorageConfiguration};
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::crash::{call_line, reads};
use crate::fsrec::{self, FsOp, Image};
use crate::gen::*;
use crate::ops::*;
use crate::schema::*;
use crate::store::{guarded_exec, set_ev, EV0};
use crate::util::*;

#[derive(Debug)]
pub struct Unregistered;
impl Schema for Unregistered {
    fn schema_name() -> SchemaName {
        SchemaName::new("v", "none")
    }
    fn define_collections(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_collection::<A>()
    }
}

/// The storage is kept three levels below the scratch folder, which holds files nobody may touch.
pub fn config(kind: u64, root: &Path) -> StorageConfiguration {
    let c = StorageConfiguration::new(root.join("l1").join("l2").join("db")).tasks_worker_count(4).tasks_parallelization(2);
    match kind {
        1 => c.default_encryption_key(KeyId::Master),
        2 => c.default_compression(Compression::Lz4),
        3 => c.default_encryption_key(KeyId::Master).default_compression(Compression::Lz4),
        4 => c.memory_only(),
        _ => c,
    }
}
pub fn open(kind: u64, root: &Path) -> Result<Storage> {
    Ok(Storage::open(config(kind, root).with_schema::<Main>()?.with_schema::<Other>()?)?)
}

const GOOD: &[&str] = &["main", "a", "A", "a-b", "a.b", "0", "main2"];
const BAD: &[&str] = &["", ".", "..", "../side", "../../side", "a/b", "a/../main", "-a", ".a", "a b", "\u{e9}", "main/", "a\0", "main/collection.v.a.nebari"];
const OWN: &[&str] = &["vault-keys", "master-keys", "storage-id", "server-id"];

fn err(e: &E) -> Value {
    match e {
        E::DatabaseNotFound(_) => json!({"t":"notfound"}),
        E::InvalidDatabaseName(_) => json!({"t":"invalidname"}),
        E::DatabaseNameAlreadyTaken(_) => json!({"t":"taken"}),
        E::SchemaMismatch { .. } => json!({"t":"mismatch"}),
        E::SchemaNotRegistered(_) => json!({"t":"notregistered"}),
        other => json!({"t":"error","m":other.to_string()}),
    }
}
fn guard<T: Send + 'static>(f: impl FnOnce() -> Result<T, E> + Send + 'static) -> Result<T, Value> {
    match with_timeout(60, f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(err(&e)),
        Err(m) => Err(json!({"t":"crash","m":m})),
    }
}

#[derive(Clone, Debug)]
enum Cat {
    Create { n: String, cls: &'static str, s: &'static str, only: bool },
    Delete { n: String },
    Open { n: String, s: &'static str },
    List,
    KvSet { n: String, k: i64, v: i64 },
    KvGet { n: String, k: i64 },
    KvDel { n: String, k: i64 },
    /// an operation on a database
    Db { n: String, op: Op },
    /// an operation through a handle of a database deleted since
    Stale { h: usize, op: Op, kv: bool },
}

struct Live {
    db: Database,
    gen: Gen,
    main: bool,
}
struct World {
    storage: Storage,
    dbs: BTreeMap<String, Live>,
    stale: Vec<Database>,
}
impl World {
    fn new(storage: Storage) -> Self {
        Self { storage, dbs: BTreeMap::new(), stale: Vec::new() }
    }
}

fn gen_for(main: bool, pool: &Arc<Pool>) -> Gen {
    let mut m = mix("cat");
    if !main {
        m.colls = vec!["a", "b"];
    }
    let mut g = Gen::new(m, pool);
    g.ids = 5;
    g
}

fn kvkey(k: i64) -> String {
    format!("key{k}")
}

fn exec(w: &mut World, pool: &Arc<Pool>, c: &Cat) -> Value {
    let st = w.storage.clone();
    match c.clone() {
        Cat::Create { n, s, only, .. } => {
            let n2 = n.clone();
            let r = guard(move || match s {
                "main" => st.create_database::<Main>(&n2, only),
                "other" => st.create_database::<Other>(&n2, only),
                _ => st.create_database::<Unregistered>(&n2, only),
            });
            match r {
                Ok(db) => {
                    w.dbs.entry(n).or_insert_with(|| Live { db, gen: gen_for(s == "main", pool), main: s == "main" });
                    json!({"t":"ok"})
                }
                Err(v) => v,
            }
        }
        Cat::Delete { n } => {
            let n2 = n.clone();
            match guard(move || st.delete_database(&n2)) {
                Ok(()) => {
                    if let Some(l) = w.dbs.remove(&n) {
                        w.stale.push(l.db);
                    }
                    json!({"t":"ok"})
                }
                Err(v) => v,
            }
        }
        Cat::Open { n, s } => {
            let n2 = n.clone();
            let r = guard(move || match s {
                "main" => st.database::<Main>(&n2),
                _ => st.database::<Other>(&n2),
            });
            match r {
                Ok(db) => {
                    if let Some(l) = w.dbs.get_mut(&n) {
                        l.db = db;
                    } else {
                        w.dbs.insert(n, Live { db, gen: gen_for(s == "main", pool), main: s == "main" });
                    }
                    json!({"t":"ok"})
                }
                Err(v) => v,
            }
        }
        Cat::List => match guard(move || st.list_databases()) {
            Ok(l) => json!({"t":"ok","r":l.into_iter().filter(|d| d.name != "_admin").map(|d| json!({"n":d.name,"s":
                if d.schema == Main::schema_name() {"main"} else if d.schema == Other::schema_name() {"other"} else {"?"}})).collect::<Vec<_>>()}),
            Err(v) => v,
        },
        Cat::KvSet { n, k, v } => {
            let db = w.dbs[&n].db.clone();
            match guard(move || db.set_key(kvkey(k), &v).execute()) {
                Ok(_) => json!({"t":"ok"}),
                Err(v) => v,
            }
        }
        Cat::KvGet { n, k } => {
            let db = w.dbs[&n].db.clone();
            match guard(move || db.get_key(kvkey(k)).into::<i64>()) {
                Ok(v) => json!({"t":"ok","n":v.unwrap_or(-1)}),
                Err(v) => v,
            }
        }
        Cat::KvDel { n, k } => {
            let db = w.dbs[&n].db.clone();
            match guard(move || db.delete_key(kvkey(k))) {
                Ok(s) => json!({"t":"ok","n":i64::from(s == bonsaidb_core::keyvalue::KeyStatus::Deleted)}),
                Err(v) => v,
            }
        }
        Cat::Db { n, op } => {
            let l = w.dbs.get_mut(&n).unwrap();
            let r = guarded_exec(&l.db, pool, &op, None);
            l.gen.learn(&op, &r);
            r
        }
        Cat::Stale { h, op, kv } => {
            let db = w.stale[h].clone();
            if kv {
                match guard(move || db.set_key(kvkey(1), &77_i64).execute()) {
                    Ok(_) => json!({"t":"ok"}),
                    Err(v) => v,
                }
            } else {
                guarded_exec(&db, pool, &op, None)
            }
        }
    }
}

fn line(c: &Cat, res: &Value) -> Value {
    let mut v = match c {
        Cat::Create { n, cls, s, only } => json!({"op":"create","n":n,"cls":cls,"s":s,"only":i64::from(*only)}),
        Cat::Delete { n } => json!({"op":"delete","n":n}),
        Cat::Open { n, s } => json!({"op":"opendb","n":n,"s":s}),
        Cat::List => json!({"op":"listdbs"}),
        Cat::KvSet { n, k, v } => json!({"op":"kvset","n":n,"k":k,"v":v}),
        Cat::KvGet { n, k } => json!({"op":"kvget","n":n,"k":k}),
        Cat::KvDel { n, k } => json!({"op":"kvdel","n":n,"k":k}),
        Cat::Db { n, op } => {
            let mut v = call_line(op, res);
            v["db"] = json!(n);
            return v;
        }
        Cat::Stale { h, kv, .. } => json!({"op":"stale","h":h,"kv":kv}),
    };
    v["e"] = json!("call");
    v["res"] = res.clone();
    v
}

fn any_name(rng: &mut StdRng, abs: &str) -> (String, &'static str) {
    match rng.gen_range(0..20) {
        0..=14 => (GOOD[..4 + rng.gen_range(0..GOOD.len() - 3)].choose(rng).unwrap().to_string(), "ok"),
        15 | 16 => (OWN.choose(rng).unwrap().to_string(), "own"),
        17 => (abs.to_string(), "bad"),
        _ => (BAD.choose(rng).unwrap().to_string(), "bad"),
    }
}

fn everything(rng: &mut StdRng, n: &str, main: bool, every: bool, kv: bool) -> Vec<Cat> {
    let mut v: Vec<Cat> = reads(rng, true, every)
        .into_iter()
        .filter(|op| main || op_coll(op).map_or(true, |c| c == "a" || c == "b"))
        .filter(|op| !kv || !matches!(op, Op::TxLog { .. } | Op::LastTx {}))
        .map(|op| Cat::Db { n: n.into(), op })
        .collect();
    if kv {
        for k in 0..3 {
            v.push(Cat::KvGet { n: n.into(), k });
        }
    }
    v
}
fn op_coll(op: &Op) -> Option<String> {
    let v = serde_json::to_value(op).unwrap();
    v.get("c").and_then(|c| c.as_str()).map(|c| c.to_string())
}

/// A database of this name is used for keys, too.  (The log of one that is not can be foretold.)
fn keyed(n: &str) -> bool {
    n.len() % 2 == 1
}

fn next(rng: &mut StdRng, w: &mut World, pool: &Arc<Pool>, abs: &str, crashing: bool) -> Vec<Cat> {
    let names: Vec<String> = w.dbs.keys().cloned().collect();
    let live = names.choose(rng).cloned();
    match rng.gen_range(0..100) {
        0..=13 => {
            let (n, cls) = any_name(rng, abs);
            let s = *["main", "main", "main", "other", "none"].choose(rng).unwrap();
            let only = rng.gen_bool(0.5);
            let mut v = vec![Cat::Create { n: n.clone(), cls, s, only }];
            if cls != "bad" && s != "none" && !w.dbs.contains_key(&n) {
                // (if it was not created this does nothing)
                v.extend(everything(rng, &n, s == "main", false, keyed(&n) && !crashing));
            }
            v
        }
        14..=21 => {
            let n = if rng.gen_bool(0.6) { live.unwrap_or_else(|| "main".into()) } else { any_name(rng, abs).0 };
            let main = w.dbs.get(&n).map(|l| l.main);
            let mut v = vec![Cat::Delete { n: n.clone() }];
            if let Some(main) = main {
                if rng.gen_bool(0.6) {
                    // created again at once, perhaps with another schema
                    let s = if rng.gen_bool(0.8) == main { "main" } else { "other" };
                    let cls = if OWN.contains(&n.as_str()) { "own" } else { "ok" };
                    v.push(Cat::Create { n: n.clone(), cls, s, only: rng.gen_bool(0.5) });
                    v.extend(everything(rng, &n, s == "main", true, keyed(&n) && !crashing));
                }
            }
            v
        }
        22..=26 => {
            let (n, _) = any_name(rng, abs);
            vec![Cat::Open { n, s: if rng.gen_bool(0.7) { "main" } else { "other" } }]
        }
        27..=31 => vec![Cat::List],
        32..=36 if !w.stale.is_empty() && !crashing => {
            let h = rng.gen_range(0..w.stale.len());
            let kv = rng.gen_bool(0.5);
            let mut g = gen_for(false, pool);
            vec![Cat::Stale { h, op: g.tx(rng), kv }]
        }
        37..=55 if !crashing => match live.filter(|n| keyed(n)) {
            None => vec![Cat::List],
            Some(n) => {
                let k = rng.gen_range(0..3);
                vec![match rng.gen_range(0..5) {
                    0..=2 => Cat::KvSet { n, k, v: rng.gen_range(0..1000) },
                    3 => Cat::KvDel { n, k },
                    _ => Cat::KvGet { n, k },
                }]
            }
        },
        _ => match live {
            None => vec![Cat::Create { n: GOOD.choose(rng).unwrap().to_string(), cls: "ok", s: "main", only: false }],
            Some(n) => {
                let op = w.dbs.get_mut(&n).unwrap().gen.next(rng);
                let is_log = matches!(op, Op::TxLog { .. } | Op::LastTx {});
                if is_log && keyed(&n) && !crashing {
                    vec![]
                } else {
                    vec![Cat::Db { n, op }]
                }
            }
        },
    }
}

/// Files and their contents, below `dir`.
fn tree(dir: &Path, skip: &dyn Fn(&Path) -> bool, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if skip(&p) {
            continue;
        }
        if p.is_dir() {
            out.insert(p.clone(), b"dir".to_vec());
            tree(&p, skip, out);
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
}
fn outside(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let db = root.join("l1/l2/db");
    let mut m = BTreeMap::new();
    tree(root, &|p| p == db, &mut m);
    m
}
fn own(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let db = root.join("l1/l2/db");
    let mut m = BTreeMap::new();
    for f in ["storage-id", "master-keys"] {
        if let Ok(c) = std::fs::read(db.join(f)) {
            m.insert(db.join(f), c);
        }
    }
    tree(&db.join("vault-keys"), &|_| false, &mut m);
    m
}
pub fn dirs(root: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(root.join("l1/l2/db"))
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.path().is_dir())
        .filter_map(|e| e.file_name().to_str().map(|s| s.to_string()))
        .filter(|n| n != "_admin" && n != "vault-keys")
        .collect();
    v.sort();
    v
}

fn surroundings(root: &Path) {
    for p in ["side", "l1/side", "l1/l2/side", "abs"] {
        std::fs::create_dir_all(root.join(p).join("deep")).unwrap();
        std::fs::write(root.join(p).join("deep/file"), p).unwrap();
        std::fs::write(root.join(p).join("_transactions"), p).unwrap();
    }
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let nops = args.n("ops", 80);
    let points = args.n("points", 0) as usize;
    let kinds: Vec<u64> = args.s("kinds", if points > 0 { "0,1,2,3,5" } else { "0,1,2,3,4" }).split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let crashing = points > 0;
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 9_000_011 + sc);
        let kind = kinds[(seed + sc) as usize % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 24, sc % 4 == 3));
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("cat");
        surroundings(&dir.0);
        let abs = dir.0.join("abs").to_str().unwrap().to_string();
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        set_ev(EV0);
        std::fs::create_dir_all(dir.0.join("l1/l2")).unwrap();
        let around = outside(&dir.0);
        if crashing {
            fsrec::start(&dir.0.join("l1/l2/db"));
        }
        let mut w = World::new(open(kind, &dir.0)?);
        let mine = own(&dir.0);
        let mut events: Vec<(usize, Value, bool)> = Vec::new();
        let mut n = 0;
        let mut dead = false;
        'ops: while n < nops {
            n += 1;
            if kind != 4 && rng.gen_bool(0.05) {
                drop(w);
                w = World::new(open(kind, &dir.0)?);
                events.push((fsrec::position(), json!({"e":"reopen"}), false));
                let mut todo = vec![Cat::List];
                todo.extend(GOOD.iter().chain(OWN).flat_map(|n| ["main", "other"].map(|s| Cat::Open { n: n.to_string(), s })));
                for c in todo {
                    let at = fsrec::position();
                    let res = exec(&mut w, &pool, &c);
                    events.push((at, line(&c, &res), false));
                    events.push((fsrec::position(), json!({"e":"ret"}), false));
                }
                continue;
            }
            for c in next(&mut rng, &mut w, &pool, &abs, crashing) {
                if let Cat::Db { n, .. } | Cat::KvGet { n, .. } = &c {
                    if !w.dbs.contains_key(n) {
                        continue;
                    }
                }
                let at = fsrec::position();
                let res = exec(&mut w, &pool, &c);
                events.push((at, line(&c, &res), matches!(c, Cat::Create { .. } | Cat::Delete { .. })));
                events.push((fsrec::position(), json!({"e":"ret"}), false));
                if res["t"] == "crash" {
                    dead = true;
                    break 'ops;
                }
                if matches!(c, Cat::Create { .. } | Cat::Delete { .. } | Cat::Open { .. }) || rng.gen_bool(0.05) {
                    events.push((
                        fsrec::position(),
                        json!({"e":"fs","dirs":dirs(&dir.0),"outside":i64::from(outside(&dir.0) == around),"own":i64::from(own(&dir.0) == mine),"left":i64::from(kind == 4)}),
                        false,
                    ));
                }
            }
        }
        if dead || !crashing {
            fsrec::stop();
            for (_, l, _) in &events {
                out.line(l);
            }
            if dead {
                out.flush();
                std::process::exit(0);
            }
            continue;
        }
        drop(w);
        let root = dir.0.join("l1/l2/db");
        let ops = fsrec::settled(&root)?;
        // mostly within the creation or deletion of a database
        let mut ks = Vec::new();
        for (i, (at, _, interesting)) in events.iter().enumerate() {
            let to = events.get(i + 1).map_or(ops.len(), |e| e.0);
            for k in *at..to {
                ks.push((k, if *interesting { 8 } else { 1 }));
            }
        }
        let mut ks: Vec<usize> = ks.choose_multiple_weighted(&mut rng, points.min(ks.len()), |x| f64::from(x.1)).unwrap().map(|x| x.0).collect();
        ks.sort_unstable();
        ks.dedup();
        let mut image = Image::default();
        let (mut done, mut ne) = (0, 0);
        for k in ks {
            while done < k {
                image.apply(&ops[done]);
                done += 1;
            }
            while ne < events.len() && events[ne].0 <= k {
                out.line(&events[ne].1);
                ne += 1;
            }
            out.line(&json!({"e":"at","k":k,"of":ops.len(),"next":ops.get(k).map(|o: &FsOp| format!("{o:?}").chars().take(120).collect::<String>()).unwrap_or_default()}));
            let d = Scratch::new("catc");
            surroundings(&d.0);
            image.materialize(&root, &d.0.join("l1/l2/db"))?;
            out.line(&json!({"e":"crash"}));
            let path = d.0.clone();
            let st = match with_timeout(60, move || open(kind, &path)) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => {
                    out.line(&json!({"e":"fail","what":format!("open: {e:?}")}));
                    out.line(&json!({"e":"back"}));
                    continue;
                }
                Err(e) => {
                    out.line(&json!({"e":"fail","what":format!("open: {e}")}));
                    out.flush();
                    std::process::exit(0);
                }
            };
            let mut w = World::new(st);
            let mut todo = vec![Cat::List];
            todo.extend(GOOD.iter().flat_map(|n| ["main", "other"].map(|s| Cat::Open { n: n.to_string(), s })));
            let mut names: Vec<&str> = GOOD.to_vec();
            names.shuffle(&mut rng);
            for n in &names {
                todo.push(Cat::Create { n: n.to_string(), cls: "ok", s: "main", only: true });
                todo.extend(everything(&mut rng, n, true, false, false));
            }
            for n in &names[..2] {
                todo.push(Cat::Delete { n: n.to_string() });
                todo.push(Cat::Create { n: n.to_string(), cls: "ok", s: "main", only: true });
                todo.extend(everything(&mut rng, n, true, false, false));
            }
            todo.push(Cat::List);
            for c in todo {
                if let Cat::Db { n, op } = &c {
                    match w.dbs.get(n) {
                        None => continue,
                        Some(l) if !l.main && !op_coll(op).map_or(true, |c| c == "a" || c == "b") => continue,
                        _ => {}
                    }
                }
                let res = exec(&mut w, &pool, &c);
                out.line(&line(&c, &res));
                out.line(&json!({"e":"ret"}));
                if res["t"] == "crash" {
                    out.flush();
                    std::process::exit(0);
                }
            }
            out.line(&json!({"e":"back"}));
        }
        while ne < events.len() {
            out.line(&events[ne].1);
            ne += 1;
        }
    }
    out.flush();
    Ok(())
}
