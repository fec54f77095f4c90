//! Storages are filled, backed up, changed further, and restored elsewhere.
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use anyhow::Result;
use bonsaidb_core::admin::{PermissionGroup as Group, Role, User};
use bonsaidb_core::connection::{Connection, LowLevelConnection, Sort, StorageConnection};
use bonsaidb_core::document::{BorrowedDocument, CollectionHeader, DocumentId, Emit, KeyId};
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Timestamp, Value as KvValue};
use bonsaidb_core::schema::view::map::ViewMappedValue;
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::{
    Collection, CollectionName, MapReduce, Name, NamedCollection, Qualified, ReduceResult, Schema, SchemaName, Schematic, SerializedCollection, View,
    ViewMapResult, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold, StorageConfiguration};
use bonsaidb_local::{BackupLocation, Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::util::*;

// Contents are arbitrary bytes: they are only written and read as they are.
macro_rules! raw_collection {
    ($t:ident, $a:literal, $n:literal, $enc:expr, [$($v:ident),*]) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl Collection for $t {
            type PrimaryKey = DocumentId;
            fn collection_name() -> CollectionName {
                CollectionName::new($a, $n)
            }
            #[allow(unused_variables)]
            fn define_views(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
                $(schematic.define_view($v)?;)*
                Ok(())
            }
            fn encryption_key() -> Option<KeyId> {
                $enc
            }
        }
    };
}
raw_collection!(R, "bk", "raw", None, [First, Lazy]);
raw_collection!(W, "we/ird.", "_kv", None, []);
raw_collection!(Z, "..", "z%2e\u{e9}", Some(KeyId::Master), []);

macro_rules! raw_view {
    ($t:ident, $n:literal, $p:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl View for $t {
            type Collection = R;
            type Key = u32;
            type Value = u32;
            fn name(&self) -> Name {
                Name::new($n)
            }
        }
        impl ViewSchema for $t {
            type View = Self;
            type MappedKey<'doc> = u32;
            fn update_policy(&self) -> ViewUpdatePolicy {
                $p
            }
        }
        impl bonsaidb_core::schema::view::DefaultViewSerialization for $t {}
        impl MapReduce for $t {
            fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
                d.header.emit_key_and_value(d.contents.first().map_or(256, |b| u32::from(*b)), d.contents.len() as u32)
            }
            fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
                Ok(m.iter().map(|m| m.value).sum())
            }
        }
    };
}
raw_view!(First, "first", ViewUpdatePolicy::Eager);
raw_view!(Lazy, "lazy", ViewUpdatePolicy::Lazy);

macro_rules! schema {
    ($t:ident, $a:literal, $n:literal, [$($c:ident),*]) => {
        #[derive(Debug)]
        pub struct $t;
        impl Schema for $t {
            fn schema_name() -> SchemaName {
                SchemaName::new($a, $n)
            }
            #[allow(unused_variables)]
            fn define_collections(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
                $(schematic.define_collection::<$c>()?;)*
                Ok(())
            }
        }
    };
}
schema!(Full, "bk", "full", [R, W, Z]);
schema!(KvOnly, "b_k/\u{e9}", "kv only", []);
schema!(Two, "bk", "full.two", [R, W]);

const SCHEMAS: &[&str] = &["full", "kvonly", "two"];
fn colls_of(schema: &str) -> &'static [&'static str] {
    match schema {
        "full" => &["r", "w", "z"],
        "two" => &["r", "w"],
        _ => &[],
    }
}
fn cname(c: &str) -> CollectionName {
    match c {
        "r" => R::collection_name(),
        "w" => W::collection_name(),
        _ => Z::collection_name(),
    }
}

fn open(kind: u64, lazy: bool, path: &std::path::Path) -> Result<Storage> {
    let mut c: StorageConfiguration = config(kind, path).with_schema::<Full>()?.with_schema::<KvOnly>()?.with_schema::<Two>()?;
    if lazy {
        c = c.key_value_persistence(KeyValuePersistence::lazy([PersistenceThreshold::after_changes(7)]));
    }
    Ok(Storage::open(c)?)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// Ids and names that could be mistaken for one another, or for something else, when they
/// are turned into text or into the names of files.
const PIECES: &[&[u8]] = &[
    b"a", b"b", b"$", b"%", b".", b"..", b"/", b"\\", b"_", b"._key._", b"._key", b"_", b"2e", b"25", b"1", b"0", b"\x00", b"\x0a", b"\x7f", b"\xff", "\u{e9}".as_bytes(), b" ", b"-", b":", b"_kv",
];
fn word(rng: &mut StdRng, text: bool, max: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..rng.gen_range(0..=max) {
        let p = PIECES.choose(rng).unwrap();
        if text && (std::str::from_utf8(p).is_err() || p.contains(&0)) {
            continue;
        }
        v.extend_from_slice(p);
    }
    v
}

struct Pool {
    contents: Vec<Vec<u8>>,
    ids: Vec<Vec<u8>>,
    keys: Vec<(Option<String>, String)>,
}
impl Pool {
    fn new(rng: &mut StdRng) -> Self {
        let mut contents: Vec<Vec<u8>> = Vec::new();
        while contents.len() < 20 {
            let n = *[0usize, 1, 2, 3, 40, 300, 6000].choose(rng).unwrap();
            let c: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
            if !contents.contains(&c) {
                contents.push(c);
            }
        }
        let mut ids: Vec<Vec<u8>> = Vec::new();
        while ids.len() < 16 {
            let id = match rng.gen_range(0..6) {
                0 => rng.gen_range(0..3u64).to_be_bytes().to_vec(),
                1 => (0..rng.gen_range(0..5)).map(|_| rng.gen_range(0..3)).collect(),
                2 => (0..rng.gen_range(0..90)).map(|_| rng.gen_range(32..127)).collect(),
                _ => word(rng, false, 4),
            };
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        let mut keys: Vec<(Option<String>, String)> = Vec::new();
        while keys.len() < 16 {
            let ns = if rng.gen_bool(0.4) { None } else { Some(String::from_utf8(word(rng, true, 4)).unwrap()).filter(|n| !n.is_empty()) };
            let k = (ns, String::from_utf8(word(rng, true, 4)).unwrap());
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        Self { contents, ids, keys }
    }
    fn content(&self, c: &[u8]) -> i64 {
        self.contents.iter().position(|x| x == c).map_or(-1, |p| p as i64 + 1)
    }
    fn id(&self, id: &[u8]) -> i64 {
        self.ids.iter().position(|x| x == id).map_or(-1, |p| p as i64 + 1)
    }
}

fn kv_value(rng: &mut StdRng) -> KvValue {
    match rng.gen_range(0..5) {
        0 => KvValue::Numeric(Numeric::Integer(*[0, -1, i64::MIN, i64::MAX, 7].choose(rng).unwrap())),
        1 => KvValue::Numeric(Numeric::UnsignedInteger(*[0, 1, u64::MAX].choose(rng).unwrap())),
        2 => KvValue::Numeric(Numeric::Float(*[0.0, -0.0, 1.5, f64::MAX, f64::INFINITY].choose(rng).unwrap())),
        3 => KvValue::Bytes(Vec::new().into()),
        _ => KvValue::Bytes((0..rng.gen_range(1..200)).map(|_| rng.gen()).collect::<Vec<u8>>().into()),
    }
}
fn show(v: &KvValue) -> String {
    match v {
        KvValue::Bytes(b) => format!("b{}", hex(b)),
        KvValue::Numeric(Numeric::Integer(i)) => format!("i{i}"),
        KvValue::Numeric(Numeric::UnsignedInteger(i)) => format!("u{i}"),
        KvValue::Numeric(Numeric::Float(f)) => format!("f{:x}", f.to_bits()),
    }
}

#[derive(Debug, Clone)]
enum Op {
    Put { c: &'static str, id: i64, ct: i64 },
    Del { c: &'static str, id: i64 },
    Set { k: i64, v: KvValue, ttl: i64 },
    Unset { k: i64 },
}
fn op_json(op: &Op, exp: i64) -> Value {
    match op {
        Op::Put { c, id, ct } => json!({"o":"put","c":c,"id":id,"ct":ct}),
        Op::Del { c, id } => json!({"o":"del","c":c,"id":id}),
        Op::Set { k, v, .. } => json!({"o":"set","k":k,"v":show(v),"exp":exp}),
        Op::Unset { k } => json!({"o":"unset","k":k}),
    }
}
fn gen_op(rng: &mut StdRng, pool: &Pool, schema: &str) -> Op {
    let colls = colls_of(schema);
    if colls.is_empty() || rng.gen_bool(0.4) {
        let k = rng.gen_range(1..=pool.keys.len() as i64);
        if rng.gen_bool(0.25) {
            Op::Unset { k }
        } else {
            Op::Set { k, v: kv_value(rng), ttl: if rng.gen_bool(0.15) { *[1500, 4000, 3_600_000].choose(rng).unwrap() } else { -1 } }
        }
    } else {
        let (c, id) = (*colls.choose(rng).unwrap(), rng.gen_range(1..=pool.ids.len() as i64));
        if rng.gen_bool(0.25) {
            Op::Del { c, id }
        } else {
            Op::Put { c, id, ct: rng.gen_range(1..=pool.contents.len() as i64) }
        }
    }
}
struct Clock(Instant, std::time::SystemTime);
impl Clock {
    fn ms(&self) -> i64 {
        self.1.elapsed().map_or(0, |d| d.as_millis() as i64)
    }
}
/// Returns the operation as it goes into the trace
fn apply(db: &Database, pool: &Pool, op: &Op, clock: &Clock) -> Result<Value> {
    let mut exp = -1;
    match op {
        Op::Put { c, id, ct } => {
            let id = DocumentId::try_from(pool.ids[*id as usize - 1].as_slice())?;
            let tx = Transaction::from(Operation::overwrite(cname(c), id, pool.contents[*ct as usize - 1].clone()));
            db.apply_transaction(tx)?;
        }
        Op::Del { c, id } => {
            let id = DocumentId::try_from(pool.ids[*id as usize - 1].as_slice())?;
            if let Some(d) = db.get_from_collection(id, &cname(c))? {
                db.apply_transaction(Transaction::from(Operation::delete(cname(c), CollectionHeader::<DocumentId>::try_from(d.header)?.try_into()?)))?;
            }
        }
        Op::Set { k, v, ttl } => {
            let (namespace, key) = pool.keys[*k as usize - 1].clone();
            if *ttl >= 0 {
                exp = clock.ms() + ttl;
            }
            db.execute_key_operation(KeyOperation {
                namespace,
                key,
                command: Command::Set(SetCommand {
                    value: v.clone(),
                    expiration: (exp >= 0).then(|| Timestamp::from(clock.1 + Duration::from_millis(exp as u64))),
                    keep_existing_expiration: false,
                    check: None,
                    return_previous_value: false,
                }),
            })?;
        }
        Op::Unset { k } => {
            let (namespace, key) = pool.keys[*k as usize - 1].clone();
            db.execute_key_operation(KeyOperation { namespace, key, command: Command::Delete })?;
        }
    }
    Ok(op_json(op, exp))
}

fn dump_db(storage: &Storage, name: &str, schema: &str, pool: &Pool) -> Result<Value> {
    let db = match schema {
        "full" => storage.database::<Full>(name)?,
        "two" => storage.database::<Two>(name)?,
        _ => storage.database::<KvOnly>(name)?,
    };
    let mut docs = Vec::new();
    for c in colls_of(schema) {
        for d in db.list_from_collection(bonsaidb_core::connection::Range::from(..), Sort::Ascending, None, &cname(c))? {
            docs.push(json!([c, pool.id(&d.header.id), pool.content(&d.contents)]));
        }
    }
    let mut kv = Vec::new();
    for (i, (ns, key)) in pool.keys.iter().enumerate() {
        if let Output::Value(Some(v)) = db.execute_key_operation(KeyOperation { namespace: ns.clone(), key: key.clone(), command: Command::Get { delete: false } })? {
            kv.push(json!([i + 1, show(&v)]));
        }
    }
    let mut views = Vec::new();
    if colls_of(schema).contains(&"r") {
        for (v, rows, sum) in [
            ("first", db.view::<First>().query()?, db.view::<First>().reduce()?),
            ("lazy", db.view::<Lazy>().query()?, db.view::<Lazy>().reduce()?),
        ] {
            let rows: Vec<Value> = rows.iter().map(|m| json!([m.key, pool.id(&m.source.id), m.value])).collect();
            views.push(json!({"v":v,"rows":rows,"sum":sum}));
        }
    }
    Ok(json!({"n":name,"s":schema,"docs":docs,"kv":kv,"views":views}))
}
fn admin_docs(storage: &Storage) -> Result<Value> {
    let admin = storage.admin();
    let mut docs = Vec::new();
    for (c, name) in [("user", User::collection_name()), ("group", Group::collection_name()), ("role", Role::collection_name())] {
        for d in admin.list_from_collection(bonsaidb_core::connection::Range::from(..), Sort::Ascending, None, &name)? {
            docs.push(json!([c, hex(&d.header.id), hex(&d.contents)]));
        }
    }
    let mut names = Vec::new();
    for u in User::all(&admin).query()? {
        names.push(json!([u.contents.username, User::load(&u.contents.username, &admin)?.map_or(-1, |x| x.header.id as i64), u.header.id, u.contents.groups, u.contents.roles]));
    }
    Ok(json!({"docs":docs,"names":names}))
}
fn dump(storage: &Storage, pool: &Pool, clock: &Clock) -> Result<Value> {
    let t0 = clock.ms();
    let mut dbs = Vec::new();
    let mut others = Vec::new();
    for d in storage.list_databases()? {
        let s = if d.schema == Full::schema_name() {
            "full"
        } else if d.schema == Two::schema_name() {
            "two"
        } else if d.schema == KvOnly::schema_name() {
            "kvonly"
        } else {
            others.push(json!(d.name));
            continue;
        };
        dbs.push(dump_db(storage, &d.name, s, pool)?);
    }
    Ok(json!({"dbs":dbs,"others":others,"admin":admin_docs(storage)?,"t0":t0,"t1":clock.ms()}))
}

/// A location that keeps what it is given, and refuses to be given the same name twice.
#[derive(Default, Debug, Clone)]
struct Mem(Arc<Mutex<BTreeMap<(String, String, String, String), Vec<u8>>>>, Arc<AtomicBool>);
impl BackupLocation for Mem {
    type Error = Infallible;
    fn store(&self, schema: &SchemaName, db: &str, container: &str, name: &str, object: &[u8]) -> Result<(), Infallible> {
        if self.0.lock().unwrap().insert((schema.encoded(), db.into(), container.into(), name.into()), object.to_vec()).is_some() {
            self.1.store(true, Ordering::SeqCst);
        }
        Ok(())
    }
    fn list_schemas(&self) -> Result<Vec<SchemaName>, Infallible> {
        let mut v: Vec<_> = self.0.lock().unwrap().keys().map(|k| k.0.clone()).collect();
        v.dedup();
        Ok(v.into_iter().map(|s| SchemaName::parse_encoded(&s).unwrap()).collect())
    }
    fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Infallible> {
        let mut v: Vec<_> = self.0.lock().unwrap().keys().filter(|k| k.0 == schema.encoded()).map(|k| k.1.clone()).collect();
        v.dedup();
        Ok(v)
    }
    fn list_stored(&self, schema: &SchemaName, db: &str, container: &str) -> Result<Vec<String>, Infallible> {
        Ok(self.0.lock().unwrap().keys().filter(|k| k.0 == schema.encoded() && k.1 == db && k.2 == container).map(|k| k.3.clone()).collect())
    }
    fn load(&self, schema: &SchemaName, db: &str, container: &str, name: &str) -> Result<Vec<u8>, Infallible> {
        Ok(self.0.lock().unwrap()[&(schema.encoded(), db.into(), container.into(), name.into())].clone())
    }
}

fn create(storage: &Storage, name: &str, schema: &str) -> Result<Database> {
    Ok(match schema {
        "full" => storage.create_database::<Full>(name, false)?,
        "two" => storage.create_database::<Two>(name, false)?,
        _ => storage.create_database::<KvOnly>(name, false)?,
    })
}

fn res<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>) -> Value {
    match r {
        Ok(Ok(_)) => json!({"t":"ok"}),
        Ok(Err(e)) => json!({"t":"error","m":e.to_string()}),
        Err(m) => json!({"t":"crash","m":m}),
    }
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 6);
    let nops = args.n("ops", 60);
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()?;
    for sc in 0..scenarios {
        let mut rng = StdRng::seed_from_u64(seed * 1_000_003 + sc);
        let pool = Arc::new(Pool::new(&mut rng));
        let (k1, k2) = (rng.gen_range(0..6u64), rng.gen_range(0..6u64));
        let clock = Arc::new(Clock(Instant::now(), std::time::SystemTime::now()));
        let ct: Vec<Value> = pool.contents.iter().map(|c| json!({"f": c.first().map_or(256, |b| i64::from(*b)), "l": c.len()})).collect();
        let ids: Vec<String> = pool.ids.iter().map(|c| hex(c)).collect();
        out.line(&json!({"e":"reset","ct":ct,"ids":ids,"keys":pool.keys.iter().map(|k| format!("{:?} {:?}", k.0, k.1)).collect::<Vec<_>>(),"kinds":[k1,k2],"sc":sc,"seed":seed}));
        let dir = Scratch::new("bk1");
        let mut storage = open(k1, rng.gen_bool(0.5), &dir.0)?;
        let names = ["main", "a", "a.b", "A-1", "main.nebari", "zz"];
        let mut dbs: Vec<(String, &str, Database)> = Vec::new();
        let mut step = |rng: &mut StdRng, out: &mut Out, dbs: &mut Vec<(String, &'static str, Database)>, storage: &Storage, n: u64| -> Result<()> {
            for _ in 0..n {
                if dbs.is_empty() || (dbs.len() < names.len() && rng.gen_bool(0.08)) {
                    let name = *names.iter().filter(|n| !dbs.iter().any(|d| d.0 == **n)).collect::<Vec<_>>().choose(rng).unwrap();
                    let s = *SCHEMAS.choose(rng).unwrap();
                    let db = create(storage, name, s)?;
                    dbs.push((name.to_string(), s, db));
                    out.line(&json!({"e":"create","n":name,"s":s}));
                } else if rng.gen_bool(0.02) {
                    let i = rng.gen_range(0..dbs.len());
                    let (n, _, db) = dbs.swap_remove(i);
                    drop(db);
                    storage.delete_database(&n)?;
                    out.line(&json!({"e":"delete","n":n}));
                } else if rng.gen_bool(0.05) {
                    let admin = storage.admin();
                    match rng.gen_range(0..3) {
                        0 => {
                            let _ = storage.create_user(&format!("u{}", rng.gen_range(0..5)));
                        }
                        1 => {
                            let _ = Group::named(format!("g{}", rng.gen_range(0..3))).push_into(&admin);
                        }
                        _ => {
                            let _ = Role::named(format!("r{}", rng.gen_range(0..3))).push_into(&admin);
                        }
                    }
                    let us: Vec<_> = User::all(&admin).query()?;
                    let gs: Vec<_> = Group::all(&admin).query()?;
                    if let (Some(u), Some(g)) = (us.choose(rng), gs.choose(rng)) {
                        storage.add_permission_group_to_user(u.contents.username.as_str(), g.contents.name.as_str())?;
                    }
                    out.line(&json!({"e":"admin","admin":admin_docs(storage)?}));
                } else {
                    let d = dbs.choose(rng).unwrap();
                    let op = gen_op(rng, &pool, d.1);
                    let v = apply(&d.2, &pool, &op, &clock)?;
                    out.line(&json!({"e":"op","n":d.0,"op":v}));
                }
            }
            Ok(())
        };
        let n = rng.gen_range(1..=nops);
        step(&mut rng, &mut out, &mut dbs, &storage, n)?;
        if k1 != 4 && rng.gen_bool(0.3) {
            dbs.iter_mut().for_each(|_| ());
            let list: Vec<(String, &str)> = dbs.drain(..).map(|d| (d.0, d.1)).collect();
            drop(storage);
            storage = open(k1, rng.gen_bool(0.5), &dir.0)?;
            for (n, s) in list {
                let db = match s {
                    "full" => storage.database::<Full>(&n)?,
                    "two" => storage.database::<Two>(&n)?,
                    _ => storage.database::<KvOnly>(&n)?,
                };
                dbs.push((n, s, db));
            }
        }
        let mut v = dump(&storage, &pool, &clock)?;
        v["e"] = json!("dump");
        out.line(&v);

        // backup, in some scenarios while one database is being written to
        let racing = rng.gen_bool(0.4).then(|| dbs.choose(&mut rng).map(|d| (d.0.clone(), d.1, d.2.clone()))).flatten();
        let stop = Arc::new(AtomicBool::new(false));
        let writer = racing.as_ref().map(|(_, s, db)| {
            let (s, db, pool, clock, stop) = (*s, db.clone(), pool.clone(), clock.clone(), stop.clone());
            let mut rng = StdRng::seed_from_u64(rng.gen());
            std::thread::spawn(move || -> Result<Vec<Value>> {
                let mut done = Vec::new();
                while done.len() < 40 && !(stop.load(Ordering::SeqCst) && done.len() > 3) {
                    done.push(apply(&db, &pool, &gen_op(&mut rng, &pool, s), &clock)?);
                }
                Ok(done)
            })
        });
        let mem = Mem::default();
        let path = dir.0.join("backup");
        let asy = rng.gen_bool(0.3);
        let in_memory = rng.gen_bool(0.4);
        let r = {
            let (st, mem, path, h) = (storage.clone(), mem.clone(), path.clone(), rt.handle().clone());
            res(with_timeout(60, move || match (asy, in_memory) {
                (false, true) => st.backup(&mem),
                (false, false) => st.backup(&path),
                (true, true) => h.block_on(st.into_async_with_runtime(h.clone()).backup(mem)),
                (true, false) => h.block_on(st.into_async_with_runtime(h.clone()).backup(path)),
            }))
        };
        stop.store(true, Ordering::SeqCst);
        let during = match writer {
            Some(w) => w.join().map_err(|_| anyhow::anyhow!("writer"))??,
            None => vec![],
        };
        out.line(&json!({"e":"backup","res":r,"n":racing.map_or(String::new(), |r| r.0),"during":during,"twice":mem.1.load(Ordering::SeqCst),"mem":in_memory,"async":asy}));
        // what happens afterwards isn't in the backup
        step(&mut rng, &mut out, &mut dbs, &storage, 10)?;
        let mut v = dump(&storage, &pool, &clock)?;
        v["e"] = json!("dump");
        out.line(&v);

        // a new storage, perhaps with databases of its own
        drop(dbs);
        drop(storage);
        let dir2 = Scratch::new("bk2");
        let mut storage = open(k2, rng.gen_bool(0.5), &dir2.0)?;
        let own = rng.gen_bool(0.3);
        out.line(&json!({"e":"fresh"}));
        if own {
            let db = create(&storage, "own", "full")?;
            out.line(&json!({"e":"create","n":"own","s":"full"}));
            for _ in 0..5 {
                let v = apply(&db, &pool, &gen_op(&mut rng, &pool, "full"), &clock)?;
                out.line(&json!({"e":"op","n":"own","op":v}));
            }
        }
        let r = {
            let (st, mem, path, h) = (storage.clone(), mem.clone(), path.clone(), rt.handle().clone());
            res(with_timeout(60, move || match (asy, in_memory) {
                (true, true) => st.restore(&mem),
                (true, false) => st.restore(&path),
                (false, true) => h.block_on(st.into_async_with_runtime(h.clone()).restore(mem)),
                (false, false) => h.block_on(st.into_async_with_runtime(h.clone()).restore(path)),
            }))
        };
        out.line(&json!({"e":"restore","res":r}));
        if rng.gen_bool(0.3) {
            std::thread::sleep(Duration::from_millis(2200));
        }
        let mut v = dump(&storage, &pool, &clock)?;
        v["e"] = json!("dump");
        out.line(&v);
        if k2 != 4 && rng.gen_bool(0.5) {
            drop(storage);
            storage = open(k2, rng.gen_bool(0.5), &dir2.0)?;
            let mut v = dump(&storage, &pool, &clock)?;
            v["e"] = json!("dump");
            out.line(&v);
        }
        drop(storage);
    }
    out.flush();
    Ok(())
}
