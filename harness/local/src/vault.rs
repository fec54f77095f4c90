//! Programs on storages of changing configurations (with and without a default key and
//! compression), whose files are then searched for what was stored.  Every string that is
//! stored is a token of its own; the specification decides which may be found in clear.
use std::collections::HashMap;
use std::path::Path;

use anyhow::Result;
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, Emit, KeyId};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, DefaultSerialization, Name, Qualified, Schema, SchemaName, Schematic,
    SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_local::config::{Builder, Compression, KeyValuePersistence, StorageConfiguration};
use bonsaidb_local::vault::LocalVaultKeyStorage;
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::util::*;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Body {
    t: String,
    k: String,
    v: String,
    pad: Vec<u8>,
}

macro_rules! col {
    ($c:ident, $name:literal, $key:expr, $lazy:ident, $eager:ident, $unique:ident) => {
        #[derive(Serialize, Deserialize, Debug, Clone)]
        #[serde(transparent)]
        pub struct $c(Body);
        impl Collection for $c {
            type PrimaryKey = u64;
            fn collection_name() -> CollectionName {
                CollectionName::new("vault", $name)
            }
            fn define_views(s: &mut Schematic) -> std::result::Result<(), bonsaidb_core::Error> {
                s.define_view($lazy)?;
                s.define_view($eager)?;
                s.define_view($unique)
            }
            fn encryption_key() -> Option<KeyId> {
                $key
            }
        }
        impl DefaultSerialization for $c {}
        col!(@view $c, $lazy, "lazy", ViewUpdatePolicy::Lazy);
        col!(@view $c, $eager, "eager", ViewUpdatePolicy::Eager);
        col!(@view $c, $unique, "unique", ViewUpdatePolicy::Unique);
    };
    (@view $c:ident, $v:ident, $n:literal, $p:expr) => {
        #[derive(Debug, Clone)]
        pub struct $v;
        impl View for $v {
            type Collection = $c;
            type Key = String;
            type Value = String;
            fn name(&self) -> Name {
                Name::new($n)
            }
        }
        impl ViewSchema for $v {
            type View = Self;
            type MappedKey<'doc> = String;
            fn update_policy(&self) -> ViewUpdatePolicy {
                $p
            }
        }
        impl bonsaidb_core::schema::view::DefaultViewSerialization for $v {}
        impl CollectionMapReduce for $v {
            fn map<'doc>(&self, d: CollectionDocument<$c>) -> ViewMapResult<'doc, Self> {
                d.header.emit_key_and_value(d.contents.0.k, d.contents.0.v)
            }
        }
    };
}
col!(P, "plain", None, PLazy, PEager, PUnique);
col!(E, "sealed", Some(KeyId::Master), ELazy, EEager, EUnique);

#[derive(Debug)]
struct Sch;
impl Schema for Sch {
    fn schema_name() -> SchemaName {
        SchemaName::new("vault", "schema")
    }
    fn define_collections(s: &mut Schematic) -> std::result::Result<(), bonsaidb_core::Error> {
        s.define_collection::<P>()?;
        s.define_collection::<E>()
    }
}

fn cfg(kind: u64, db: &Path, keys: &Path, lazy_kv: bool) -> StorageConfiguration {
    let c = StorageConfiguration::new(db)
        .tasks_worker_count(4)
        .tasks_parallelization(2)
        .vault_key_storage(LocalVaultKeyStorage::new(keys).unwrap())
        .with_schema::<Sch>()
        .unwrap();
    let c = if lazy_kv {
        c.key_value_persistence(KeyValuePersistence::lazy([
            bonsaidb_local::config::PersistenceThreshold::after_changes(1000).and_duration(std::time::Duration::from_secs(3600)),
        ]))
    } else {
        c
    };
    match kind {
        1 => c.default_encryption_key(KeyId::Master),
        2 => c.default_compression(Compression::Lz4),
        3 => c.default_encryption_key(KeyId::Master).default_compression(Compression::Lz4),
        _ => c,
    }
}

fn files(p: &Path, out: &mut Vec<(String, Vec<u8>)>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        // names of files and folders count as well
        out.push((e.path().display().to_string(), e.file_name().to_string_lossy().as_bytes().to_vec()));
        if e.path().is_dir() {
            files(&e.path(), out);
        } else if let Ok(b) = std::fs::read(e.path()) {
            out.push((e.path().display().to_string(), b));
        }
    }
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let t = to.join(e.file_name());
        if e.path().is_dir() {
            copy(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

const WINDOW: usize = 12;
struct Tokens {
    rng: StdRng,
    all: Vec<String>,
    of: HashMap<String, usize>,
}
impl Tokens {
    fn new(&mut self) -> (usize, String) {
        let n = self.rng.gen_range(24..48);
        let s: String = (0..n).map(|_| char::from(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[self.rng.gen_range(0..62)])).collect();
        self.all.push(s.clone());
        self.of.insert(s.clone(), self.all.len());
        (self.all.len(), s)
    }
    fn id(&self, s: &str) -> i64 {
        self.of.get(s).map_or(-1, |n| *n as i64)
    }
    /// The tokens of which a part is found in some file.
    fn find(&self, dir: &Path) -> Vec<usize> {
        let mut windows: HashMap<&[u8], usize> = HashMap::new();
        for (i, t) in self.all.iter().enumerate() {
            for o in [0, 6, t.len() - WINDOW] {
                windows.insert(&t.as_bytes()[o..o + WINDOW], i + 1);
            }
        }
        let mut fs = vec![];
        files(dir, &mut fs);
        let mut found = std::collections::BTreeSet::new();
        for (_, b) in &fs {
            for w in b.windows(WINDOW) {
                if w[0].is_ascii_alphanumeric() && w[WINDOW - 1].is_ascii_alphanumeric() {
                    if let Some(i) = windows.get(w) {
                        found.insert(*i);
                    }
                }
            }
        }
        found.into_iter().collect()
    }
}

struct Prog<'a> {
    t: Tokens,
    keys: Vec<(usize, String)>,
    out: &'a mut Out,
}
fn status<T>(r: &std::result::Result<T, impl std::fmt::Display>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}

macro_rules! both {
    ($c:expr, $f:ident $(::<$($g:tt),*>)? ($($a:expr),*)) => {
        if $c == "P" { $f::<P>($($a),*) } else { $f::<E>($($a),*) }
    };
}
trait Doc: SerializedCollection<Contents = Self, PrimaryKey = u64> + Clone + 'static {
    fn of(b: Body) -> Self;
    fn body(&self) -> &Body;
    fn view(db: &Database, w: &str, key: Option<&String>) -> std::result::Result<Vec<(u64, String, String)>, bonsaidb_core::Error>;
}
macro_rules! doc {
    ($c:ident, $lazy:ident, $eager:ident, $unique:ident) => {
        impl Doc for $c {
            fn of(b: Body) -> Self {
                Self(b)
            }
            fn body(&self) -> &Body {
                &self.0
            }
            fn view(db: &Database, w: &str, key: Option<&String>) -> std::result::Result<Vec<(u64, String, String)>, bonsaidb_core::Error> {
                fn rows<V: SerializedView<Key = String, Value = String, Collection = $c>>(
                    db: &Database,
                    key: Option<&String>,
                ) -> std::result::Result<Vec<(u64, String, String)>, bonsaidb_core::Error> {
                    let mut v = V::entries(db);
                    if let Some(k) = key {
                        v = v.with_key(k);
                    }
                    Ok(v.query()?.into_iter().map(|m| (m.source.id, m.key, m.value)).collect())
                }
                match w {
                    "lazy" => rows::<$lazy>(db, key),
                    "eager" => rows::<$eager>(db, key),
                    _ => rows::<$unique>(db, key),
                }
            }
        }
    };
}
doc!(P, PLazy, PEager, PUnique);
doc!(E, ELazy, EEager, EUnique);

fn put<C: Doc>(db: &Database, id: u64, b: Body) -> std::result::Result<(), String> {
    C::of(b).overwrite_into(&id, db).map(|_| ()).map_err(|e| e.error.to_string())
}
fn get<C: Doc>(db: &Database, id: u64) -> std::result::Result<Option<Body>, bonsaidb_core::Error> {
    Ok(C::get(&id, db)?.map(|d| d.contents.body().clone()))
}
fn del<C: Doc>(db: &Database, id: u64) -> std::result::Result<bool, bonsaidb_core::Error> {
    match C::get(&id, db)? {
        Some(d) => d.delete(db).map(|()| true),
        None => Ok(false),
    }
}
fn view<C: Doc>(db: &Database, w: &str, key: Option<&String>) -> std::result::Result<Vec<(u64, String, String)>, bonsaidb_core::Error> {
    C::view(db, w, key)
}
fn compact<C: Doc>(db: &Database) -> std::result::Result<(), bonsaidb_core::Error> {
    db.compact_collection::<C>()
}

impl Prog<'_> {
    fn line(&mut self, v: Value) {
        self.out.line(&v);
    }
    fn body(&mut self) -> (Body, Vec<usize>) {
        let (t, k, v) = (self.t.new(), self.t.new(), self.t.new());
        let n = *[0, 0, 30, 200, 3000].choose(&mut self.t.rng).unwrap();
        (Body { t: t.1, k: k.1, v: v.1, pad: vec![7; n] }, vec![t.0, k.0, v.0])
    }
    fn row(&self, b: &Body) -> Vec<i64> {
        vec![self.t.id(&b.t), self.t.id(&b.k), self.t.id(&b.v)]
    }
    fn step(&mut self, st: &Storage, db: &Database) {
        let c = *["P", "E"].choose(&mut self.t.rng).unwrap();
        let id = self.t.rng.gen_range(1..8);
        match self.t.rng.gen_range(0..100) {
            0..=24 => {
                let (b, t) = self.body();
                let r = both!(c, put(db, id, b));
                self.line(json!({"e": "put", "c": c, "i": id, "t": t, "r": status(&r)}));
            }
            25..=31 => {
                // several at once, in both collections
                let mut tx = Transaction::new();
                let mut ps = vec![];
                for c in ["P", "E"] {
                    for _ in 0..self.t.rng.gen_range(1..3) {
                        let id = self.t.rng.gen_range(1..8_u64);
                        let (b, t) = self.body();
                        tx.push(if c == "P" {
                            Operation::overwrite_serialized::<P, u64>(&id, &P(b)).unwrap()
                        } else {
                            Operation::overwrite_serialized::<E, u64>(&id, &E(b)).unwrap()
                        });
                        ps.push(json!({"c": c, "i": id, "t": t}));
                    }
                }
                let r = tx.apply(db);
                self.line(json!({"e": "tx", "ops": ps, "r": status(&r)}));
            }
            32..=38 => {
                let r = both!(c, del(db, id));
                self.line(json!({"e": "del", "c": c, "i": id, "r": status(&r), "d": u8::from(r.unwrap_or(false))}));
            }
            39..=52 => {
                let r = both!(c, get(db, id));
                let rows = match &r {
                    Ok(Some(b)) => vec![self.row(b)],
                    _ => vec![],
                };
                self.line(json!({"e": "get", "c": c, "i": id, "r": status(&r), "t": rows}));
            }
            53..=68 => {
                let w = *["lazy", "eager", "unique"].choose(&mut self.t.rng).unwrap();
                let k = if self.t.rng.gen_bool(0.3) { self.t.all.choose(&mut self.t.rng).cloned() } else { None };
                let r = both!(c, view(db, w, k.as_ref()));
                let mut rows: Vec<(u64, i64, i64)> = r.iter().flatten().map(|(i, k, v)| (*i, self.t.id(k), self.t.id(v))).collect();
                rows.sort_unstable();
                self.line(json!({"e": "view", "c": c, "w": w, "k": k.map_or(0, |k| self.t.id(&k)), "r": status(&r), "t": rows}));
            }
            69..=80 => {
                let k = if self.keys.len() > 4 && self.t.rng.gen_bool(0.6) { self.keys.choose(&mut self.t.rng).unwrap().clone() } else {
                    let k = self.t.new();
                    self.keys.push(k.clone());
                    k
                };
                let v = self.t.new();
                let r = db.set_key(k.1.as_str(), &v.1).execute();
                self.line(json!({"e": "set", "k": k.0, "v": v.0, "r": status(&r)}));
            }
            81..=85 => {
                let Some(k) = self.keys.choose(&mut self.t.rng).cloned() else { return };
                let r = db.get_key(k.1.as_str()).into::<String>();
                let v: Vec<i64> = match &r {
                    Ok(Some(v)) => vec![self.t.id(v)],
                    _ => vec![],
                };
                self.line(json!({"e": "kget", "k": k.0, "r": status(&r), "t": v}));
            }
            86..=87 => {
                let Some(k) = self.keys.choose(&mut self.t.rng).cloned() else { return };
                let r = db.delete_key(k.1.as_str());
                self.line(json!({"e": "kdel", "k": k.0, "r": status(&r)}));
            }
            88..=90 => {
                let u = self.t.new();
                let r = st.create_user(&u.1);
                self.line(json!({"e": "user", "u": u.0, "r": status(&r)}));
            }
            91..=94 => {
                let r = match self.t.rng.gen_range(0..3) {
                    0 => db.compact_key_value_store(),
                    1 => db.compact(),
                    _ => both!(c, compact(db)),
                };
                self.line(json!({"e": "compact", "r": status(&r)}));
            }
            _ => {}
        }
    }
    /// What can be read of the storage at `dir` with other keys.
    fn stolen(&mut self, kind: u64, dir: &Path, keys: &Path) -> (String, Vec<i64>) {
        let hushed = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| ()));
        let c = cfg(kind, dir, keys, false);
        let mut seen = vec![];
        let opened = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Storage::open(c)));
        let how = match opened {
            Ok(Ok(st)) => {
                for name in ["d"] {
                    let Ok(db) = st.database::<Sch>(name) else { continue };
                    let mut read = |f: &mut dyn FnMut() -> Vec<String>| {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or_default();
                        seen.extend(r.iter().map(|s| self.t.id(s)));
                    };
                    for id in 1..8 {
                        for c in ["P", "E"] {
                            read(&mut || match both!(c, get(&db, id)) {
                                Ok(Some(b)) => vec![b.t, b.k, b.v],
                                _ => vec![],
                            });
                        }
                    }
                    for c in ["P", "E"] {
                        for w in ["eager", "lazy"] {
                            read(&mut || both!(c, view(&db, w, None)).unwrap_or_default().into_iter().flat_map(|(_, k, v)| [k, v]).collect());
                        }
                    }
                    for k in &self.keys {
                        read(&mut || db.get_key(k.1.as_str()).into::<String>().ok().flatten().into_iter().collect());
                    }
                }
                "open"
            }
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        };
        std::panic::set_hook(hushed);
        seen.sort_unstable();
        seen.dedup();
        (how.to_string(), seen)
    }
}

fn scenario(out: &mut Out, seed: u64, ops: u64) -> Result<()> {
    let mut rng = StdRng::seed_from_u64(seed);
    let dir = Scratch::new("vault");
    let (path, keys) = (dir.0.join("db"), dir.0.join("keys"));
    let mut kind = rng.gen_range(0..4_u64);
    let epochs = rng.gen_range(1..5);
    out.line(&json!({"e": "new"}));
    let mut p = Prog { t: Tokens { rng: StdRng::seed_from_u64(seed ^ 0x5eed), all: vec![], of: HashMap::new() }, keys: vec![], out };
    for _ in 0..epochs {
        let st = Storage::open(cfg(kind, &path, &keys, rng.gen_bool(0.3)));
        p.line(json!({"e": "open", "key": kind & 1, "lz4": kind >> 1, "r": status(&st)}));
        let Ok(st) = st else { return Ok(()) };
        let db = st.create_database::<Sch>("d", true);
        p.line(json!({"e": "compact", "r": status(&db)}));
        let Ok(db) = db else { return Ok(()) };
        for _ in 0..rng.gen_range(5..ops) {
            p.step(&st, &db);
            if rng.gen_bool(0.03) {
                let f = p.t.find(&path);
                p.line(json!({"e": "scan", "t": f}));
            }
        }
        drop(db);
        drop(st);
        let f = p.t.find(&path);
        p.line(json!({"e": "scan", "t": f}));
        // what somebody else can do with the files
        if rng.gen_bool(0.5) {
            let (other, okeys) = (dir.0.join("other"), dir.0.join("otherkeys"));
            copy(&path, &other);
            std::fs::create_dir_all(&okeys)?;
            match rng.gen_range(0..3) {
                0 => {}
                1 => {
                    // somebody else's key, under the name that ours has
                    let mine = std::fs::read_dir(&keys)?.flatten().next().unwrap().file_name();
                    let scrap = dir.0.join("scrap");
                    let scrapkeys = dir.0.join("scrapkeys");
                    drop(Storage::open(cfg(0, &scrap, &scrapkeys, false))?);
                    let theirs = std::fs::read_dir(&scrapkeys)?.flatten().next().unwrap().path();
                    std::fs::copy(theirs, okeys.join(mine))?;
                    std::fs::remove_dir_all(&scrap)?;
                    std::fs::remove_dir_all(&scrapkeys)?;
                }
                _ => std::fs::remove_file(other.join("master-keys"))?,
            }
            let k = rng.gen_range(1..4);
            let (r, t) = p.stolen(k, &other, &okeys);
            p.line(json!({"e": "stolen", "r": r, "t": t}));
            std::fs::remove_dir_all(&other)?;
            std::fs::remove_dir_all(&okeys)?;
        }
        // a storage that has a vault keeps one
        kind = *(if kind == 0 { &[0, 1, 2, 3][..] } else { &[1, 2, 3, 1, 3][..] }).choose(&mut rng).unwrap();
    }
    Ok(())
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let mut out = Out::new(&args.s("out", "/tmp/vault.ndjson"));
    for k in 0..args.n("scenarios", 6) {
        scenario(&mut out, seed.wrapping_mul(1000) + k, args.n("ops", 50))?;
    }
    out.flush();
    Ok(())
}
