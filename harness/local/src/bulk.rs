//! Programs on thousands of documents: transactions and views that span several batches of
//! the mapper, trees of several levels, logs longer than one answer may be.
use std::sync::atomic::{AtomicU64, Ordering};

use anyhow::Result;
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{CollectionDocument, DocumentId, Emit, Header, Revision};
use bonsaidb_core::schema::view::map::{Mappings, ViewMappedValue};
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, DefaultSerialization, Name, Qualified, ReduceResult, Schema, SchemaName,
    Schematic, SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema,
};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::util::*;

/// Ids that far apart share a key of the unique view (when the rest of it agrees).
const U: u64 = 700;
static VER: AtomicU64 = AtomicU64::new(0);

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(transparent)]
pub struct L(u64);
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(transparent)]
pub struct M(u64);

macro_rules! col {
    ($c:ident, $n:literal, $($v:ident),*) => {
        impl Collection for $c {
            type PrimaryKey = u64;
            fn collection_name() -> CollectionName {
                CollectionName::new("bulk", $n)
            }
            fn define_views(s: &mut Schematic) -> std::result::Result<(), Error> {
                $(s.define_view($v)?;)*
                Ok(())
            }
        }
        impl DefaultSerialization for $c {}
    };
}
macro_rules! view {
    ($v:ident, $c:ident, $n:literal, $p:expr, $ver:expr) => {
        #[derive(Debug, Clone)]
        pub struct $v;
        impl View for $v {
            type Collection = $c;
            type Key = u64;
            type Value = u64;
            fn name(&self) -> Name {
                Name::new($n)
            }
        }
        impl ViewSchema for $v {
            type View = Self;
            type MappedKey<'doc> = u64;
            fn update_policy(&self) -> ViewUpdatePolicy {
                $p
            }
            fn version(&self) -> u64 {
                $ver
            }
        }
        impl bonsaidb_core::schema::view::DefaultViewSerialization for $v {}
    };
}
col!(L, "l", Lz, Lt);
col!(M, "m", Eg, Un);
view!(Lz, L, "lz", ViewUpdatePolicy::Lazy, VER.load(Ordering::SeqCst));
view!(Lt, L, "lt", ViewUpdatePolicy::Lazy, 0);
view!(Eg, M, "eg", ViewUpdatePolicy::Eager, VER.load(Ordering::SeqCst));
view!(Un, M, "un", ViewUpdatePolicy::Unique, 0);

fn val(id: u64, k: u64) -> u64 {
    (id * 7 + k) % 101
}
fn ver() -> u64 {
    VER.load(Ordering::SeqCst)
}
impl CollectionMapReduce for Lz {
    fn map<'doc>(&self, d: CollectionDocument<L>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.0 + 1000 * ver(), val(d.header.id, d.contents.0))
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
impl CollectionMapReduce for Lt {
    fn map<'doc>(&self, d: CollectionDocument<L>) -> ViewMapResult<'doc, Self> {
        let k = d.contents.0;
        if k % 5 == 0 {
            return Ok(Mappings::none());
        }
        Ok(d.header.emit_key_and_value(k % 7, 1)?.and(d.header.emit_key_and_value(100 + k % 11, 1)?))
    }
}
impl CollectionMapReduce for Eg {
    fn map<'doc>(&self, d: CollectionDocument<M>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.0 + 1000 * ver(), val(d.header.id, d.contents.0))
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
impl CollectionMapReduce for Un {
    fn map<'doc>(&self, d: CollectionDocument<M>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(((d.header.id - 1) % U) * 3 + d.contents.0 % 3, 1)
    }
}

#[derive(Debug)]
struct Sch;
impl Schema for Sch {
    fn schema_name() -> SchemaName {
        SchemaName::new("bulk", "schema")
    }
    fn define_collections(s: &mut Schematic) -> std::result::Result<(), Error> {
        s.define_collection::<L>()?;
        s.define_collection::<M>()
    }
}

fn err(e: &Error) -> Value {
    let t = match e {
        Error::DocumentConflict(..) => "conflict",
        Error::DocumentNotFound(..) => "notfound",
        Error::UniqueKeyViolation { .. } => "unique",
        _ => "err",
    };
    json!({"t":t,"m":e.to_string()})
}
fn res(r: std::result::Result<Value, Error>) -> Value {
    match r {
        Ok(v) => json!({"t":"ok","r":v}),
        Err(e) => err(&e),
    }
}
fn uid(id: &DocumentId) -> u64 {
    id.deserialize::<u64>().unwrap()
}

/// The contents operation `f` gives to a document.
fn content(f: (u64, u64, u64), id: u64) -> u64 {
    (id * f.0 + f.1) % f.2
}

fn policy(p: u64) -> AccessPolicy {
    match p {
        0 => AccessPolicy::UpdateBefore,
        1 => AccessPolicy::NoUpdate,
        _ => AccessPolicy::UpdateAfter,
    }
}

/// Mappings in their order, those of one key together; sources in ascending order.
fn groups(m: impl Iterator<Item = (u64, u64, u64)>) -> Value {
    let mut out: Vec<(u64, Vec<(u64, u64)>)> = Vec::new();
    for (k, id, v) in m {
        match out.last_mut() {
            Some((last, ids)) if *last == k => ids.push((id, v)),
            _ => out.push((k, vec![(id, v)])),
        }
    }
    for (_, ids) in &mut out {
        ids.sort_unstable();
    }
    json!(out
        .iter()
        .map(|(k, ids)| json!({"k":k,"s":ids.iter().map(|i| i.0).collect::<Vec<_>>(),"v":ids.iter().map(|i| i.1).sum::<u64>()}))
        .collect::<Vec<_>>())
}

fn query<V: SerializedView<Key = u64, Value = u64>>(db: &Database, o: &Value) -> std::result::Result<Value, Error>
where
    V::Collection: SerializedCollection<PrimaryKey = u64>,
    <V::Collection as SerializedCollection>::Contents: Serialize,
{
    let mut q = db.view::<V>().with_access_policy(policy(o["pol"].as_u64().unwrap()));
    let keys: Vec<u64> = o["keys"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap()).collect();
    match o["by"].as_str().unwrap() {
        "range" => q = q.with_key_range(keys[0]..keys[1]),
        "keys" => q = q.with_keys(keys.iter()),
        "key" => q = q.with_key(&keys[0]),
        _ => {}
    }
    match o["what"].as_str().unwrap() {
        "reduce" => return Ok(json!(q.reduce()?)),
        "grouped" => {
            let mut r = q.reduce_grouped()?;
            r.sort_by_key(|m| m.key);
            return Ok(json!(r.iter().map(|m| json!([m.key, m.value])).collect::<Vec<_>>()));
        }
        "delete" => return Ok(json!(q.delete_docs()?)),
        _ => {}
    }
    if o["desc"] == 1 {
        q = q.descending();
    }
    if let Some(lim) = o["lim"].as_u64().filter(|_| o["lim"].as_i64() >= Some(0)) {
        q = q.limit(lim as u32);
    }
    if o["what"] == "docs" {
        let r = q.query_with_docs()?;
        // every mapping comes with its document
        for m in r.iter() {
            if m.value != &val(uid(&m.document.header.id), pot_u64(V::Collection::deserialize(&m.document.contents)?)) && *m.value != 1 {
                return Err(Error::other("bulk", format!("another document {:?} {} {:?} {:?}", m.document.header, m.value, m.key, m.document.contents)));
            }
        }
        return Ok(groups(r.iter().map(|m| (*m.key, uid(&m.document.header.id), *m.value))));
    }
    Ok(groups(q.query()?.iter().map(|m| (m.key, m.source.id, m.value))))
}

struct Run {
    db: Option<Database>,
    kind: u64,
    dir: Scratch,
    /// Ids of the transactions that were listed, by position
    ids: Vec<u64>,
}

impl Run {
    fn open(&mut self) -> Result<()> {
        let c = config(self.kind, &self.dir.0).with_schema::<Sch>()?;
        let storage = Storage::open(c)?;
        self.db = Some(storage.create_database::<Sch>("bulk", true)?);
        Ok(())
    }

    fn headers<C: SerializedCollection<PrimaryKey = u64>>(&self, a: u64, b: u64, s: u64) -> std::result::Result<Vec<Header>, Error> {
        let h = self.db().list_headers_from_collection(
            Range::from(DocumentId::from_u64(a)..=DocumentId::from_u64(b)),
            Sort::Ascending,
            None,
            &C::collection_name(),
        )?;
        Ok(h.into_iter().filter(|h| (uid(&h.id) - a) % s == 0).collect())
    }

    fn db(&self) -> &Database {
        self.db.as_ref().unwrap()
    }

    fn on<C: SerializedCollection<PrimaryKey = u64, Contents = C> + Collection + Serialize>(
        &mut self,
        o: &Value,
        make: fn(u64) -> C,
    ) -> std::result::Result<Value, Error> {
        let n = |k: &str| o[k].as_u64().unwrap_or(0);
        let f = (n("f0"), n("f1"), n("f2"));
        let ids: Vec<u64> = (n("a")..=n("b")).step_by((n("s") as usize).max(1)).collect();
        let bytes = |id: u64| <C as SerializedCollection>::serialize(&make(content(f, id)));
        let cn = C::collection_name();
        match o["op"].as_str().unwrap() {
            w @ ("ins" | "ovr" | "many") => {
                let mut tx = Transaction::new();
                for id in ids {
                    let did = DocumentId::from_u64(id);
                    let op = if w == "ovr" {
                        Operation::overwrite(cn.clone(), did, bytes(id)?)
                    } else {
                        Operation::insert(cn.clone(), Some(did), bytes(id)?)
                    };
                    if w == "many" {
                        LowLevelConnection::apply_transaction(self.db(), Transaction { operations: vec![op] })?;
                    } else {
                        tx.push(op);
                    }
                }
                if w != "many" {
                    LowLevelConnection::apply_transaction(self.db(), tx)?;
                }
                Ok(json!(0))
            }
            "push" => {
                let mut tx = Transaction::new();
                for i in 0..n("n") {
                    tx.push(Operation::insert(cn.clone(), None, bytes(i)?));
                }
                let r = LowLevelConnection::apply_transaction(self.db(), tx)?;
                Ok(json!(r
                    .iter()
                    .map(|r| match r {
                        bonsaidb_core::transaction::OperationResult::DocumentUpdated { header, .. } => uid(&header.id),
                        _ => 0,
                    })
                    .collect::<Vec<_>>()))
            }
            w @ ("del" | "upd") => {
                let mut hs = self.headers::<C>(n("a"), n("b"), n("s"))?;
                if n("stale") == 1 {
                    if let Some(h) = hs.last_mut() {
                        h.revision = Revision::new(b"something else");
                    }
                }
                let mut tx = Transaction::new();
                for h in hs {
                    let id = uid(&h.id);
                    tx.push(if w == "del" {
                        Operation::delete(cn.clone(), h)
                    } else {
                        Operation::update(cn.clone(), h, bytes(id)?)
                    });
                }
                Ok(json!(LowLevelConnection::apply_transaction(self.db(), tx)?.len()))
            }
            "list" => {
                let sort = if n("desc") == 1 { Sort::Descending } else { Sort::Ascending };
                let lim = o["lim"].as_i64().filter(|l| *l >= 0).map(|l| l as u32);
                if n("headers") == 1 {
                    let r = self.db().list_headers_from_collection(
                        Range::from(DocumentId::from_u64(n("a"))..=DocumentId::from_u64(n("b"))),
                        sort,
                        lim,
                        &cn,
                    )?;
                    return Ok(json!(r.iter().map(|h| json!([uid(&h.id), 0])).collect::<Vec<_>>()));
                }
                let r = self.db().list_from_collection(
                    Range::from(DocumentId::from_u64(n("a"))..=DocumentId::from_u64(n("b"))),
                    sort,
                    lim,
                    &cn,
                )?;
                r.iter()
                    .map(|d| Ok(json!([uid(&d.header.id), pot_u64(C::deserialize(&d.contents)?)])))
                    .collect::<std::result::Result<Vec<_>, Error>>()
                    .map(Value::from)
            }
            "multi" => {
                let mut ids: Vec<DocumentId> = ids.into_iter().map(DocumentId::from_u64).collect();
                let mut rng = StdRng::seed_from_u64(n("a"));
                ids.shuffle(&mut rng);
                let mut r = self
                    .db()
                    .get_multiple_from_collection(&ids, &cn)?
                    .iter()
                    .map(|d| Ok((uid(&d.header.id), pot_u64(C::deserialize(&d.contents)?))))
                    .collect::<std::result::Result<Vec<_>, Error>>()?;
                r.sort_unstable();
                Ok(json!(r))
            }
            "count" => Ok(json!(if n("all") == 1 {
                self.db().collection::<C>().all().count()?
            } else {
                self.db().count_from_collection(Range::from(DocumentId::from_u64(n("a"))..=DocumentId::from_u64(n("b"))), &cn)?
            })),
            "log" => {
                let at = n("at") as usize;
                let start = if n("start") == 1 { Some(if at == 0 { 0 } else { self.ids[at - 1] + 1 }) } else { None };
                let lim = o["lim"].as_i64().filter(|l| *l >= 0).map(|l| l as u32);
                let r = self.db().list_executed_transactions(start, lim)?;
                let mut prev = 0;
                for (i, e) in r.iter().enumerate() {
                    let at = if n("start") == 1 { at + i } else { i };
                    if self.ids.len() == at {
                        self.ids.push(e.id);
                    } else if self.ids[at] != e.id {
                        return Err(Error::other("bulk", "ids changed"));
                    }
                    if e.id <= prev && i > 0 {
                        return Err(Error::other("bulk", "ids not ascending"));
                    }
                    prev = e.id;
                }
                Ok(json!(r.iter().map(|e| e.changes.documents().map_or(0, |d| d.documents.len())).collect::<Vec<_>>()))
            }
            "compact" => {
                if n("all") == 1 {
                    self.db().compact()?;
                } else {
                    self.db().compact_collection_by_name(cn)?;
                }
                Ok(json!(0))
            }
            other => panic!("{other}"),
        }
    }
}

fn pot_u64<C: Serialize>(c: C) -> u64 {
    serde_json::to_value(c).unwrap().as_u64().unwrap()
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 1);
    let nops = args.n("ops", 40);
    let size = args.n("size", 3000);
    let mut out = Out::new(&args.s("out", "/tmp/bulk.ndjson"));
    for sc in 0..scenarios {
        let mut rng = StdRng::seed_from_u64(seed * 7_000_003 + sc);
        let kind = args.n("kind", [0, 4, 1, 2, 0, 3, 5][((seed + sc) % 7) as usize]);
        VER.store(0, Ordering::SeqCst);
        let mut run = Run { db: None, kind, dir: Scratch::new("bulk"), ids: Vec::new() };
        run.open()?;
        out.line(&json!({"op":"reset","kind":kind,"seed":seed,"sc":sc,"u":U}));
        let kmax = *[40u64, 11, 300].choose(&mut rng).unwrap();
        let mut log = 0usize;
        // Transaction ids that are not logged (failed transactions, compactions) and large
        // transactions can make nebari miss transactions when the database is opened again
        // (known finding of C04), so a calm scenario has none, or opens the database again
        // before the next transaction.
        let calm = kind != 4 && rng.gen_bool(0.6);
        let mut compacted = false;
        for step in 0..nops {
            let c = if rng.gen_bool(0.6) { "l" } else { "m" };
            let top = if c == "l" { size } else if calm { U } else { 1000 };
            let a = if rng.gen_bool(0.3) { 1 } else { rng.gen_range(1..=top) };
            let b = if rng.gen_bool(0.5) { rng.gen_range(a..=top) } else { (a + rng.gen_range(0..60)).min(top) };
            // the eager views are updated one document at a time
            let b = if c == "m" { b.min(a + 450) } else { b };
            let s = *[1u64, 1, 1, 2, 3].choose(&mut rng).unwrap();
            let (f0, f1) = (rng.gen_range(0..9), rng.gen_range(0..kmax));
            let r = rng.gen_range(0..100);
            let mut o = if std::mem::take(&mut compacted) {
                json!({"op":"reopen","c":"l","bump":i32::from(rng.gen_bool(0.6))})
            } else if step < 2 {
                let c = if step == 0 { "l" } else { "m" };
                json!({"op":"ins","c":c,"a":1,"b":if step == 0 { size - 400 } else { 500 },"s":1})
            } else if r < 8 && !calm {
                json!({"op":"ins","c":c,"a":a,"b":b,"s":s})
            } else if r < 22 {
                json!({"op":"ovr","c":c,"a":a,"b":b,"s":s})
            } else if r < 32 {
                json!({"op":"upd","c":c,"a":a,"b":b,"s":s,"stale":i32::from(!calm && rng.gen_bool(0.15))})
            } else if r < 42 {
                json!({"op":"del","c":c,"a":a,"b":b,"s":s,"stale":i32::from(!calm && rng.gen_bool(0.15))})
            } else if r < 44 && (!calm || c == "l") {
                json!({"op":"push","c":c,"n":rng.gen_range(1..if c == "l" { 700 } else { 100 })})
            } else if r < 46 && step + 8 < nops {
                json!({"op":"many","c":"l","a":20000 * (step + 1),"b":20000 * (step + 1) + rng.gen_range(10..1300),"s":1})
            } else if r < 50 {
                json!({"op":"list","c":c,"a":a,"b":b,"desc":i32::from(rng.gen_bool(0.5)),"headers":i32::from(rng.gen_bool(0.3)),
                       "lim":if rng.gen_bool(0.5) { rng.gen_range(0..500) } else { -1 }})
            } else if r < 53 {
                json!({"op":"multi","c":c,"a":a,"b":b,"s":s})
            } else if r < 58 {
                json!({"op":"count","c":c,"a":a,"b":b,"all":i32::from(rng.gen_bool(0.3))})
            } else if r < 64 {
                let start = i32::from(rng.gen_bool(0.8));
                let at = if rng.gen_bool(0.7) { log } else { rng.gen_range(0..=log) };
                json!({"op":"log","c":"l","at":at,"start":start,"lim":*[-1i64, -1, 0, 1, 100, 999, 1000, 1001, 5000].choose(&mut rng).unwrap()})
            } else if r < 67 {
                compacted = calm;
                json!({"op":"compact","c":c,"all":i32::from(rng.gen_bool(0.4))})
            } else if r < 70 && calm {
                json!({"op":"reopen","c":"l","bump":i32::from(rng.gen_bool(0.6))})
            } else {
                let v = *["lz", "lz", "lz", "lt", "lt", "eg", "eg", "un"].choose(&mut rng).unwrap();
                let what = *if v == "lt" || v == "un" { &["query", "query", "docs", "query"] } else { &["query", "reduce", "grouped", "docs"] }
                    .choose(&mut rng)
                    .unwrap();
                let what = if rng.gen_bool(0.07) { "delete" } else { what };
                let base = if v == "lz" || v == "eg" { 1000 * ver() } else { 0 };
                let kr = match v {
                    "lt" => 112,
                    "un" => 3 * U,
                    _ => kmax,
                };
                let mut key = || base + rng.gen_range(0..kr);
                let (by, keys) = match what {
                    _ if v == "un" || what == "delete" => {
                        let k = key();
                        ("range", vec![k, k + if what == "delete" { 3 } else { 200 }])
                    }
                    _ => {
                        let (x, y, z) = (key(), key(), key());
                        match rng.gen_range(0..5) {
                            0 => ("all", vec![]),
                            1 => ("key", vec![x]),
                            2 => ("keys", { let mut v = vec![x, y, z]; v.sort_unstable(); v.dedup(); v.shuffle(&mut rng); v }),
                            _ => ("range", vec![x.min(y), x.max(y) + 1]),
                        }
                    }
                };
                // (a view must be indexed when it is not updated first)
                json!({"op":"view","c":if v.starts_with('l') { "l" } else { "m" },"v":v,"what":what,"by":by,"keys":keys,
                       "pol":if v.starts_with('l') { 0 } else { rng.gen_range(0..3) },
                       "desc":i32::from(rng.gen_bool(0.4)),
                       "lim":if rng.gen_bool(0.4) && by != "key" && by != "keys" { rng.gen_range(0..400) } else { -1 }})
            };
            if matches!(o["op"].as_str(), Some("ins" | "ovr" | "upd" | "push" | "many")) {
                o["f0"] = json!(f0);
                o["f1"] = json!(f1);
                o["f2"] = json!(kmax);
            }
            let o2 = o.clone();
            let r = with_timeout(120, move || {
                let mut run = run;
                let r = match (o2["op"].as_str().unwrap(), o2["c"].as_str().unwrap()) {
                    ("reopen", _) => {
                        run.db = None;
                        VER.fetch_add(o2["bump"].as_u64().unwrap(), Ordering::SeqCst);
                        run.open().map(|()| json!(0)).map_err(|e| Error::other("bulk", e))
                    }
                    ("view", _) => match o2["v"].as_str().unwrap() {
                        "lz" => query::<Lz>(run.db(), &o2),
                        "lt" => query::<Lt>(run.db(), &o2),
                        "eg" => query::<Eg>(run.db(), &o2),
                        _ => query::<Un>(run.db(), &o2),
                    },
                    (_, "l") => run.on::<L>(&o2, L),
                    _ => run.on::<M>(&o2, M),
                };
                (run, res(r))
            });
            match r {
                Ok((back, r)) => {
                    run = back;
                    log = run.ids.len();
                    o["res"] = r;
                    out.line(&o);
                }
                Err(m) => {
                    o["res"] = json!({"t":"crash","m":m});
                    out.line(&o);
                    out.flush();
                    return Ok(());
                }
            }
        }
        out.flush();
    }
    out.flush();
    println!("lines {}", out.1);
    Ok(())
}
