//! Programs that store, read and list files; appends and creations that race.
use anyhow::Result;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_files::FilesSchema;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::path::Path;
use std::sync::{Arc, Barrier};

use crate::fops::*;
use crate::perturb;
use crate::util::*;

const NAMES: &[&str] = &["a", "b", "ab", "\u{e9}", "a b", "\u{10ffff}", "\u{d7ff}", "A", ".", "a.", "~", "!"];

struct Gen {
    rng: StdRng,
    known: Vec<String>,
    handles: usize,
    readers: usize,
    ids: u32,
    block: usize,
    next: u8,
}

impl Gen {
    fn name(&mut self) -> String {
        let few = self.rng.gen_bool(0.6);
        if few { NAMES[self.rng.gen_range(0..3)].into() } else { NAMES.choose(&mut self.rng).unwrap().to_string() }
    }
    fn fresh_path(&mut self) -> String {
        let mut p = String::new();
        for _ in 0..self.rng.gen_range(1..4) {
            p.push('/');
            p.push_str(&self.name());
        }
        self.known.push(p.clone());
        p
    }
    fn path(&mut self) -> String {
        if !self.known.is_empty() && self.rng.gen_bool(0.7) {
            self.known.choose(&mut self.rng).unwrap().clone()
        } else {
            self.fresh_path()
        }
    }
    /// paths as users may write them
    fn loose_path(&mut self) -> String {
        let p = self.path();
        match self.rng.gen_range(0..20) {
            0 => format!("{p}/"),
            1 => p[1..].to_string(),
            2 => self.name(),
            3 => "/".into(),
            4 => String::new(),
            _ => p,
        }
    }
    fn dir(&mut self) -> String {
        let p = self.path();
        match self.rng.gen_range(0..10) {
            0 | 1 => "/".into(),
            2 => p,
            3 => format!("{p}/"),
            // a part of a name
            4 => { let k = p.char_indices().map(|c| c.0).filter(|i| *i > 0).collect::<Vec<_>>(); p[..*k.choose(&mut self.rng).unwrap_or(&1)].into() }
            5 => p[..=p.rfind('/').unwrap()].into(),
            _ => { let i = p.rfind('/').unwrap(); if i == 0 { "/".into() } else { p[..i].into() } }
        }
    }
    fn byte(&mut self) -> u8 {
        self.next = self.next.wrapping_add(1);
        if self.next == 0 { 1 } else { self.next }
    }
    fn size(&mut self) -> usize {
        let b = if self.block > 1000 { 20 } else { self.block };
        match self.rng.gen_range(0..12) {
            0 => 0,
            1 => 1,
            2 => b,
            3 => b + 1,
            4 => b.saturating_sub(1),
            5 => 2 * b,
            6 => 3 * b + 1,
            7 => self.rng.gen_range(0..4 * b + 2),
            8 => (b * 12 + 3).min(150),
            _ => self.rng.gen_range(0..2 * b + 2),
        }
    }
    fn data(&mut self) -> Vec<u8> {
        let n = self.size();
        if self.rng.gen_bool(0.7) {
            // text
            (0..n).map(|_| 32 + self.byte() % 90).collect()
        } else {
            (0..n).map(|_| self.byte()).collect()
        }
    }
    fn h(&mut self) -> usize {
        let recent = self.handles.saturating_sub(6);
        if self.rng.gen_bool(0.75) { self.rng.gen_range(recent..self.handles) + 1 } else { self.rng.gen_range(0..self.handles) + 1 }
    }
    fn r(&mut self) -> usize {
        let recent = self.readers.saturating_sub(3);
        if self.rng.gen_bool(0.85) { self.rng.gen_range(recent..self.readers) + 1 } else { self.rng.gen_range(0..self.readers) + 1 }
    }
    fn op(&mut self) -> Value {
        let md = |g: &mut Self| g.rng.gen_range(0..3);
        let keep = |g: &mut Self| if g.rng.gen_bool(0.4) { g.rng.gen_range(0..20) } else { -1 };
        let reading = self.readers > 0 && self.rng.gen_bool(0.45);
        if reading {
            let r = self.r();
            return match self.rng.gen_range(0..20) {
                0..=5 => json!({"e":"read","r":r,"n":self.size()}),
                6 | 7 => json!({"e":"readx","r":r,"n":self.size()}),
                8 => json!({"e":"rest","r":r}),
                9 => json!({"e":"into","r":r}),
                10 => json!({"e":"end","r":r}),
                11 => json!({"e":"text","r":r,"own":self.rng.gen_range(0..2)}),
                12 | 13 => json!({"e":"next","r":r}),
                14 => json!({"e":"cancel","r":r,"n":self.size()}),
                15 => json!({"e":"rinfo","r":r}),
                16 => json!({"e":"clone","r":r}),
                _ => {
                    let w = *["s", "e", "c"].choose(&mut self.rng).unwrap();
                    let s = self.size() as i64;
                    let o = match (w, self.rng.gen_range(0..8)) {
                        ("s", _) => s,
                        ("e", 0..=5) => -s,
                        ("e", _) => s,
                        (_, 0..=3) => -s,
                        (_, _) => s,
                    };
                    json!({"e":"seek","r":r,"w":w,"o":o})
                }
            };
        }
        let pick = if self.handles == 0 { self.rng.gen_range(0..32) } else { self.rng.gen_range(0..100) };
        match pick {
            0..=9 => {
                let has = self.rng.gen_bool(0.25);
                let at = self.dir();
                let has = has && at.len() > 1;
                let p = if has { if self.rng.gen_bool(0.8) { self.name() } else { self.path() } } else { self.loose_path() };
                if has {
                    let at = if at.ends_with('/') { at.clone() } else { format!("{at}/") };
                    self.known.push(format!("{at}{}", &p[p.rfind('/').map_or(0, |i| i + 1)..]));
                }
                json!({"e":"create","p":chars(&p),"has":i64::from(has),"at":chars(&at),"md":md(self),"data":self.data()})
            }
            10..=14 => json!({"e":"loc","p":chars(&self.loose_path()),"md":md(self),"ex":self.rng.gen_range(0..2)}),
            15..=19 => json!({"e":"load","p":chars(&self.loose_path())}),
            20..=22 => json!({"e":"get","id":self.rng.gen_range(0..self.ids + 2)}),
            23 => json!({"e":"delpath","p":chars(&self.loose_path())}),
            24..=26 => json!({"e":"list","p":chars(&self.dir()),"keep":keep(self)}),
            27..=29 => json!({"e":"listrec","p":chars(&self.dir()),"keep":keep(self)}),
            30 | 31 => json!({"e":"stats","p":chars(&self.dir())}),
            32..=34 => json!({"e":"children","h":self.h(),"keep":keep(self)}),
            35..=38 => {
                let name = match self.rng.gen_range(0..12) { 0 => String::new(), 1 => "a/b".into(), 2 => "/".into(), _ => self.name() };
                json!({"e":"rename","h":self.h(),"name":chars(&name)})
            }
            39..=43 => {
                let p = match self.rng.gen_range(0..12) { 0 => self.name(), 1 => String::new(), 2 => "/".into(), 3..=5 => format!("{}/", self.path()), _ => self.path() };
                json!({"e":"move","h":self.h(),"p":chars(&p)})
            }
            44..=46 => json!({"e":"setmd","h":self.h(),"md":md(self)}),
            47..=49 => json!({"e":"upd","h":self.h()}),
            50..=52 => json!({"e":"del","h":self.h()}),
            53..=61 => json!({"e":"append","h":self.h(),"data":self.data()}),
            62..=67 => {
                let mut steps = Vec::new();
                if self.rng.gen_bool(0.7) {
                    steps.push(json!({"s":"n","n":*[0usize, 1, 3, self.block.min(100), 2 * self.block.min(100), 300].choose(&mut self.rng).unwrap()}));
                }
                for _ in 0..self.rng.gen_range(1..6) {
                    steps.push(match self.rng.gen_range(0..8) {
                        0 => json!({"s":"f"}),
                        1 => json!({"s":"n","n":self.rng.gen_range(0..2 * self.block.min(40))}),
                        _ => json!({"s":"w","d":self.data()}),
                    });
                }
                json!({"e":"appendbuf","h":self.h(),"steps":steps,"end":self.rng.gen_range(0..2)})
            }
            68..=73 => {
                let n = if self.rng.gen_bool(0.25) { 0 } else { self.size() + self.size() };
                json!({"e":"trunc","h":self.h(),"n":n,"from":self.rng.gen_range(0..2)})
            }
            74..=78 => json!({"e":"len","h":self.h()}),
            79..=81 => json!({"e":"view","h":self.h()}),
            _ => {
                let buf: i64 = match self.rng.gen_range(0..7) { 0 => 0, 1 => 1, 2 => self.block.min(100) as i64, 3 => 2 * self.block.min(100) as i64, 4 => 1000, _ => -1 };
                json!({"e":"open","h":self.h(),"buf":buf})
            }
        }
    }
}

fn open<C: Cfg>(kind: u64, path: &Path) -> Result<(Storage, Database)> {
    let storage = Storage::open(config(kind, path).with_schema::<FilesSchema<C>>()?)?;
    let db = storage.create_database::<FilesSchema<C>>("files", true)?;
    Ok((storage, db))
}

enum Side<C: Cfg> {
    Sync(crate::fexec::Env<C>),
    Async(crate::afexec::Env<C>, tokio::runtime::Handle),
}

impl<C: Cfg> Side<C> {
    fn new(db: &Database, rt: Option<tokio::runtime::Handle>) -> Self {
        match rt {
            None => Self::Sync(crate::fexec::Env { db: db.clone(), files: vec![], readers: vec![] }),
            Some(h) => Self::Async(crate::afexec::Env { db: db.clone().into_async_with_runtime(h.clone()), files: vec![], readers: vec![] }, h),
        }
    }
    fn exec(&mut self, op: &Value, base: &FBase) -> Value {
        match self {
            Self::Sync(e) => crate::fexec::exec(e, op, base),
            Self::Async(e, h) => h.block_on(crate::afexec::exec(e, op, base)),
        }
    }
}

/// Runs it elsewhere, so that it may hang or panic.
fn guarded<C: Cfg>(side: Side<C>, op: &Value, base: FBase) -> (Option<Side<C>>, Value) {
    let (mut side, op) = (side, op.clone());
    match with_timeout(40, move || {
        let v = side.exec(&op, &base);
        (side, v)
    }) {
        Ok((s, v)) => (Some(s), v),
        Err(m) => (None, json!({"t":"crash","m":m})),
    }
}

/// Threads that append to a file, others that read it meanwhile.
fn race<C: Cfg>(db: &Database, rt: &tokio::runtime::Handle, id: u32, g: &mut Gen) -> Value {
    let threads = g.rng.gen_range(2..5usize);
    let mut v = 0u8;
    let mut pieces: Vec<Vec<Vec<u8>>> = Vec::new();
    for _ in 0..threads {
        let mut mine = Vec::new();
        for _ in 0..g.rng.gen_range(1..5) {
            v += 1;
            mine.push(vec![v; g.size().max(1)]);
        }
        pieces.push(mine);
    }
    let readers = g.rng.gen_range(0..3usize);
    let barrier = Arc::new(Barrier::new(threads + readers));
    let mut hs = Vec::new();
    for p in &pieces {
        let (db, p, b, rt, a) = (db.clone(), p.clone(), barrier.clone(), rt.clone(), g.rng.gen_bool(0.5));
        hs.push(std::thread::spawn(move || {
            b.wait();
            with_timeout(40, move || {
                if a { rt.block_on(crate::afexec::appends::<C>(db.into_async_with_runtime(rt.clone()), id, p)) } else { crate::fexec::appends::<C>(db, id, p) }
            })
        }));
    }
    let mut rs = Vec::new();
    for _ in 0..readers {
        let (db, b, rt, a) = (db.clone(), barrier.clone(), rt.clone(), g.rng.gen_bool(0.5));
        rs.push(std::thread::spawn(move || {
            b.wait();
            with_timeout(40, move || {
                if a { rt.block_on(crate::afexec::reads::<C>(db.into_async_with_runtime(rt.clone()), id, 4)) } else { crate::fexec::reads::<C>(db, id, 4) }
            })
        }));
    }
    let mut errs = Vec::new();
    for h in hs {
        match h.join().unwrap() {
            Ok(None) => {}
            Ok(Some(e)) => errs.push(e),
            Err(m) => errs.push(json!({"t":"crash","m":m})),
        }
    }
    let mut reads = Vec::new();
    for h in rs {
        match h.join().unwrap() {
            Ok(l) => reads.push(json!(l)),
            Err(m) => errs.push(json!({"t":"crash","m":m})),
        }
    }
    json!({"e":"race","id":id,"threads":pieces,"reads":reads,"errs":errs})
}

/// Threads that append to a file and threads that delete it.
fn delete_race<C: Cfg>(db: &Database, rt: &tokio::runtime::Handle, id: u32, g: &mut Gen) -> Value {
    let appenders = g.rng.gen_range(1..4usize);
    let deleters = g.rng.gen_range(1..3usize);
    let barrier = Arc::new(Barrier::new(appenders + deleters));
    let mut hs = Vec::new();
    for i in 0..appenders + deleters {
        let pieces: Vec<Vec<u8>> = if i < appenders { (0..g.rng.gen_range(1..6)).map(|_| vec![1; g.size().max(1)]).collect() } else { vec![] };
        let (db, b, rt, a) = (db.clone(), barrier.clone(), rt.clone(), g.rng.gen_bool(0.5));
        hs.push(std::thread::spawn(move || {
            with_timeout(40, move || {
                if a {
                    rt.block_on(crate::afexec::gone::<C>(db.into_async_with_runtime(rt.clone()), id, pieces, b))
                } else {
                    crate::fexec::gone::<C>(db, id, pieces, b)
                }
            })
        }));
    }
    let mut res: Vec<Value> = Vec::new();
    for h in hs {
        res.push(h.join().unwrap().unwrap_or_else(|m| json!({"t":"crash","m":m})));
    }
    let dels = res.split_off(appenders);
    json!({"e":"drace","id":id,"appends":res,"dels":dels})
}

fn create_race<C: Cfg>(db: &Database, rt: &tokio::runtime::Handle, g: &mut Gen, base: FBase) -> Value {
    let path = g.path();
    let threads = g.rng.gen_range(2..5usize);
    let barrier = Arc::new(Barrier::new(threads));
    let mut hs = Vec::new();
    let mut tries = Vec::new();
    for _ in 0..threads {
        let data = g.data();
        let how = g.rng.gen_range(0..3u64);
        let data = if how == 0 { data } else { vec![] };
        tries.push((how, data.clone()));
        let (db, b, rt, a, p) = (db.clone(), barrier.clone(), rt.clone(), g.rng.gen_bool(0.5), path.clone());
        hs.push(std::thread::spawn(move || {
            b.wait();
            with_timeout(40, move || {
                if a {
                    rt.block_on(crate::afexec::create_one::<C>(db.into_async_with_runtime(rt.clone()), p, data, how, base))
                } else {
                    crate::fexec::create_one::<C>(db, p, data, how, base)
                }
            })
        }));
    }
    let mut res = Vec::new();
    for (h, (how, data)) in hs.into_iter().zip(tries) {
        let r = h.join().unwrap().unwrap_or_else(|m| json!({"t":"crash","m":m}));
        res.push(json!({"how":how,"data":data,"res":r}));
    }
    json!({"e":"crace","p":chars(&path),"tries":res})
}

fn scenario<C: Cfg>(sc: u64, seed: u64, kind: u64, asynch: bool, nops: u64, out: &mut Out, rt: &tokio::runtime::Handle) -> Result<bool> {
    let mut rng = StdRng::seed_from_u64(seed * 6_000_101 + sc);
    let dir = Scratch::new("files");
    perturb::configure(&mut rng, &["tx.locked", "tx.commit", "tx.committed", "mapper.txid", "mapper.invalidated", "mapper.committed"]);
    let (mut storage, mut db) = open::<C>(kind, &dir.0)?;
    let base = FBase::new();
    let mut g = Gen { rng, known: vec![], handles: 0, readers: 0, ids: 0, block: C::BLOCK_SIZE, next: 0 };
    let big = i64::try_from(C::BLOCK_SIZE).unwrap();
    out.line(&json!({"e":"reset","sc":sc,"seed":seed,"kind":kind,"block":big,"asynch":i64::from(asynch)}));
    let side = |db: &Database| Side::<C>::new(db, asynch.then(|| rt.clone()));
    let mut env = side(&db);
    let mut line = |op: &Value, res: Value, t0: i64, t1: i64| {
        let mut v = op.clone();
        v["res"] = res;
        v["t0"] = json!(t0);
        v["t1"] = json!(t1);
        out.line(&v);
    };
    let mut queue: Vec<Value> = Vec::new();
    for i in 0..nops {
        let op = match queue.pop() {
            Some(op) => op,
            None => match g.rng.gen_range(0..60) {
                0 if kind != 4 && i > 5 => json!({"e":"reopen"}),
                1 if g.ids > 0 => json!({"e":"race"}),
                2 => json!({"e":"crace"}),
                3 if g.ids > 0 && i > 20 => json!({"e":"drace"}),
                3..=5 => json!({"e":"dump"}),
                _ => g.op(),
            },
        };
        let t0 = base.now();
        match op["e"].as_str().unwrap() {
            "reopen" => {
                drop(env);
                drop(db);
                drop(storage);
                (storage, db) = open::<C>(kind, &dir.0)?;
                env = side(&db);
                g.handles = 0;
                g.readers = 0;
                line(&op, json!({"t":"ok"}), t0, base.now() + 1);
                queue.push(json!({"e":"dump"}));
            }
            "race" => {
                let id = g.rng.gen_range(0..g.ids + 1);
                let v = race::<C>(&db, rt, id, &mut g);
                let (s, after) = guarded(env, &json!({"e":"dump"}), base);
                line(&v, after, t0, base.now() + 1);
                match s { Some(s) => env = s, None => return Ok(true) }
            }
            "drace" => {
                let id = g.rng.gen_range(0..g.ids + 1);
                let v = delete_race::<C>(&db, rt, id, &mut g);
                let (s, after) = guarded(env, &json!({"e":"dump"}), base);
                line(&v, after, t0, base.now() + 1);
                match s { Some(s) => env = s, None => return Ok(true) }
            }
            "crace" => {
                let v = create_race::<C>(&db, rt, &mut g, base);
                let (s, after) = guarded(env, &json!({"e":"dump"}), base);
                line(&v, after, t0, base.now() + 1);
                match s { Some(s) => env = s, None => return Ok(true) }
            }
            _ => {
                let (s, res) = guarded(env, &op, base);
                if res["h"].as_u64().unwrap_or(0) > 0 {
                    g.handles += 1;
                    g.ids = g.ids.max(res["f"]["id"].as_u64().unwrap_or(0) as u32);
                }
                if res["r"].as_u64().unwrap_or(0) > 0 {
                    g.readers += 1;
                }
                if op["e"] == "readx" && res["t"] == "err" {
                    // where that leaves the reader isn't specified
                    queue.push(json!({"e":"seek","r":op["r"],"w":"s","o":g.size()}));
                }
                line(&op, res, t0, base.now() + 1);
                match s { Some(s) => env = s, None => return Ok(true) }
            }
        }
    }
    for op in ["dump", "wipe", "dump"] {
        let op = json!({"e": op});
        let (s, res) = guarded(env, &op, base);
        line(&op, res, 0, base.now() + 1);
        match s { Some(s) => env = s, None => return Ok(true) }
    }
    drop(env);
    drop(db);
    drop(storage);
    Ok(false)
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let nops = args.n("ops", 60);
    let kinds: Vec<u64> = args.s("kinds", "4,0,1,4,2,3").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build()?;
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let x = seed + sc;
        let kind = kinds[(sc as usize) % kinds.len()];
        let asynch = x % 2 == 1;
        let h = rt.handle();
        let dead = match (x / 2) % 5 {
            0 => scenario::<B8>(sc, seed, kind, asynch, nops, &mut out, h)?,
            1 => scenario::<B1>(sc, seed, kind, asynch, nops, &mut out, h)?,
            2 => scenario::<B33>(sc, seed, kind, asynch, nops, &mut out, h)?,
            3 => scenario::<B4>(sc, seed, kind, asynch, nops, &mut out, h)?,
            _ => scenario::<B2M>(sc, seed, kind, asynch, nops, &mut out, h)?,
        };
        if dead {
            out.flush();
            std::process::exit(0);
        }
    }
    perturb::off();
    out.flush();
    std::process::exit(0);
}
