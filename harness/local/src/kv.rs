//! Key-value programs: sequential and concurrent, with expirations, snapshots of what is on disk
//! and reopening.
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use anyhow::Result;
use bonsaidb_core::connection::Connection as _;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::kvops::*;
use crate::perturb;
use crate::schema::*;
use crate::util::*;

fn persistence(rules: &Option<Vec<(usize, u64)>>) -> KeyValuePersistence {
    match rules {
        None => KeyValuePersistence::immediate(),
        Some(r) => KeyValuePersistence::lazy(
            r.iter()
                .map(|(n, ms)| PersistenceThreshold::after_changes(*n).and_duration(Duration::from_millis(*ms))),
        ),
    }
}

fn open(kind: u64, path: &Path, rules: &Option<Vec<(usize, u64)>>) -> Result<(Storage, Database)> {
    let storage = Storage::open(config(kind, path).key_value_persistence(persistence(rules)).with_schema::<Main>()?)?;
    let db = storage.create_database::<Main>("main", true)?;
    Ok((storage, db))
}

fn guarded(db: &Database, base: Base, op: &KvOp, asynch: Option<tokio::runtime::Handle>) -> Value {
    let (db, op) = (db.clone(), op.clone());
    match with_timeout(60, move || match asynch {
        None => crate::kvexec::kv(&db, &base, &op),
        Some(h) => {
            let db = db.into_async_with_runtime(h.clone());
            h.block_on(crate::akvexec::kv(&db, &base, &op))
        }
    }) {
        Ok(v) => v,
        Err(m) => json!({"t":"crash","m":m}),
    }
}

fn line(op: &KvOp, res: &Value, t0: i64, t1: i64, th: usize) -> Value {
    let mut v = serde_json::to_value(op).unwrap();
    v["e"] = json!("call");
    v["t0"] = json!(t0);
    v["t1"] = json!(t1);
    v["th"] = json!(th);
    v["res"] = res.clone();
    v
}

fn copy_dir(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}

fn all_values(db: &Database, base: Base, keys: i64) -> Vec<Value> {
    (0..keys)
        .map(|k| guarded(db, base, &KvOp::Get { k, del: 0, via: 0 }, None)["v"].clone())
        .collect()
}

/// The changes of keys that the transactions after `last` list.
fn changes(db: &Database, last: &mut u64) -> Result<Vec<Value>> {
    let mut r = Vec::new();
    loop {
        let txs = db.list_executed_transactions(Some(*last + 1), Some(if *last % 2 == 0 { 1000 } else { 7 }))?;
        if txs.is_empty() {
            return Ok(r);
        }
        for t in txs {
            let ks: Vec<Value> = t
                .changes
                .keys()
                .unwrap_or_default()
                .iter()
                .map(|c| json!([pair_of(c.namespace.as_deref(), &c.key), u8::from(c.deleted)]))
                .collect();
            r.push(json!({"n": ks.len(), "after": u8::from(t.id > *last), "ks": ks}));
            *last = t.id;
        }
    }
}

/// What another process would find if this one stopped now.
fn snapshot(kind: u64, dir: &Path, base: Base, keys: i64, rules: &Option<Vec<(usize, u64)>>) -> Result<Option<(Vec<Value>, i64, i64)>> {
    let quiet = || {
        let h = perturb::HITS.lock().unwrap();
        let h = h.as_ref().unwrap();
        (h.get("kv.persist").copied().unwrap_or(0), h.get("kv.persisted").copied().unwrap_or(0))
    };
    for _ in 0..200 {
        let a = quiet();
        if a.0 == a.1 {
            let copy = Scratch::new("kvcopy");
            if copy_dir(dir, &copy.0).is_ok() && quiet() == a {
                let t0 = base.us();
                let (s, db) = open(kind, &copy.0, rules)?;
                let v = all_values(&db, base, keys);
                drop(db);
                drop(s);
                return Ok(Some((v, t0, base.us() + 1)));
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    Ok(None)
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let rounds = args.n("rounds", 6);
    let nops = args.n("ops", 25);
    let mode = args.s("mode", "all");
    let snaps = args.n("snaps", 1);
    let expiry = args.n("expiry", 0) as f64 / 100.0;
    let kinds: Vec<u64> = args.s("kinds", "0,4,1,2,3").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()?;
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 5_000_011 + sc);
        let kind = kinds[(sc as usize) % kinds.len()];
        let rules: Option<Vec<(usize, u64)>> = match rng.gen_range(0..9) {
            0 | 1 => None,
            2 => Some(vec![(1, 0)]),
            3 => Some(vec![(3, 0), (1, 300)]),
            4 => Some(vec![(5, 0)]),
            5 => Some(vec![(1, 150)]),
            6 => Some(vec![(2, 200), (4, 60_000)]),
            7 => Some(vec![(1, 400), (6, 0), (3, 100_000)]),
            _ => Some(vec![]),
        };
        let conc = match mode.as_str() {
            "seq" => false,
            "conc" => true,
            _ => sc % 2 == 1,
        };
        let mut gen = KvGen {
            keys: if conc { rng.gen_range(1..5) } else { npairs() },
            expiry: if expiry > 0.0 { expiry } else { *[0.0, 0.3, 0.6].choose(&mut rng).unwrap() },
            numeric: *[0.1, 0.5, 0.9].choose(&mut rng).unwrap(),
            next: 0,
        };
        let keys = gen.keys;
        let base = Base::now();
        let rj: Vec<Value> = match &rules {
            None => vec![json!([1, 0])],
            Some(r) => r.iter().map(|(n, ms)| json!([n, ms])).collect(),
        };
        out.line(&json!({"e":"reset","sc":sc,"seed":seed,"kind":kind,"rules":rj,"conc":i64::from(conc),"keys":keys}));
        let dir = Scratch::new("kv");
        *perturb::HITS.lock().unwrap() = Some(Default::default());
        perturb::configure(&mut rng, &["kv.persist", "kv.persisted", "kv.loader"]);
        let (mut storage, mut db) = open(kind, &dir.0, &rules)?;
        let mut logged = 0;
        let mut dead = false;
        for _ in 0..rounds {
            let threads = if conc { rng.gen_range(2..5usize) } else { 1 };
            let gen2 = Arc::new(Mutex::new(KvGen { keys: gen.keys, expiry: gen.expiry, numeric: gen.numeric, next: gen.next }));
            let seq = Arc::new(AtomicU64::new(0));
            let naps = rng.gen_bool(0.6);
            let n = if conc { (nops as usize / threads / 2).max(2) } else { nops as usize };
            let mut hs = Vec::new();
            for th in 0..threads {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let is_async = r.gen_bool(0.3).then(|| rt.handle().clone());
                let (db, gen2, seq) = (db.clone(), gen2.clone(), seq.clone());
                hs.push(std::thread::spawn(move || {
                    let mut evs = Vec::new();
                    let mut stuck = false;
                    for _ in 0..n {
                        let op = gen2.lock().unwrap().op(&mut r, &base);
                        let s0 = seq.fetch_add(1, Ordering::SeqCst);
                        let t0 = base.us();
                        let res = guarded(&db, base, &op, is_async.clone());
                        let t1 = base.us() + 1;
                        let s1 = seq.fetch_add(1, Ordering::SeqCst);
                        perturb::DONE.fetch_add(1, Ordering::SeqCst);
                        stuck = res["t"] == "crash";
                        evs.push((s0, line(&op, &res, t0, t1, th + 1)));
                        evs.push((s1, json!({"e":"ret","th":th + 1})));
                        if stuck {
                            break;
                        }
                        if naps && r.gen_bool(0.15) {
                            std::thread::sleep(Duration::from_millis(r.gen_range(1..25)));
                        }
                    }
                    (evs, stuck)
                }));
            }
            let mut all = Vec::new();
            for h in hs {
                let (e, s) = h.join().unwrap();
                all.extend(e);
                dead |= s;
            }
            gen.next = gen2.lock().unwrap().next;
            all.sort_by_key(|e: &(u64, Value)| e.0);
            for (_, v) in &all {
                out.line(v);
            }
            if dead {
                break;
            }
            if kind == 4 {
                continue;
            }
            match if conc || snaps == 0 { 2 } else { rng.gen_range(0..3) } {
                // what is on disk; given time when the rules may ask for it
                0 | 1 => {
                    // (nothing touches the store while we wait)
                    let now = all_values(&db, base, keys);
                    let idle = std::time::Instant::now();
                    let patient = !rj.is_empty() && rng.gen_bool(0.6);
                    loop {
                        // how long the store had been left alone before the snapshot was taken
                        let waited = idle.elapsed().as_millis() as i64;
                        let Some((v, t0, t1)) = snapshot(kind, &dir.0, base, keys, &rules)? else { break };
                        if !patient || v == now || waited > 5500 {
                            out.line(&json!({"e":"snap","r":v,"t0":t0,"t1":t1,"waited":waited}));
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(60));
                    }
                }
                _ => {
                    drop(db);
                    drop(storage);
                    (storage, db) = open(kind, &dir.0, &rules)?;
                    out.line(&json!({"e":"reopen","log":changes(&db, &mut logged)?}));
                }
            }
        }
        perturb::off();
        if dead {
            out.flush();
            std::process::exit(0);
        }
        drop(db);
        drop(storage);
    }
    out.flush();
    Ok(())
}
