//! Sequential programs against one database.
use std::sync::atomic::Ordering;
use std::sync::Arc;

use anyhow::Result;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::connection::Connection;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::gen::*;
use crate::ops::*;
use crate::schema::*;
use crate::util::*;

pub fn set_ev((p, m, pol, version): EvDef) {
    EV_PRESENT.store(p, Ordering::SeqCst);
    EV_MODE.store(m, Ordering::SeqCst);
    EV_POLICY.store(pol, Ordering::SeqCst);
    EV_VERSION.store(version, Ordering::SeqCst);
}

pub fn open(kind: u64, path: &std::path::Path) -> Result<(Storage, Database)> {
    let storage = Storage::open(config(kind, path).with_schema::<Main>()?)?;
    let db = storage.create_database::<Main>("main", true)?;
    Ok((storage, db))
}

/// Waits until no thread holds on to the storage any more.
pub fn close(storage: Storage, db: Database) {
    drop(db);
    drop(storage);
}

pub fn guarded_exec(db: &Database, pool: &Arc<Pool>, op: &Op, asynch: Option<&tokio::runtime::Runtime>) -> Value {
    let (db, pool2, op2) = (db.clone(), pool.clone(), op.clone());
    let handle = asynch.map(|rt| rt.handle().clone());
    match with_timeout(60, move || match handle {
        None => crate::exec::exec(&db, &pool2, &op2),
        Some(h) => {
            let db = db.into_async_with_runtime(h.clone());
            h.block_on(crate::aexec::exec(&db, &pool2, &op2))
        }
    }) {
        Ok(v) => v,
        Err(m) => json!({"t":"crash","m":m}),
    }
}

pub fn op_line(op: &Op, res: &Value) -> Value {
    let mut v = serde_json::to_value(op).unwrap();
    v["e"] = json!("op");
    v["res"] = res.clone();
    v
}

/// (present, mode, policy, version) of the view `ev`.  The version determines the mode: it is
/// congruent to it modulo 4.
pub type EvDef = (i64, i64, i64, u64);
pub const EV0: EvDef = (1, 0, 0, 4);

/// Another definition: the version goes up or down when the mode changes, and sometimes
/// when it does not.
pub fn change_ev(rng: &mut StdRng, gen: &Gen, pool: &Pool, ev: EvDef) -> EvDef {
    let (mut p, mut m, mut pol, mut ver) = ev;
    if p == 1 && std::env::var("BV_NOABSENT").is_err() && rng.gen_bool(0.15) {
        p = 0;
    } else {
        p = 1;
        if rng.gen_bool(0.6) {
            m = rng.gen_range(0..4);
            ver = m as u64 + 4 * rng.gen_range(0..3u64);
        }
        if rng.gen_bool(0.4) {
            pol = rng.gen_range(0..3);
        }
    }
    if p == 1 && pol == 2 && !gen.ev_unique(m, pool) {
        pol = i64::from(rng.gen_bool(0.5));
    }
    (p, m, pol, ver)
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let nops = args.n("ops", 150);
    let mixname = args.s("mix", "all");
    let kinds: Vec<u64> = args.s("kinds", "0,1,2,3,4,5").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()?;
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 1_000_003 + sc);
        let kind = kinds[(sc as usize) % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 24, sc % 4 == 1));
        let mut gen = Gen::new(mix(&mixname), &pool);
        if sc % 5 == 3 {
            gen.ids = 40;
        }
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("store");
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        let mut ev = EV0;
        set_ev(ev);
        let (mut storage, mut db) = open(kind, &dir.0)?;
        let reopen_p = if kind == 4 {
            0.0
        } else if mixname == "ver" {
            0.08
        } else {
            0.02
        };
        let mut step = 0;
        // top of the id space, in some scenarios
        if mixname == "push" && sc % 3 == 1 {
            for c in ["a", "e"] {
                let op = Op::Tx { via: 0, ops: vec![TxOp::Ins { c: c.into(), id: TOP - i64::from(rng.gen_range(0..3)), push: 0, ct: 1 + rng.gen_range(0..24) }] };
                let res = guarded_exec(&db, &pool, &op, None);
                gen.learn(&op, &res);
                out.line(&op_line(&op, &res));
            }
        }
        while step < nops {
            step += 1;
            if rng.gen_bool(reopen_p) {
                close(storage, db);
                if mixname == "ver" || rng.gen_bool(0.3) {
                    ev = change_ev(&mut rng, &gen, &pool, ev);
                }
                gen.ev_present = ev.0 == 1;
                set_ev(ev);
                (storage, db) = match open(kind, &dir.0) {
                    Ok(x) => x,
                    Err(e) => {
                        out.line(&json!({"e":"fail","what":format!("reopen: {e:?}")}));
                        out.flush();
                        return Ok(());
                    }
                };
                out.line(&json!({"e":"reopen","ev":{"p":ev.0,"m":ev.1,"pol":ev.2,"ver":ev.3}}));
                continue;
            }
            let op = gen.next(&mut rng);
            let is_async = rng.gen_bool(0.3);
            let mut todo = vec![op];
            if let Op::DelView { c, .. } = &todo[0] {
                let c = c.clone();
                todo.push(Op::List { c, kind: "headers".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 });
            }
            if let Op::TxLog { start, .. } = &todo[0] {
                if *start >= 0 {
                    todo.insert(0, Op::TxLog { start: -1, lim: 1000 });
                }
            }
            for op in todo {
                let res = guarded_exec(&db, &pool, &op, is_async.then_some(&rt));
                gen.learn(&op, &res);
                let crashed = res["t"] == "crash";
                out.line(&op_line(&op, &res));
                if crashed {
                    out.flush();
                    eprintln!("crash: {res}");
                    std::process::exit(0);
                }
            }
        }
        let _ = db.storage();
        close(storage, db);
    }
    out.flush();
    Ok(())
}

/// Executes programs generated from the specification (StoreGen).
pub fn replay(args: &Args) -> Result<()> {
    let text = std::fs::read_to_string(args.s("in", ""))?;
    let kinds: Vec<u64> = args.s("kinds", "0,4,1,3").split(',').map(|x| x.parse().unwrap()).collect();
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build()?;
    for (sc, line) in text.lines().enumerate() {
        let v: Value = serde_json::from_str(line)?;
        let s = strings();
        let contents = v["ct"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let n = c["n"].as_i64().unwrap();
                Content {
                    c: i as u32,
                    k: c["k"].as_i64().unwrap() as i32,
                    v: c["v"].as_i64().unwrap(),
                    tags: c["tags"].as_array().unwrap().iter().map(|t| s.0[t.as_i64().unwrap() as usize].clone()).collect(),
                    name: if n < 0 { String::new() } else { s.0[n as usize].clone() },
                    pad: vec![7; (sc * 37) % 300],
                }
            })
            .collect();
        let pool = Arc::new(Pool::new(contents));
        let kind = kinds[sc % kinds.len()];
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc}));
        let dir = Scratch::new("replay");
        X_ENCRYPTED.store((sc % 2) as i64, Ordering::SeqCst);
        set_ev(EV0);
        let (storage, db) = open(kind, &dir.0)?;
        for o in v["prog"].as_array().unwrap() {
            let op: Op = serde_json::from_value(o.clone())?;
            let res = guarded_exec(&db, &pool, &op, (sc % 3 == 1).then_some(&rt));
            let crashed = res["t"] == "crash";
            out.line(&op_line(&op, &res));
            if crashed {
                out.flush();
                std::process::exit(0);
            }
        }
        close(storage, db);
    }
    out.flush();
    Ok(())
}
