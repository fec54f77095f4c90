//! Concurrent programs against one database, recorded as histories of calls and returns.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use anyhow::Result;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::gen::*;
use crate::ops::*;
use crate::perturb;
use crate::schema::*;
use crate::store::*;
use crate::util::*;

fn quiescent(colls: &[&str]) -> Vec<Op> {
    let mut v = Vec::new();
    for c in colls {
        v.push(Op::List { c: c.to_string(), kind: "docs".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 });
        for view in views_of(c) {
            v.push(Op::Query { c: c.to_string(), v: view.to_string(), sel: Sel::All, desc: 0, lim: -1, pol: "before".into(), docs: 0, via: 1 });
        }
    }
    v
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let rounds = args.n("rounds", 4);
    let nops = args.n("ops", 5);
    let mixname = args.s("mix", "conc");
    let kinds: Vec<u64> = args.s("kinds", "4,0,4,1,4,3").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build()?);
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 7_000_003 + sc);
        let mut kind = kinds[(sc as usize) % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 16, false));
        let mut m = mix(&mixname);
        // one collection is read; transactions may touch several
        let prim = *m.colls.choose(&mut rng).unwrap();
        m.colls = vec![prim];
        if rng.gen_bool(0.4) {
            m.colls.push("b");
            m.colls.dedup();
        }
        let reindex = prim == "e" && rng.gen_bool(0.7);
        if reindex && kind == 4 {
            kind = 0;
        }
        let mut gen = Gen::new(m, &pool);
        gen.ids = rng.gen_range(2..7);
        // one eager view may take the place of the documents as what is read
        let pv = match prim {
            "a" if rng.gen_bool(0.3) => *["e-by-k", "u-name", "opt-k"].choose(&mut rng).unwrap(),
            "b" if rng.gen_bool(0.3) => "u-name",
            "x" if rng.gen_bool(0.3) => "e-by-k",
            _ => "",
        };
        let colls: Vec<&str> = { let mut c = gen.mix.colls.clone(); c.sort(); c.dedup(); c };
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed,"prim":prim,"pv":if pv.is_empty() { String::new() } else { format!("{prim}.{pv}") }}));
        let dir = Scratch::new("conc");
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        set_ev(EV0);
        perturb::off();
        let (mut storage, mut db) = open(kind, &dir.0)?;
        if reindex {
            for _ in 0..rng.gen_range(1..12) {
                let op = gen.tx(&mut rng);
                let res = guarded_exec(&db, &pool, &op, None);
                gen.learn(&op, &res);
                out.line(&op_line(&op, &res));
            }
            if rng.gen_bool(0.5) {
                for op in quiescent(&colls) {
                    let res = guarded_exec(&db, &pool, &op, None);
                    out.line(&op_line(&op, &res));
                }
            }
            close(storage, db);
            let m = rng.gen_range(0..4);
            let ver = m as u64 + 4 * rng.gen_range(0..3u64);
            let mut pol = [0, 0, 0, 1, 2][rng.gen_range(0..5)];
            if pol == 2 && !gen.ev_unique(m, &pool) {
                pol = 1;
            }
            set_ev((1, m, pol, ver));
            (storage, db) = open(kind, &dir.0)?;
            out.line(&json!({"e":"reopen","ev":{"p":1,"m":m,"pol":pol,"ver":ver}}));
        }
        perturb::configure(&mut rng, perturb::POINTS);
        let gen = Arc::new(Mutex::new(gen));
        let seq = Arc::new(AtomicU64::new(0));
        let mut dead = false;
        for _ in 0..rounds {
            let threads = rng.gen_range(2..5usize);
            let mut hs = Vec::new();
            for th in 0..threads {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let is_async = rng.gen_bool(0.3);
                let writer = rng.gen_range(0..3);
                let (db, pool, gen, seq, rt, prim) = (db.clone(), pool.clone(), gen.clone(), seq.clone(), rt.clone(), prim.to_string());
                hs.push(std::thread::spawn(move || {
                    let mut evs: Vec<(u64, Value)> = Vec::new();
                    let mut stuck = false;
                    for _ in 0..nops {
                        let op = {
                            let g = gen.lock().unwrap();
                            let mut op = if writer == 0 { g.tx(&mut r) } else { g.next(&mut r) };
                            match &mut op {
                                Op::Get { c, .. } | Op::GetMulti { c, .. } | Op::List { c, .. } | Op::Query { c, .. } => {
                                    if *c != prim {
                                        op = g.tx(&mut r);
                                    } else if !pv.is_empty() {
                                        op = if r.gen_bool(0.7) {
                                            Op::Query { sel: g.sel(&mut r, &prim, pv), c: prim.clone(), v: pv.into(), desc: 0, lim: -1, pol: "before".into(), docs: 0, via: 1 }
                                        } else {
                                            g.tx(&mut r)
                                        };
                                    }
                                }
                                Op::Tx { .. } | Op::Compact { .. } => {}
                                _ => op = g.tx(&mut r),
                            }
                            if let Op::Query { pol, lim, docs, .. } = &mut op {
                                *pol = "before".into();
                                *lim = -1;
                                *docs = 0;
                            }
                            op
                        };
                        let t0 = seq.fetch_add(1, Ordering::SeqCst);
                        let res = guarded_exec(&db, &pool, &op, is_async.then_some(&rt));
                        let t1 = seq.fetch_add(1, Ordering::SeqCst);
                        perturb::DONE.fetch_add(1, Ordering::SeqCst);
                        stuck = res["t"] == "crash";
                        let mut call = op_line(&op, &res);
                        call["e"] = json!("call");
                        call["th"] = json!(th + 1);
                        gen.lock().unwrap().learn(&op, &res);
                        evs.push((t0, call));
                        evs.push((t1, json!({"e":"ret","th":th + 1})));
                        if stuck {
                            break;
                        }
                    }
                    (evs, stuck)
                }));
            }
            let mut all = Vec::new();
            for h in hs {
                let (evs, stuck) = h.join().unwrap();
                all.extend(evs);
                dead |= stuck;
            }
            all.sort_by_key(|e| e.0);
            for (_, v) in &all {
                out.line(v);
            }
            if dead {
                break;
            }
            for op in quiescent(&colls) {
                let res = guarded_exec(&db, &pool, &op, None);
                gen.lock().unwrap().learn(&op, &res);
                dead |= res["t"] == "crash";
                out.line(&op_line(&op, &res));
            }
            let op = Op::TxLog { start: -1, lim: 1000 };
            let res = guarded_exec(&db, &pool, &op, None);
            out.line(&op_line(&op, &res));
        }
        perturb::off();
        if dead {
            out.flush();
            std::process::exit(0);
        }
        if kind != 4 && rng.gen_bool(0.5) {
            close(storage, db);
            (storage, db) = open(kind, &dir.0)?;
            let ev = json!({"p":1,"m":EV_MODE.load(Ordering::SeqCst),"pol":EV_POLICY.load(Ordering::SeqCst),"ver":EV_VERSION.load(Ordering::SeqCst)});
            out.line(&json!({"e":"reopen","ev":ev}));
            for op in quiescent(&colls) {
                let res = guarded_exec(&db, &pool, &op, None);
                out.line(&op_line(&op, &res));
            }
        }
        close(storage, db);
    }
    out.flush();
    Ok(())
}
