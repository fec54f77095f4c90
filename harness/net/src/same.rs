//! The same program through different kinds of connections: every answer has to be the one the
//! specification gives, whichever way the operation was asked for.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use anyhow::Result;
use bonsaidb_core::connection::AsyncStorageConnection;
use bonsaidb_local::config::Builder;
use bonsaidb_server::DefaultPermissions;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::gen::*;
use crate::kvops::*;
use crate::net::*;
use crate::ops::*;
use crate::perturb;
use crate::schema::*;
use crate::util::*;

fn op_line(op: &Op, res: &Value) -> Value {
    let mut v = serde_json::to_value(op).unwrap();
    v["e"] = json!("op");
    v["res"] = res.clone();
    v
}

fn host(kind: u64, dir: &Scratch) -> Result<Host> {
    let host = Host::start(kind, &dir.0, DefaultPermissions::AllowAll, |c| Ok(c.with_schema::<Main>()?))?;
    host.rt.block_on(host.server.create_database::<Main>("main", true))?;
    Ok(host)
}

fn targets(host: &Host) -> Result<Vec<Target>> {
    (0..TARGETS).map(|i| Target::new::<Main>(host, i, "main")).collect()
}

fn set_ev0() {
    EV_PRESENT.store(1, Ordering::SeqCst);
    EV_MODE.store(0, Ordering::SeqCst);
    EV_POLICY.store(0, Ordering::SeqCst);
    EV_VERSION.store(4, Ordering::SeqCst);
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 4);
    let nops = args.n("ops", 150);
    let mixname = args.s("mix", "all");
    let kinds: Vec<u64> = args.s("kinds", "4,0,3").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 1_000_003 + sc);
        let kind = kinds[(sc as usize) % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 24, sc % 4 == 1));
        let mut gen = Gen::new(mix(&mixname), &pool);
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("same");
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        set_ev0();
        let host = host(kind, &dir)?;
        let ts = targets(&host)?;
        for _ in 0..nops {
            if rng.gen_bool(0.05) {
                // many questions at once on one connection: everybody gets the answer to their own
                let which = rng.gen_range(2..TARGETS);
                let mut ops = Vec::new();
                for _ in 0..600 {
                    if ops.len() == 60 {
                        break;
                    }
                    match gen.next(&mut rng) {
                        op @ (Op::Get { .. } | Op::GetMulti { .. } | Op::List { .. } | Op::LastTx {}) => ops.push(op),
                        _ => {}
                    }
                }
                let hs: Vec<_> = ops
                    .into_iter()
                    .map(|op| {
                        let (t, rt, pool) = (ts[which].clone(), ts[which].rt(&host).clone(), pool.clone());
                        std::thread::spawn(move || {
                            let o = op.clone();
                            (op, with_timeout(60, move || t.op(&rt, &pool, &o)).unwrap_or_else(|m| json!({"t":"crash","m":m})))
                        })
                    })
                    .collect();
                let mut answers: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                // The questions were asked at the same time, while views may still be updated in
                // the background: ids of the last transaction are put in the order of time.
                let at: Vec<usize> = (0..answers.len()).filter(|i| matches!(answers[*i].0, Op::LastTx {})).collect();
                let mut sorted: Vec<_> = at.iter().map(|i| answers[*i].clone()).collect();
                sorted.sort_by_key(|(_, res)| res["n"].as_i64());
                for (i, a) in at.into_iter().zip(sorted) {
                    answers[i] = a;
                }
                for (op, res) in answers {
                    let mut line = op_line(&op, &res);
                    line["conn"] = json!(which);
                    out.line(&line);
                }
                continue;
            }
            let op = gen.next(&mut rng);
            let mut todo = vec![op];
            if let Op::DelView { c, .. } = &todo[0] {
                let c = c.clone();
                todo.push(Op::List { c, kind: "headers".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 });
            }
            if let Op::TxLog { start, .. } = &todo[0] {
                if *start >= 0 {
                    todo.insert(0, Op::TxLog { start: -1, lim: 1000 });
                }
            }
            for op in todo {
                let which = rng.gen_range(0..ts.len());
                let res = ts[which].guarded_op(&host, &pool, &op);
                gen.learn(&op, &res);
                let mut line = op_line(&op, &res);
                line["conn"] = json!(which);
                out.line(&line);
                if res["t"] == "crash" {
                    out.flush();
                    std::process::exit(0);
                }
            }
        }
        drop(ts);
        host.stop();
    }
    out.flush();
    Ok(())
}

/// Many requests at once over few connections.
pub fn conc(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 4);
    let rounds = args.n("rounds", 4);
    let nops = args.n("ops", 5);
    let mixname = args.s("mix", "conc");
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 7_000_003 + sc);
        let pool = Arc::new(make_pool(&mut rng, 16, false));
        let mut m = mix(&mixname);
        let prim = *m.colls.choose(&mut rng).unwrap();
        m.colls = vec![prim];
        let mut gen = Gen::new(m, &pool);
        gen.ids = rng.gen_range(2..7);
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":4,"sc":sc,"seed":seed,"prim":prim,"pv":""}));
        let dir = Scratch::new("sameconc");
        set_ev0();
        perturb::off();
        let host = Arc::new(host(4, &dir)?);
        let ts = targets(&host)?;
        let gen = Arc::new(Mutex::new(gen));
        let seq = Arc::new(AtomicU64::new(0));
        perturb::configure(&mut rng, perturb::POINTS);
        let mut dead = false;
        for _ in 0..rounds {
            // one or two connections carry everything
            let conns: Vec<Target> = (0..rng.gen_range(1..3)).map(|_| ts[rng.gen_range(2..TARGETS)].clone()).collect();
            let mut hs = Vec::new();
            for th in 0..rng.gen_range(3..6usize) {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let (t, host, pool, gen, seq, prim) =
                    (conns[th % conns.len()].clone(), host.clone(), pool.clone(), gen.clone(), seq.clone(), prim.to_string());
                hs.push(std::thread::spawn(move || {
                    let mut evs: Vec<(u64, Value)> = Vec::new();
                    let mut stuck = false;
                    for _ in 0..nops {
                        let op = {
                            let g = gen.lock().unwrap();
                            let mut op = g.next(&mut r);
                            match &mut op {
                                Op::Get { c, .. } | Op::GetMulti { c, .. } | Op::List { c, .. } | Op::Query { c, .. } => {
                                    if *c != prim {
                                        op = g.tx(&mut r);
                                    }
                                }
                                Op::Tx { .. } => {}
                                _ => op = g.tx(&mut r),
                            }
                            if let Op::Query { pol, lim, docs, .. } = &mut op {
                                *pol = "before".into();
                                *lim = -1;
                                *docs = 0;
                            }
                            op
                        };
                        let t0 = seq.fetch_add(1, Ordering::SeqCst);
                        let res = t.guarded_op(&host, &pool, &op);
                        let t1 = seq.fetch_add(1, Ordering::SeqCst);
                        perturb::DONE.fetch_add(1, Ordering::SeqCst);
                        stuck = res["t"] == "crash";
                        let mut call = op_line(&op, &res);
                        call["e"] = json!("call");
                        call["th"] = json!(th + 1);
                        gen.lock().unwrap().learn(&op, &res);
                        evs.push((t0, call));
                        evs.push((t1, json!({"e":"ret","th":th + 1})));
                        if stuck {
                            break;
                        }
                    }
                    (evs, stuck)
                }));
            }
            let mut all = Vec::new();
            for h in hs {
                let (evs, stuck) = h.join().unwrap();
                all.extend(evs);
                dead |= stuck;
            }
            all.sort_by_key(|e| e.0);
            for (_, v) in &all {
                out.line(v);
            }
            if dead {
                break;
            }
            for v in views_of(prim) {
                let t = &ts[rng.gen_range(0..TARGETS)];
                let op = Op::Query { c: prim.into(), v: v.to_string(), sel: Sel::All, desc: 0, lim: -1, pol: "before".into(), docs: 0, via: 1 };
                let res = t.guarded_op(&host, &pool, &op);
                out.line(&op_line(&op, &res));
            }
            let op = Op::List { c: prim.into(), kind: "docs".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 };
            let res = ts[rng.gen_range(0..TARGETS)].guarded_op(&host, &pool, &op);
            gen.lock().unwrap().learn(&op, &res);
            out.line(&op_line(&op, &res));
            let op = Op::TxLog { start: -1, lim: 1000 };
            let res = ts[0].guarded_op(&host, &pool, &op);
            out.line(&op_line(&op, &res));
        }
        perturb::off();
        if dead {
            out.flush();
            std::process::exit(0);
        }
        drop(ts);
        if let Ok(h) = Arc::try_unwrap(host) {
            h.stop();
        }
    }
    out.flush();
    Ok(())
}

/// Key-value operations through every kind of connection.
pub fn kv(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let rounds = args.n("rounds", 5);
    let nops = args.n("ops", 30);
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        let mut rng = StdRng::seed_from_u64(seed * 5_000_011 + sc);
        let conc = sc % 2 == 1;
        let gen = KvGen {
            keys: if conc { rng.gen_range(1..5) } else { npairs() },
            expiry: *[0.0, 0.3, 0.6].choose(&mut rng).unwrap(),
            numeric: *[0.1, 0.5, 0.9].choose(&mut rng).unwrap(),
            next: 0,
        };
        let base = Base::now();
        out.line(&json!({"e":"reset","sc":sc,"seed":seed,"kind":4,"rules":[[1, 0]],"conc":i64::from(conc),"keys":gen.keys}));
        let dir = Scratch::new("samekv");
        set_ev0();
        let host = Arc::new(host(4, &dir)?);
        let ts = targets(&host)?;
        let gen = Arc::new(Mutex::new(gen));
        let mut dead = false;
        for _ in 0..rounds {
            let threads = if conc { rng.gen_range(2..5usize) } else { 1 };
            let seq = Arc::new(AtomicU64::new(0));
            let n = if conc { (nops as usize / threads / 2).max(2) } else { nops as usize };
            let mut hs = Vec::new();
            for th in 0..threads {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let (ts, host, gen, seq) = (ts.clone(), host.clone(), gen.clone(), seq.clone());
                hs.push(std::thread::spawn(move || {
                    let mut evs = Vec::new();
                    let mut stuck = false;
                    for _ in 0..n {
                        let op = gen.lock().unwrap().op(&mut r, &base);
                        let which = r.gen_range(0..TARGETS);
                        let s0 = seq.fetch_add(1, Ordering::SeqCst);
                        let t0 = base.us();
                        let (t, rt, op2) = (ts[which].clone(), ts[which].rt(&host).clone(), op.clone());
                        let res = with_timeout(60, move || t.kv(&rt, &base, &op2)).unwrap_or_else(|m| json!({"t":"crash","m":m}));
                        let t1 = base.us() + 1;
                        let s1 = seq.fetch_add(1, Ordering::SeqCst);
                        perturb::DONE.fetch_add(1, Ordering::SeqCst);
                        stuck = res["t"] == "crash";
                        let mut v = serde_json::to_value(&op).unwrap();
                        v["e"] = json!("call");
                        v["conn"] = json!(which);
                        v["t0"] = json!(t0);
                        v["t1"] = json!(t1);
                        v["th"] = json!(th + 1);
                        v["res"] = res;
                        evs.push((s0, v));
                        evs.push((s1, json!({"e":"ret","th":th + 1})));
                        if stuck {
                            break;
                        }
                        if r.gen_bool(0.1) {
                            std::thread::sleep(Duration::from_millis(r.gen_range(1..25)));
                        }
                    }
                    (evs, stuck)
                }));
            }
            let mut all = Vec::new();
            for h in hs {
                let (e, s) = h.join().unwrap();
                all.extend(e);
                dead |= s;
            }
            all.sort_by_key(|e: &(u64, Value)| e.0);
            for (_, v) in &all {
                out.line(v);
            }
            if dead {
                out.flush();
                std::process::exit(0);
            }
        }
        drop(ts);
        if let Ok(h) = Arc::try_unwrap(host) {
            h.stop();
        }
    }
    out.flush();
    Ok(())
}
