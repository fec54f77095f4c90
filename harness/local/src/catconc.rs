//! Threads that create, delete and use databases of one storage at the same time.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use anyhow::Result;
use bonsaidb_core::connection::{Connection, StorageConnection};
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{Schema, SerializedCollection, SerializedView};
use bonsaidb_core::Error as E;
use bonsaidb_local::{Database, Storage};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::cat::open;
use crate::perturb;
use crate::schema::*;
use crate::store::{set_ev, EV0};
use crate::util::*;

fn err(e: &E) -> Value {
    match e {
        E::DatabaseNotFound(_) => json!({"t":"notfound"}),
        E::DatabaseNameAlreadyTaken(_) => json!({"t":"taken"}),
        E::DocumentConflict(..) => json!({"t":"conflict"}),
        // a background job's error
        other if other.to_string().contains("a core error occurred: database 'p") => json!({"t":"notfound"}),
        other => json!({"t":"error","m":other.to_string()}),
    }
}
fn ids(mut v: Vec<u64>) -> Value {
    v.sort_unstable();
    json!({"t":"ok","r":v})
}

#[derive(Clone)]
struct Op {
    op: &'static str,
    n: &'static str,
    /// create: not if there already; other operations: through the handle kept by the thread
    flag: bool,
    id: u64,
}

fn act(storage: &Storage, held: &Option<Database>, o: &Op) -> Result<(Value, Option<Database>), E> {
    let db = || if o.flag { Ok(held.clone().unwrap()) } else { storage.database::<Main>(o.n) };
    let mut kept = None;
    let res = match o.op {
        "create" => {
            storage.create_database_with_schema(o.n, Main::schema_name(), o.flag)?;
            json!({"t":"ok"})
        }
        "delete" => {
            storage.delete_database(o.n)?;
            json!({"t":"ok"})
        }
        "list" => {
            let mut names: Vec<String> = storage.list_databases()?.into_iter().map(|d| d.name).filter(|n| n != "_admin").collect();
            names.sort();
            json!({"t":"ok","r":names})
        }
        "open" => {
            kept = Some(storage.database::<Main>(o.n)?);
            json!({"t":"ok"})
        }
        "put" => {
            let c = Content { c: 0, k: o.id as i32, v: 1, tags: vec![], name: format!("n{}", o.id), pad: vec![0; (o.id as usize * 37) % 3000] };
            A(c).insert_into(&o.id, &db()?).map_err(|e| e.error)?;
            json!({"t":"ok"})
        }
        "get" => ids(db()?.collection::<A>().all().headers()?.iter().map(|h| h.id.deserialize::<u64>().unwrap()).collect()),
        "query" => {
            let db = db()?;
            let all = match o.id % 3 {
                0 => ByK::entries(&db).query()?.iter().map(|m| m.source.id).collect(),
                1 => EByK::entries(&db).query()?.iter().map(|m| m.source.id).collect(),
                _ => UName::entries(&db).query()?.iter().map(|m| m.source.id).collect(),
            };
            ids(all)
        }
        "kvput" => {
            db()?.set_key(format!("k{}", o.id), &1_i64).execute()?;
            json!({"t":"ok"})
        }
        "kvget" => json!({"t":"ok","n":db()?.get_key(format!("k{}", o.id)).into::<i64>()?.unwrap_or(-1)}),
        "compact" => {
            db()?.compact()?;
            json!({"t":"ok"})
        }
        _ => unreachable!(),
    };
    Ok((res, kept))
}

fn guarded(storage: &Storage, held: &mut Option<Database>, o: &Op) -> Value {
    let (s, h, o2) = (storage.clone(), held.clone(), o.clone());
    match with_timeout(60, move || act(&s, &h, &o2)) {
        Ok(Ok((v, kept))) => {
            if kept.is_some() {
                *held = kept;
            }
            v
        }
        Ok(Err(e)) => err(&e),
        Err(m) => json!({"t":"crash","m":m}),
    }
}

fn line(e: &str, th: usize, o: &Op, res: &Value) -> Value {
    json!({"e":e,"th":th,"op":o.op,"n":o.n,"flag":i64::from(o.flag),"id":o.id,"res":res})
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 5);
    let rounds = args.n("rounds", 5);
    let nops = args.n("ops", 6);
    let kinds: Vec<u64> = args.s("kinds", "0,4,3").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 5_000_011 + sc);
        let kind = kinds[(seed + sc) as usize % kinds.len()];
        out.line(&json!({"e":"reset","kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("catconc");
        set_ev(EV0);
        std::fs::create_dir_all(dir.0.join("l1/l2"))?;
        perturb::off();
        let mut storage = open(kind, &dir.0)?;
        perturb::configure(&mut rng, perturb::POINTS);
        let names: &[&'static str] = if rng.gen_bool(0.5) { &["p"] } else { &["p", "p2"] };
        let seq = Arc::new(AtomicU64::new(0));
        for _ in 0..rounds {
            let mut hs = Vec::new();
            for th in 0..rng.gen_range(2..5usize) {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let (storage, seq) = (storage.clone(), seq.clone());
                let style = rng.gen_range(0..3);
                hs.push(std::thread::spawn(move || {
                    let mut evs: Vec<(u64, Value)> = Vec::new();
                    let mut held: Option<Database> = None;
                    let mut stuck = false;
                    for _ in 0..nops {
                        let n = *names.choose(&mut r).unwrap();
                        let op = *match style {
                            0 => ["create", "create", "delete", "delete", "list", "open"].choose(&mut r),
                            1 => ["create", "open", "put", "put", "kvput", "get", "kvget", "query", "put", "compact"].choose(&mut r),
                            _ => ["create", "delete", "open", "list", "put", "get", "query", "kvput", "kvget", "put"].choose(&mut r),
                        }
                        .unwrap();
                        let uses = matches!(op, "put" | "get" | "query" | "kvput" | "kvget" | "compact");
                        let flag = if uses { held.is_some() && r.gen_bool(0.7) } else { r.gen_bool(0.5) };
                        let o = Op { op, n, flag, id: r.gen_range(1..8) };
                        let t0 = seq.fetch_add(1, Ordering::SeqCst);
                        let res = guarded(&storage, &mut held, &o);
                        let t1 = seq.fetch_add(1, Ordering::SeqCst);
                        perturb::DONE.fetch_add(1, Ordering::SeqCst);
                        stuck = res["t"] == "crash";
                        evs.push((t0, line("call", th + 1, &o, &res)));
                        evs.push((t1, json!({"e":"ret","th":th + 1})));
                        if stuck {
                            break;
                        }
                    }
                    (evs, stuck)
                }));
            }
            let mut all = Vec::new();
            let mut dead = false;
            for h in hs {
                let (evs, stuck) = h.join().unwrap();
                all.extend(evs);
                dead |= stuck;
            }
            all.sort_by_key(|e| e.0);
            for (_, v) in &all {
                out.line(v);
            }
            let reopen = kind != 4 && rng.gen_bool(0.2);
            if reopen && !dead {
                drop(storage);
                storage = open(kind, &dir.0)?;
            }
            out.line(&json!({"e":"rest"}));
            // at rest: what is there, and no folders but those of the databases
            let mut todo = vec![Op { op: "list", n: "p", flag: false, id: 0 }];
            for &n in names {
                todo.push(Op { op: "get", n, flag: false, id: 0 });
                todo.extend((1..8).map(|id| Op { op: "kvget", n, flag: false, id }));
                todo.extend((0..3).map(|id| Op { op: "query", n, flag: false, id }));
            }
            for o in todo {
                if dead {
                    break;
                }
                let res = guarded(&storage, &mut None, &o);
                dead |= res["t"] == "crash";
                out.line(&line("op", 1, &o, &res));
            }
            if kind != 4 {
                out.line(&json!({"e":"fs","dirs":crate::cat::dirs(&dir.0)}));
            }
            if dead {
                out.flush();
                std::process::exit(0);
            }
        }
        perturb::off();
    }
    out.flush();
    Ok(())
}
