//! Programs stopped at every file-system operation: the folder as it was then is opened again
//! and everything in it is read, written to and read again.
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Arc;

use anyhow::Result;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

use crate::fsrec::{self, FsOp, Image};
use crate::gen::*;
use crate::ops::*;
use crate::schema::*;
use crate::store::{change_ev, close, guarded_exec, open, set_ev, EvDef, EV0};
use crate::util::*;

/// What the main program did, and after how many file-system operations.
struct Event {
    at: usize,
    line: Value,
    ev: EvDef,
    /// the generator's knowledge, for what is tried after a stop here
    known: std::collections::BTreeMap<(String, i64), Rev>,
}

fn ev_json(ev: EvDef) -> Value {
    json!({"p":ev.0,"m":ev.1,"pol":ev.2,"ver":ev.3})
}
pub fn call_line(op: &Op, res: &Value) -> Value {
    let mut v = serde_json::to_value(op).unwrap();
    v["e"] = json!("call");
    v["res"] = res.clone();
    v
}

pub fn reads(rng: &mut StdRng, ev_present: bool, every: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for c in ["a", "b", "n", "e", "x"] {
        if every || rng.gen_bool(0.5) {
            v.push(Op::List { c: c.into(), kind: "docs".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 });
        }
        for w in views_of(c) {
            if (c == "e" && !ev_present) || !(every || rng.gen_bool(0.4)) {
                continue;
            }
            v.push(Op::Query { c: c.into(), v: (*w).into(), sel: Sel::All, desc: 0, lim: -1, pol: "before".into(), docs: 0, via: 0 });
            if rng.gen_bool(0.2) {
                v.push(Op::Reduce { c: c.into(), v: (*w).into(), sel: Sel::All, pol: "before".into() });
            }
        }
    }
    v.push(Op::TxLog { start: -1, lim: 1000 });
    v.push(Op::LastTx {});
    v.shuffle(rng);
    v
}

enum Outcome {
    Fine,
    Dead,
}

/// Opens the image and works with it.  Writes the branch's lines.
#[allow(clippy::too_many_arguments)]
fn branch(
    rng: &mut StdRng, out: &mut Out, kind: u64, root: &Path, image: &Image, ev: EvDef, gen: &mut Gen, pool: &Arc<Pool>, nested: bool,
) -> Result<Outcome> {
    let dir = Scratch::new("crash");
    image.materialize(root, &dir.0)?;
    set_ev(ev);
    out.line(&json!({"e":"crash","ev":ev_json(ev)}));
    if nested {
        fsrec::start(&dir.0);
    }
    let path = dir.0.clone();
    let (storage, db) = match with_timeout(60, move || open(kind, &path)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            fsrec::stop();
            out.line(&json!({"e":"fail","what":format!("open: {e:?}")}));
            return Ok(Outcome::Fine);
        }
        Err(e) => {
            fsrec::stop();
            out.line(&json!({"e":"fail","what":format!("open: {e}")}));
            return Ok(Outcome::Dead);
        }
    };
    gen.ev_present = ev.0 == 1;
    // (at, line) of what happens now
    let mut log: Vec<(usize, Value)> = Vec::new();
    let mut todo = reads(rng, ev.0 == 1, !nested);
    for _ in 0..2 {
        todo.push(gen.tx(rng));
    }
    todo.extend(reads(rng, ev.0 == 1, false));
    let mut dead = false;
    for op in todo {
        let at = fsrec::position();
        let res = guarded_exec(&db, pool, &op, None);
        gen.learn(&op, &res);
        log.push((at, call_line(&op, &res)));
        log.push((fsrec::position(), json!({"e":"ret"})));
        if res["t"] == "crash" {
            dead = true;
            break;
        }
    }
    if !dead {
        close(storage, db);
    }
    if !nested || dead {
        fsrec::stop();
        for (_, l) in log {
            out.line(&l);
        }
        return Ok(if dead { Outcome::Dead } else { Outcome::Fine });
    }
    // it stops again
    let ops = fsrec::stop();
    if ops.is_empty() {
        for (_, l) in log {
            out.line(&l);
        }
        return Ok(Outcome::Fine);
    }
    let k = rng.gen_range(0..=ops.len());
    for (at, l) in &log {
        if *at <= k {
            out.line(l);
        }
    }
    let mut again = image.clone();
    for op in &ops[..k] {
        again.apply(&rebase(op, &dir.0, root));
    }
    branch(rng, out, kind, root, &again, ev, gen, pool, false)
}

fn rebase(op: &FsOp, from: &Path, to: &Path) -> FsOp {
    let f = |p: &PathBuf| to.join(p.strip_prefix(from).unwrap());
    match op {
        FsOp::Mkdir(p) => FsOp::Mkdir(f(p)),
        FsOp::Open(p, t) => FsOp::Open(f(p), *t),
        FsOp::Write(p, o, d) => FsOp::Write(f(p), *o, d.clone()),
        FsOp::Trunc(p, n) => FsOp::Trunc(f(p), *n),
        FsOp::Rename(a, b) => FsOp::Rename(f(a), f(b)),
        FsOp::Unlink(p) => FsOp::Unlink(f(p)),
        FsOp::Rmdir(p) => FsOp::Rmdir(f(p)),
        FsOp::Sync(p) => FsOp::Sync(f(p)),
    }
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let nops = args.n("ops", 20);
    let points = args.n("points", 60) as usize;
    let mixname = args.s("mix", "crash");
    let kinds: Vec<u64> = args.s("kinds", "0,1,2,3,5").split(',').map(|x| x.parse().unwrap()).collect();
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let point = args.m.get("point").map(|x| x.parse::<usize>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 7_000_003 + sc);
        let kind = kinds[(seed + sc) as usize % kinds.len()];
        let pool = Arc::new(make_pool(&mut rng, 24, sc % 4 == 3));
        let mut gen = Gen::new(mix(&mixname), &pool);
        out.line(&json!({"e":"reset","ct":pool.table(),"pre":prefixes(),"kind":kind,"sc":sc,"seed":seed}));
        let dir = Scratch::new("crashmain");
        X_ENCRYPTED.store(i64::from(rng.gen_bool(0.5)), Ordering::SeqCst);
        let mut ev = EV0;
        set_ev(ev);
        let mut events: Vec<Event> = Vec::new();
        fsrec::start(&dir.0);
        let (mut storage, mut db) = open(kind, &dir.0)?;
        let mut evs_tried = vec![(0usize, EV0)];
        for _ in 0..nops {
            if rng.gen_bool(0.07) {
                close(storage, db);
                if rng.gen_bool(0.6) {
                    ev = change_ev(&mut rng, &gen, &pool, ev);
                }
                set_ev(ev);
                gen.ev_present = ev.0 == 1;
                let at = fsrec::position();
                evs_tried.push((at, ev));
                (storage, db) = open(kind, &dir.0)?;
                events.push(Event { at, line: json!({"e":"reopen","ev":ev_json(ev)}), ev, known: gen.known.clone() });
                continue;
            }
            let op = gen.next(&mut rng);
            let mut todo = vec![op];
            if let Op::DelView { c, .. } = &todo[0] {
                let c = c.clone();
                todo.push(Op::List { c, kind: "headers".into(), rg: Rg::full(), desc: 0, lim: -1, via: 0 });
            }
            for op in todo {
                let at = fsrec::position();
                let res = guarded_exec(&db, &pool, &op, None);
                events.push(Event { at, line: call_line(&op, &res), ev, known: gen.known.clone() });
                gen.learn(&op, &res);
                if res["t"] == "crash" {
                    fsrec::stop();
                    for e in events {
                        out.line(&e.line);
                    }
                    out.flush();
                    std::process::exit(0);
                }
                events.push(Event { at: fsrec::position(), line: json!({"e":"ret"}), ev, known: gen.known.clone() });
            }
        }
        close(storage, db);
        let ops = fsrec::settled(&dir.0)?;
        // where it stops
        let mut ks: Vec<usize> = (0..=ops.len()).collect();
        if let Some(p) = point {
            ks = vec![p];
        } else if ks.len() > points {
            ks = ks.choose_multiple(&mut rng, points).copied().collect();
            ks.sort_unstable();
        }
        let mut image = Image::default();
        let mut done = 0;
        let mut next_event = 0;
        let mut known = Default::default();
        for k in ks {
            while done < k {
                image.apply(&ops[done]);
                done += 1;
            }
            while next_event < events.len() && events[next_event].at <= k {
                let e = &events[next_event];
                out.line(&e.line);
                known = e.known.clone();
                next_event += 1;
            }
            let _ = events.get(next_event).map(|e| e.ev);
            // the definition of the versioned view that was being worked with, or another one
            let cur = evs_tried.iter().rev().find(|e| e.0 <= k).map_or(EV0, |e| e.1);
            let mut g = Gen::new(mix(&mixname), &pool);
            g.known = known.clone();
            g.ev_present = cur.0 == 1;
            let ev = if rng.gen_bool(0.15) { change_ev(&mut rng, &g, &pool, cur) } else { cur };
            // whether the documents fit a view becoming unique depends on the operation being performed
            let ev = if ev.2 == 2 { cur } else { ev };
            // an operation cut short: some pages of a write are there, the others are not
            let mut img = image.clone();
            if let (Some(FsOp::Write(p, off, d)), true) = (ops.get(k), rng.gen_bool(0.3)) {
                let pages: Vec<u64> = (off / 4096 + 1..(off + d.len() as u64 + 4095) / 4096).collect();
                if let Some(pg) = pages.choose(&mut rng) {
                    img.write(p, *off, &d[..(pg * 4096 - off) as usize]);
                }
            }
            let nested = rng.gen_bool(0.2);
            out.line(&json!({"e":"at","k":k,"of":ops.len(),"next":ops.get(k).map(|o| format!("{o:?}").chars().take(120).collect::<String>()).unwrap_or_default()}));
            let r = branch(&mut rng, &mut out, kind, &dir.0, &img, ev, &mut g, &pool, nested)?;
            if let Outcome::Dead = r {
                out.flush();
                std::process::exit(0);
            }
            out.line(&json!({"e":"back"}));
        }
        while next_event < events.len() {
            out.line(&events[next_event].line);
            next_event += 1;
        }
    }
    out.flush();
    Ok(())
}
