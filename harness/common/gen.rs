//! Seeded generation of operations.
use std::collections::BTreeMap;

use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::Value;

use crate::ops::*;
use crate::schema::*;

pub fn make_pool(rng: &mut StdRng, n: usize, big: bool) -> Pool {
    // (composite keys with null bytes sort wrongly: known finding of C27)
    let tags = ["", "a", "a\u{1}", "aa", "ab", "b", "tag", "\u{e9}"];
    let names = ["key", "key2", "z", "\u{4e2d}\u{6587}"];
    // Negative keys sort wrongly (known finding of C27), so no other check uses them.
    let ks = [0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 49_999];
    let mut v = Vec::new();
    for i in 0..n {
        let mut t: Vec<String> = tags
            .choose_multiple(rng, rng.clone().gen_range(0..4))
            .map(|s| s.to_string())
            .collect();
        t.shuffle(rng);
        let pad = if big && i % 9 == 4 {
            rng.gen_range(20_000..200_000)
        } else if i % 5 == 3 {
            rng.gen_range(500..5000)
        } else {
            rng.gen_range(0..40)
        };
        v.push(Content {
            c: i as u32,
            k: if rng.gen_bool(0.7) {
                rng.gen_range(0..6)
            } else {
                *ks.choose(rng).unwrap()
            },
            v: rng.gen_range(0..30),
            tags: t,
            name: if rng.gen_bool(0.55) {
                String::new()
            } else {
                names.choose(rng).unwrap().to_string()
            },
            pad: (0..pad).map(|_| rng.gen()).collect(),
        });
    }
    if n > 1 {
        v[0] = Content::empty();
    }
    Pool::new(v)
}

#[derive(Clone, Debug)]
pub struct Mix {
    pub w: Vec<(&'static str, u32)>,
    pub colls: Vec<&'static str>,
    pub max_tx: usize,
    /// probability of a wrong revision
    pub stale: f64,
}

pub struct Gen {
    pub mix: Mix,
    pub nct: i64,
    /// last known headers
    pub known: BTreeMap<(String, i64), Rev>,
    /// earlier headers
    pub old: Vec<(String, i64, Rev)>,
    pub seen_tx: Vec<i64>,
    pub ids: usize,
    pub ev_present: bool,
}

pub fn views_of(c: &str) -> &'static [&'static str] {
    match c {
        "a" => &["by-k", "by-tag", "e-by-k", "u-name", "comp", "opt-k"],
        "b" => &["by-k", "u-name"],
        "e" => &["ev"],
        "x" => &["by-tag", "e-by-k"],
        _ => &[],
    }
}
pub fn string_keys(c: &str, v: &str) -> bool {
    matches!((c, v), ("a", "by-tag") | ("a", "u-name") | ("b", "u-name") | ("x", "by-tag"))
}
pub fn lazy(c: &str, v: &str) -> bool {
    matches!((c, v), ("a", "by-k") | ("a", "by-tag") | ("a", "comp") | ("b", "by-k") | ("e", "ev") | ("x", "by-tag"))
}

impl Gen {
    pub fn new(mix: Mix, pool: &Pool) -> Self {
        Self {
            mix,
            nct: pool.contents.len() as i64,
            known: BTreeMap::new(),
            old: Vec::new(),
            seen_tx: Vec::new(),
            ids: 8,
            ev_present: true,
        }
    }
    pub fn an_id(&self, rng: &mut StdRng, c: &str) -> i64 {
        // mostly ids that exist or existed
        if rng.gen_bool(0.55) {
            let have: Vec<i64> = self.known.keys().filter(|k| k.0 == c).map(|k| k.1).collect();
            if let Some(x) = have.choose(rng) {
                return *x;
            }
        }
        match c {
            "b" => {
                let n = strings().0.len();
                if rng.gen_bool(0.8) {
                    (rng.gen_range(0..self.ids) * 5 % n) as i64
                } else {
                    rng.gen_range(0..n) as i64
                }
            }
            "e" => {
                if rng.gen_bool(0.06) {
                    *[TOP - 3, TOP - 1, TOP - 2].choose(rng).unwrap()
                } else {
                    rng.gen_range(0..self.ids as i64)
                }
            }
            _ => {
                let m = self.ids as i64;
                if rng.gen_bool(0.04) {
                    *[TOP - 2, TOP - 1, 255, 256, 65_535, 65_536, 127, 128].choose(rng).unwrap()
                } else {
                    rng.gen_range(0..m)
                }
            }
        }
    }
    fn rev(&self, rng: &mut StdRng, c: &str, id: i64) -> Rev {
        let cur = self.known.get(&(c.to_string(), id)).copied();
        if rng.gen_bool(self.mix.stale) {
            match rng.gen_range(0..4) {
                0 => {
                    if let Some(o) = self.old.iter().filter(|o| o.0 == c && o.1 == id).last() {
                        return o.2;
                    }
                }
                1 => {
                    if let Some(c) = cur {
                        return Rev { r: c.r, h: 1 + (c.h % self.nct) };
                    }
                }
                2 => {
                    if let Some(c) = cur {
                        return Rev { r: c.r + 1, h: c.h };
                    }
                }
                _ => {}
            }
        }
        cur.unwrap_or(Rev { r: rng.gen_range(0..2), h: rng.gen_range(1..=self.nct) })
    }
    fn ct(&self, rng: &mut StdRng, c: &str, id: i64) -> i64 {
        if rng.gen_bool(0.08) {
            if let Some(r) = self.known.get(&(c.to_string(), id)) {
                if r.h > 0 {
                    return r.h;
                }
            }
        }
        rng.gen_range(1..=self.nct)
    }
    pub fn txop(&self, rng: &mut StdRng) -> TxOp {
        let c = (*self.mix.colls.choose(rng).unwrap()).to_string();
        let id = self.an_id(rng, &c);
        match rng.gen_range(0..20) {
            0..=4 => TxOp::Ins { ct: self.ct(rng, &c, id), c, id, push: 0 },
            5..=8 => TxOp::Ins { ct: self.ct(rng, &c, id), push: if c == "b" && rng.gen_bool(0.8) { 0 } else { 1 }, c, id },
            9..=12 => TxOp::Upd { rev: self.rev(rng, &c, id), ct: self.ct(rng, &c, id), c, id },
            13..=14 => TxOp::Ovr { ct: self.ct(rng, &c, id), c, id },
            15..=18 => TxOp::Del { rev: self.rev(rng, &c, id), c, id },
            _ => TxOp::Chk {
                rev: if rng.gen_bool(0.4) { Rev { r: -1, h: 0 } } else { self.rev(rng, &c, id) },
                c,
                id,
            },
        }
    }
    pub fn tx(&self, rng: &mut StdRng) -> Op {
        let n = if rng.gen_bool(0.5) {
            1
        } else {
            rng.gen_range(1..=self.mix.max_tx)
        };
        let mut ops: Vec<TxOp> = Vec::new();
        for _ in 0..n {
            let mut o = self.txop(rng);
            // follow up on an operation of the same transaction
            if rng.gen_bool(0.25) {
                if let Some(prev) = ops.choose(rng) {
                    if let TxOp::Ins { c, id, push: 0, ct } | TxOp::Ovr { c, id, ct } = prev.clone() {
                        let r = self.known.get(&(c.clone(), id)).map_or(0, |k| k.r + 1);
                        let rev = Rev { r, h: ct };
                        o = match rng.gen_range(0..4) {
                            0 => TxOp::Upd { c: c.clone(), id, rev, ct: self.ct(rng, &c, id) },
                            1 => TxOp::Del { c, id, rev },
                            2 => TxOp::Chk { c, id, rev },
                            _ => TxOp::Ovr { c: c.clone(), id, ct: self.ct(rng, &c, id) },
                        };
                    } else if let TxOp::Del { c, id, .. } = prev.clone() {
                        o = TxOp::Ins { ct: self.ct(rng, &c, id), c, id, push: 0 };
                    }
                }
            }
            ops.push(o);
        }
        Op::Tx { via: if ops.len() == 1 { rng.gen_range(0..3) } else { 0 }, ops }
    }
    pub fn bound(&self, rng: &mut StdRng, v: i64) -> (i64, i64) {
        match rng.gen_range(0..5) {
            0 => (0, 0),
            1 | 2 => (1, v),
            _ => (2, v),
        }
    }
    pub fn range(&self, rng: &mut StdRng, mut f: impl FnMut(&mut StdRng) -> i64) -> Rg {
        let (mut a, mut b) = (f(rng), f(rng));
        if a > b && rng.gen_bool(0.9) {
            std::mem::swap(&mut a, &mut b);
        }
        Rg(self.bound(rng, a), self.bound(rng, b))
    }
    fn lim(&self, rng: &mut StdRng) -> i64 {
        if rng.gen_bool(0.5) {
            -1
        } else {
            rng.gen_range(0..5)
        }
    }
    pub fn key(&self, rng: &mut StdRng, c: &str, v: &str) -> i64 {
        if string_keys(c, v) {
            let s = strings();
            let pick = if v == "u-name" {
                ["key", "key2", "z", "\u{4e2d}\u{6587}", "ab"]
            } else {
                ["", "a", "aa", "ab", "tag"]
            };
            if rng.gen_bool(0.7) {
                s.rank(pick.choose(rng).unwrap())
            } else {
                rng.gen_range(0..s.0.len()) as i64
            }
        } else if v == "comp" {
            let s = strings();
            let r = s.rank(["", "a", "a\u{1}", "aa", "ab", "b"].choose(rng).unwrap());
            r * 100_000 + 50_000 + rng.gen_range(0..7)
        } else if v == "opt-k" && rng.gen_bool(0.3) {
            -1_999_999_999
        } else if v == "ev" {
            let k = rng.gen_range(0..8);
            if rng.gen_bool(0.4) {
                k + 1000
            } else {
                k
            }
        } else if rng.gen_bool(0.85) {
            rng.gen_range(0..7)
        } else {
            *[127, 128, 255, 256, 49_999].choose(rng).unwrap()
        }
    }
    pub fn sel(&self, rng: &mut StdRng, c: &str, v: &str) -> Sel {
        match rng.gen_range(0..10) {
            0..=2 => Sel::All,
            3..=4 => Sel::Key { k: self.key(rng, c, v) },
            5..=6 => {
                let n = if rng.gen_bool(0.5) { rng.gen_range(0..3) } else { rng.gen_range(3..9) };
                let mut ks: Vec<i64> = (0..n).map(|_| self.key(rng, c, v)).collect();
                let mut seen = std::collections::HashSet::new();
                ks.retain(|k| seen.insert(*k));
                Sel::Keys { ks }
            }
            7 if string_keys(c, v) => Sel::Prefix { k: self.key(rng, c, v) },
            _ => Sel::Range { rg: self.range(rng, |r| self.key(r, c, v)) },
        }
    }
    pub fn view(&self, rng: &mut StdRng) -> Option<(String, String)> {
        let mut all = Vec::new();
        for c in &self.mix.colls {
            for v in views_of(c) {
                if *v != "ev" || self.ev_present {
                    all.push((c.to_string(), v.to_string()));
                }
            }
        }
        all.choose(rng).cloned()
    }
    pub fn next(&self, rng: &mut StdRng) -> Op {
        let total: u32 = self.mix.w.iter().map(|w| w.1).sum();
        let mut x = rng.gen_range(0..total);
        let mut what = "tx";
        for (n, w) in &self.mix.w {
            if x < *w {
                what = n;
                break;
            }
            x -= w;
        }
        self.op(rng, what)
    }
    /// Could `ev` be unique in this mode with the documents there are?
    pub fn ev_unique(&self, mode: i64, pool: &Pool) -> bool {
        let mut seen = std::collections::HashSet::new();
        self.known
            .iter()
            .filter(|(k, _)| k.0 == "e")
            .filter_map(|(_, r)| ev_key(mode, &pool.contents[r.h as usize - 1]))
            .all(|k| seen.insert(k))
    }
    pub fn op(&self, rng: &mut StdRng, what: &str) -> Op {
        let c = (*self.mix.colls.choose(rng).unwrap()).to_string();
        match what {
            "get" => Op::Get { id: self.an_id(rng, &c), c, via: rng.gen_range(0..3) },
            "getmulti" => {
                let n = rng.gen_range(0..6);
                let mut ids: Vec<i64> = (0..n).map(|_| self.an_id(rng, &c)).collect();
                if rng.gen_bool(0.9) {
                    let mut seen = std::collections::HashSet::new();
                    ids.retain(|k| seen.insert(*k));
                }
                Op::GetMulti { c, ids, via: rng.gen_range(0..2) }
            }
            "list" => {
                let rg = if rng.gen_bool(0.4) {
                    Rg::full()
                } else {
                    self.range(rng, |r| self.an_id(r, &c))
                };
                Op::List {
                    kind: (*["docs", "headers", "count"].choose(rng).unwrap()).to_string(),
                    rg,
                    desc: rng.gen_range(0..2),
                    lim: self.lim(rng),
                    via: rng.gen_range(0..3),
                    c,
                }
            }
            "listpre" => Op::ListPre {
                c: "b".to_string(),
                kind: (*["docs", "headers", "count"].choose(rng).unwrap()).to_string(),
                pre: self.an_id(rng, "b"),
                desc: rng.gen_range(0..2),
                lim: self.lim(rng),
            },
            "query" => {
                let Some((c, v)) = self.view(rng) else { return self.tx(rng) };
                let pol = if rng.gen_bool(0.6) {
                    "before"
                } else if rng.gen_bool(0.5) {
                    "after"
                } else {
                    "none"
                };
                let docs = if pol == "before" || !lazy(&c, &v) { rng.gen_range(0..3) } else { 0 };
                Op::Query { sel: self.sel(rng, &c, &v), desc: rng.gen_range(0..2), lim: self.lim(rng), pol: pol.to_string(), docs, c, v, via: 1 }
            }
            "reduce" | "grouped" => {
                let Some((c, v)) = self.view(rng) else { return self.tx(rng) };
                let sel = self.sel(rng, &c, &v);
                let pol = if rng.gen_bool(0.85) { "before" } else { "none" }.to_string();
                if what == "reduce" {
                    Op::Reduce { c, v, sel, pol }
                } else {
                    Op::Grouped { c, v, sel, pol }
                }
            }
            "delview" => {
                let Some((c, v)) = self.view(rng) else { return self.tx(rng) };
                let sel = self.sel(rng, &c, &v);
                Op::DelView { c, v, sel }
            }
            "txlog" => {
                let start = if rng.gen_bool(0.5) || self.seen_tx.is_empty() {
                    -1
                } else {
                    *self.seen_tx.choose(rng).unwrap() + rng.gen_range(0..3) - 1
                };
                let lim = match rng.gen_range(0..4) {
                    0 => -1,
                    1 => 1000,
                    _ => rng.gen_range(0..8),
                };
                Op::TxLog { start: start.max(-1), lim }
            }
            "lasttx" => Op::LastTx {},
            "compact" => Op::Compact {
                what: if rng.gen_bool(0.4) {
                    "all".to_string()
                } else {
                    c
                },
            },
            _ => self.tx(rng),
        }
    }
    /// Learn from a result.
    pub fn learn(&mut self, op: &Op, res: &Value) {
        match op {
            Op::Tx { ops, .. } => {
                if res["t"] == "ok" {
                    for r in res["r"].as_array().unwrap() {
                        let c = r["c"].as_str().unwrap_or("").to_string();
                        let id = r["id"].as_i64().unwrap_or(0);
                        if r["t"] == "upd" {
                            let n = Rev { r: r["r"].as_i64().unwrap(), h: r["h"].as_i64().unwrap() };
                            if let Some(o) = self.known.insert((c.clone(), id), n) {
                                self.old.push((c, id, o));
                            } 
                        } else if r["t"] == "del" {
                            if let Some(o) = self.known.remove(&(c.clone(), id)) {
                                self.old.push((c, id, o));
                            }
                        }
                    }
                }
                let _ = ops;
            }
            Op::List { c, kind, rg, lim, .. } if kind == "headers" && *rg == Rg::full() && *lim < 0 => {
                self.known.retain(|k, _| k.0 != *c);
                if let Some(a) = res["r"].as_array() {
                    for r in a {
                        self.known.insert(
                            (c.clone(), r["id"].as_i64().unwrap()),
                            Rev { r: r["r"].as_i64().unwrap(), h: r["h"].as_i64().unwrap() },
                        );
                    }
                }
            }
            Op::TxLog { .. } => {
                if let Some(a) = res["r"].as_array() {
                    for r in a {
                        let t = r["tx"].as_i64().unwrap();
                        if !self.seen_tx.contains(&t) {
                            self.seen_tx.push(t);
                        }
                    }
                }
            }
            _ => {}
        }
        if self.old.len() > 60 {
            self.old.drain(0..30);
        }
    }
}

pub fn mix(name: &str) -> Mix {
    let all = vec!["a", "b", "n", "e", "x"];
    match name {
        "access" => Mix {
            w: vec![("tx", 40), ("get", 8), ("getmulti", 5), ("list", 12), ("listpre", 2), ("query", 18), ("reduce", 3), ("grouped", 3), ("delview", 4), ("txlog", 3), ("lasttx", 2), ("compact", 1)],
            colls: all,
            max_tx: 4,
            stale: 0.1,
        },
        "docs" => Mix {
            w: vec![("tx", 40), ("get", 12), ("getmulti", 8), ("list", 25), ("listpre", 5), ("query", 4), ("compact", 1)],
            colls: all,
            max_tx: 5,
            stale: 0.25,
        },
        "tx" => Mix {
            w: vec![("tx", 60), ("list", 12), ("query", 12), ("reduce", 2), ("txlog", 6), ("lasttx", 4)],
            colls: vec!["a", "b", "e"],
            max_tx: 7,
            stale: 0.2,
        },
        "log" => Mix {
            w: vec![("tx", 50), ("txlog", 20), ("lasttx", 12), ("query", 6), ("delview", 3), ("compact", 1)],
            colls: all,
            max_tx: 4,
            stale: 0.2,
        },
        "views" => Mix {
            w: vec![("tx", 40), ("query", 40), ("reduce", 8), ("grouped", 8), ("delview", 2), ("compact", 1)],
            colls: vec!["a", "a", "b", "e", "x"],
            max_tx: 4,
            stale: 0.1,
        },
        "query" => Mix {
            w: vec![("tx", 22), ("query", 55), ("delview", 4), ("list", 3)],
            colls: vec!["a", "a", "b", "x"],
            max_tx: 5,
            stale: 0.05,
        },
        "reduce" => Mix {
            w: vec![("tx", 30), ("reduce", 30), ("grouped", 30), ("query", 5), ("delview", 1)],
            colls: vec!["a", "a", "b", "e", "x"],
            max_tx: 5,
            stale: 0.05,
        },
        "uniq" => Mix {
            w: vec![("tx", 70), ("query", 14), ("list", 6), ("get", 4)],
            colls: vec!["a", "b"],
            max_tx: 5,
            stale: 0.05,
        },
        "push" => Mix {
            w: vec![("tx", 70), ("list", 15), ("get", 6)],
            colls: all,
            max_tx: 4,
            stale: 0.05,
        },
        "conc" => Mix {
            w: vec![("tx", 50), ("get", 8), ("getmulti", 4), ("list", 14), ("query", 20), ("compact", 2)],
            colls: vec!["a", "a", "a", "e", "x", "b"],
            max_tx: 3,
            stale: 0.1,
        },
        "concq" => Mix {
            w: vec![("tx", 50), ("query", 50)],
            colls: vec!["a", "e", "e", "x", "b"],
            max_tx: 3,
            stale: 0.02,
        },
        "concc" => Mix {
            w: vec![("tx", 50), ("query", 15), ("list", 10), ("compact", 12)],
            colls: vec!["a", "e", "x", "b"],
            max_tx: 3,
            stale: 0.05,
        },
        "compact" => Mix {
            w: vec![("tx", 45), ("compact", 14), ("query", 20), ("list", 10), ("get", 4), ("reduce", 4), ("grouped", 3), ("txlog", 2)],
            colls: vec!["a", "b", "e", "x", "n"],
            max_tx: 5,
            stale: 0.1,
        },
        "crash" => Mix {
            w: vec![("tx", 60), ("query", 20), ("delview", 4), ("compact", 4), ("list", 2), ("txlog", 3), ("lasttx", 3)],
            colls: vec!["a", "b", "e", "x", "n"],
            max_tx: 5,
            stale: 0.1,
        },
        "ver" => Mix {
            w: vec![("tx", 40), ("query", 40), ("reduce", 6), ("grouped", 5), ("list", 3), ("compact", 1)],
            colls: vec!["e"],
            max_tx: 4,
            stale: 0.05,
        },
        _ => Mix {
            w: vec![
                ("tx", 40), ("get", 5), ("getmulti", 4), ("list", 10), ("listpre", 3), ("query", 20), ("reduce", 5),
                ("grouped", 5), ("delview", 2), ("txlog", 4), ("lasttx", 2), ("compact", 1),
            ],
            colls: all,
            max_tx: 5,
            stale: 0.15,
        },
    }
}
