//! Key-value operations as they appear in traces.
use std::time::{Duration, SystemTime};

use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::keyvalue::{Numeric, Value as KvValue};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// The origin of a trace's microseconds.
#[derive(Clone, Copy)]
pub struct Base(pub SystemTime);
impl Base {
    pub fn now() -> Self {
        Self(SystemTime::now())
    }
    pub fn at(&self, us: i64) -> SystemTime {
        self.0 + Duration::from_micros(us as u64)
    }
    pub fn us(&self) -> i64 {
        SystemTime::now().duration_since(self.0).map_or(0, |d| d.as_micros() as i64)
    }
}

/// (namespace, key) pairs: prefixes and concatenations of one another.
const PAIRS: &[(Option<&str>, &str)] = &[
    (None, "k"),
    (Some("ns"), "k"),
    (Some("n"), "sk"),
    (None, "nsk"),
    (Some("ns2"), "k"),
    (None, ""),
    (Some("ns"), ""),
    (Some("\u{e9}"), "\u{4e2d}"),
    (None, "key2"),
    (Some("ns"), "key2"),
];
pub fn pair(k: i64) -> (Option<&'static str>, &'static str) {
    PAIRS[k as usize]
}
pub fn npairs() -> i64 {
    PAIRS.len() as i64
}
pub fn pair_of(ns: Option<&str>, key: &str) -> i64 {
    PAIRS.iter().position(|p| p.0 == ns && p.1 == key).map_or(-1, |p| p as i64)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(tag = "op", rename_all = "lowercase")]
pub enum KvOp {
    /// chk: 0 none, 1 only if present, 2 only if vacant; exp: microseconds, -1 none
    Set { k: i64, v: Value, exp: i64, keep: i64, chk: i64, ret: i64, via: i64 },
    Get { k: i64, del: i64, via: i64 },
    Del { k: i64, via: i64 },
    Add { k: i64, v: Value, neg: i64, sat: i64, via: i64 },
}
impl KvOp {
    pub fn k(&self) -> i64 {
        match self {
            Self::Set { k, .. } | Self::Get { k, .. } | Self::Del { k, .. } | Self::Add { k, .. } => *k,
        }
    }
    pub fn via(&self) -> i64 {
        match self {
            Self::Set { via, .. } | Self::Get { via, .. } | Self::Del { via, .. } | Self::Add { via, .. } => *via,
        }
    }
}

fn limbs(x: u64) -> Value {
    json!([x >> 48, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff])
}
fn unlimbs(v: &Value) -> u64 {
    v.as_array().unwrap().iter().fold(0, |a, x| (a << 16) | x.as_u64().unwrap())
}
pub fn big_bytes(i: i64) -> Vec<u8> {
    // bytes that look like something else's structure
    if i % 8 == 7 {
        return vec![0; 16 + (i / 8) as usize];
    }
    let n = [0usize, 1, 5, 40, 900, 20_000][(i % 6) as usize];
    let mut v = format!("kv-{i}-").into_bytes();
    v.extend((0..n).map(|j| (j as u64 * 31 + i as u64) as u8));
    v
}
/// i: 64-bit two's complement in limbs of 16 bits; u: the same unsigned; f: quarters, or a special
/// value; b: the index of a byte string
pub fn enc_value(v: &KvValue) -> Value {
    match v {
        KvValue::Bytes(b) => {
            let text = String::from_utf8_lossy(b).to_string();
            let i = text
                .strip_prefix("kv-")
                .and_then(|t| t.split('-').next())
                .and_then(|t| t.parse::<i64>().ok())
                .filter(|i| big_bytes(*i) == b[..])
                .unwrap_or_else(|| if b.len() >= 16 && b.iter().all(|b| *b == 0) { (b.len() as i64 - 16) * 8 + 7 } else { -1 });
            json!({"t":"b","i":i})
        }
        KvValue::Numeric(Numeric::Integer(x)) => json!({"t":"i","w":limbs(*x as u64)}),
        KvValue::Numeric(Numeric::UnsignedInteger(x)) => json!({"t":"u","w":limbs(*x)}),
        KvValue::Numeric(Numeric::Float(x)) => {
            let q = x * 4.0;
            if x.is_nan() {
                json!({"t":"f","s":"nan","q":0})
            } else if x.is_infinite() {
                json!({"t":"f","s":if *x > 0.0 {"inf"} else {"ninf"},"q":0})
            } else if q.fract() == 0.0 && q.abs() < 1_000_000_000.0 {
                json!({"t":"f","s":"ok","q":q as i64})
            } else {
                json!({"t":"f","s":"big","q":0})
            }
        }
    }
}
pub fn dec_value(v: &Value) -> KvValue {
    match v["t"].as_str().unwrap() {
        "b" => KvValue::Bytes(Bytes::from(big_bytes(v["i"].as_i64().unwrap()))),
        "i" => KvValue::Numeric(Numeric::Integer(unlimbs(&v["w"]) as i64)),
        "u" => KvValue::Numeric(Numeric::UnsignedInteger(unlimbs(&v["w"]))),
        _ => KvValue::Numeric(Numeric::Float(match v["s"].as_str().unwrap() {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "ninf" => f64::NEG_INFINITY,
            _ => v["q"].as_i64().unwrap() as f64 / 4.0,
        })),
    }
}

pub struct KvGen {
    pub keys: i64,
    pub expiry: f64,
    pub numeric: f64,
    pub next: i64,
}
impl KvGen {
    fn number(&self, rng: &mut StdRng) -> Value {
        match rng.gen_range(0..10) {
            0..=3 => {
                let x = *[1i64, 1, 2, 5, -1, -3, 0, i64::MAX, i64::MIN, i64::MAX - 2, 70_000, -70_000, 1 << 40].choose(rng).unwrap();
                json!({"t":"i","w":limbs(x as u64)})
            }
            4..=7 => {
                let x = *[1u64, 1, 2, 7, 0, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 65_535, 65_536, 1 << 32].choose(rng).unwrap();
                json!({"t":"u","w":limbs(x)})
            }
            8 => json!({"t":"f","s":"ok","q":rng.gen_range(-40..40)}),
            _ => match rng.gen_range(0..5) {
                0 => json!({"t":"f","s":"inf","q":0}),
                1 => json!({"t":"f","s":"ninf","q":0}),
                2 => json!({"t":"f","s":"nan","q":0}),
                _ => json!({"t":"f","s":"ok","q":1_000_000}),
            },
        }
    }
    pub fn op(&mut self, rng: &mut StdRng, base: &Base) -> KvOp {
        let k = rng.gen_range(0..self.keys);
        let via = rng.gen_range(0..2);
        match rng.gen_range(0..20) {
            0..=7 => {
                let v = if rng.gen_bool(self.numeric) {
                    self.number(rng)
                } else {
                    self.next += 1;
                    json!({"t":"b","i":self.next})
                };
                let exp = if rng.gen_bool(self.expiry) {
                    let d = *[-5_000i64, 3_000, 10_000, 30_000, 60_000, 120_000, 60_000_000].choose(rng).unwrap();
                    (base.us() + d).max(0)
                } else {
                    -1
                };
                KvOp::Set {
                    k,
                    v,
                    exp,
                    keep: i64::from(rng.gen_bool(0.2)),
                    chk: *[0, 0, 0, 1, 2].choose(rng).unwrap(),
                    ret: i64::from(rng.gen_bool(0.3)),
                    via,
                }
            }
            8..=12 => KvOp::Get { k, del: i64::from(rng.gen_bool(0.2)), via },
            13..=14 => KvOp::Del { k, via },
            _ => {
                let mut v = self.number(rng);
                // floats meet only numbers they can represent (see KV.tla)
                if rng.gen_bool(self.numeric * 0.7) {
                    v = json!({"t":"u","w":limbs(rng.gen_range(1..4))});
                }
                KvOp::Add { k, v, neg: rng.gen_range(0..2), sat: rng.gen_range(0..2), via }
            }
        }
    }
}
