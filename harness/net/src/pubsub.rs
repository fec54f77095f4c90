//! Publishing and subscribing through every kind of connection.  What one subscriber could have
//! seen of a round of concurrent operations is recorded per subscriber, with what it received.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use anyhow::Result;
use bonsaidb_client::{AsyncRemoteSubscriber, BlockingRemoteSubscriber};
use bonsaidb_core::connection::AsyncStorageConnection;
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, PubSub, Receiver, Subscriber, TryReceiveError};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_server::DefaultPermissions;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::runtime::Handle;

use crate::net::*;
use crate::perturb;
use crate::schema::*;
use crate::util::*;

const DBS: [&str; 3] = ["p", "pp", "q"];

/// Topics; the first are what a typed topic becomes.
fn topics() -> Vec<(Option<String>, Vec<u8>)> {
    let mut v = Vec::new();
    for s in ["t", "tt", "", "a\0b", "é"] {
        v.push((Some(s.to_string()), pot_of(&s.to_string())));
    }
    for b in [&b""[..], &b"\0"[..], &b"t"[..], &b"p\0t"[..], &[255u8; 300][..]] {
        v.push((None, b.to_vec()));
    }
    v
}
fn pot_of<T: serde::Serialize>(v: &T) -> Vec<u8> {
    // what `publish` sends for a typed value
    use bonsaidb_core::circulate::Message;
    Message::new(&(), v).unwrap().payload.0.into_vec()
}
fn payload(p: u64, n: u64) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend(p.to_be_bytes());
    v.extend(n.to_be_bytes());
    let len = [0, 1, 30, 1000, 20_000][((p * 7 + n * 13) % 5) as usize] * usize::from(n % 3 != 2);
    v.extend((0..len).map(|i| ((i as u64 * 31 + n * 17 + p) % 251) as u8));
    v
}

pub enum Sub {
    L(bonsaidb_local::Subscriber, bool),
    R(AsyncRemoteSubscriber),
    B(BlockingRemoteSubscriber),
}
impl Sub {
    pub fn new(t: &Target, rt: &Handle) -> Result<Self, Error> {
        Ok(match t {
            Target::Local(d) => Sub::L(PubSub::create_subscriber(d)?, false),
            Target::LocalAsync(d) => Sub::L(rt.block_on(AsyncPubSub::create_subscriber(d))?, true),
            Target::Server(d) => Sub::L(rt.block_on(AsyncPubSub::create_subscriber(d))?, true),
            Target::Remote(d) => Sub::R(rt.block_on(AsyncPubSub::create_subscriber(d))?),
            Target::Blocking(d) => Sub::B(PubSub::create_subscriber(d)?),
        })
    }
    pub fn receiver(&self) -> Receiver {
        match self {
            Sub::L(s, _) => Subscriber::receiver(s).clone(),
            Sub::R(s) => AsyncSubscriber::receiver(s).clone(),
            Sub::B(s) => Subscriber::receiver(s).clone(),
        }
    }
    pub fn set(&self, rt: &Handle, topic: &(Option<String>, Vec<u8>), on: bool, typed: bool) -> Result<(), Error> {
        let b = &topic.1;
        match (self, topic.0.as_ref().filter(|_| typed), on) {
            (Sub::L(s, false), Some(t), true) => Subscriber::subscribe_to(s, t),
            (Sub::L(s, false), Some(t), false) => Subscriber::unsubscribe_from(s, t),
            (Sub::L(s, false), None, true) => Subscriber::subscribe_to_bytes(s, b.clone()),
            (Sub::L(s, false), None, false) => Subscriber::unsubscribe_from_bytes(s, b),
            (Sub::L(s, true), Some(t), true) => rt.block_on(AsyncSubscriber::subscribe_to(s, t)),
            (Sub::L(s, true), Some(t), false) => rt.block_on(AsyncSubscriber::unsubscribe_from(s, t)),
            (Sub::L(s, true), None, true) => rt.block_on(AsyncSubscriber::subscribe_to_bytes(s, b.clone())),
            (Sub::L(s, true), None, false) => rt.block_on(AsyncSubscriber::unsubscribe_from_bytes(s, b)),
            (Sub::R(s), Some(t), true) => rt.block_on(AsyncSubscriber::subscribe_to(s, t)),
            (Sub::R(s), Some(t), false) => rt.block_on(AsyncSubscriber::unsubscribe_from(s, t)),
            (Sub::R(s), None, true) => rt.block_on(AsyncSubscriber::subscribe_to_bytes(s, b.clone())),
            (Sub::R(s), None, false) => rt.block_on(AsyncSubscriber::unsubscribe_from_bytes(s, b)),
            (Sub::B(s), Some(t), true) => Subscriber::subscribe_to(s, t),
            (Sub::B(s), Some(t), false) => Subscriber::unsubscribe_from(s, t),
            (Sub::B(s), None, true) => Subscriber::subscribe_to_bytes(s, b.clone()),
            (Sub::B(s), None, false) => Subscriber::unsubscribe_from_bytes(s, b),
        }
    }
}

pub fn publish(t: &Target, rt: &Handle, topics: &[(Option<String>, Vec<u8>)], typed: bool, body: Vec<u8>) -> Result<(), Error> {
    let typed = typed && topics.iter().all(|t| t.0.is_some());
    let one = topics.len() == 1;
    let raw: Vec<Vec<u8>> = topics.iter().map(|t| t.1.clone()).collect();
    let names: Vec<String> = topics.iter().filter_map(|t| t.0.clone()).collect();
    macro_rules! go {
        ($d:ident, $t:ident) => {
            match (typed, one) {
                (true, true) => $t::publish($d, &names[0], &body),
                (true, false) => $t::publish_to_all($d, &names, &body),
                (false, true) => $t::publish_bytes($d, raw[0].clone(), pot_of(&body)),
                (false, false) => $t::publish_bytes_to_all($d, raw, pot_of(&body)),
            }
        };
    }
    macro_rules! goa {
        ($d:ident) => {
            rt.block_on(async {
                match (typed, one) {
                    (true, true) => AsyncPubSub::publish($d, &names[0], &body).await,
                    (true, false) => AsyncPubSub::publish_to_all($d, &names, &body).await,
                    (false, true) => AsyncPubSub::publish_bytes($d, raw[0].clone(), pot_of(&body)).await,
                    (false, false) => AsyncPubSub::publish_bytes_to_all($d, raw, pot_of(&body)).await,
                }
            })
        };
    }
    match t {
        Target::Local(d) => go!(d, PubSub),
        Target::LocalAsync(d) => goa!(d),
        Target::Server(d) => goa!(d),
        Target::Remote(d) => goa!(d),
        Target::Blocking(d) => go!(d, PubSub),
    }
}

struct Held {
    db: usize,
    sub: Option<Sub>,
    conn: usize,
    recv: Receiver,
    /// dropped in an earlier round
    over: bool,
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let rounds = args.n("rounds", 6);
    let nops = args.n("ops", 8);
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    let all_topics = Arc::new(topics());
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 3_000_017 + sc);
        out.line(&json!({"e":"reset","sc":sc,"seed":seed}));
        let dir = Scratch::new("pubsub");
        EV_PRESENT.store(1, Ordering::SeqCst);
        EV_VERSION.store(4, Ordering::SeqCst);
        perturb::off();
        let host = Arc::new(Host::start(4, &dir.0, DefaultPermissions::AllowAll, |c| Ok(c.with_schema::<Main>()?))?);
        let mut ts: Vec<Vec<Target>> = Vec::new();
        for d in DBS {
            host.rt.block_on(host.server.create_database::<Main>(d, true))?;
        }
        // per kind of connection one client for all databases
        for k in 0..TARGETS {
            let mut v = Vec::new();
            if k >= 3 && rng.gen_bool(0.8) {
                if k == 3 || k == 5 {
                    let c = host.client(k == 5)?;
                    for d in DBS {
                        v.push(Target::Remote(host.crt.block_on(c.database::<Main>(d))?));
                    }
                } else {
                    let c = host.blocking(k == 6)?;
                    for d in DBS {
                        v.push(Target::Blocking(bonsaidb_core::connection::StorageConnection::database::<Main>(&c, d)?));
                    }
                }
            } else {
                for d in DBS {
                    v.push(Target::new::<Main>(&host, k, d)?);
                }
            }
            ts.push(v);
        }
        let ts = Arc::new(ts);
        let ntopics = rng.gen_range(2..=all_topics.len());
        let mut vocab: Vec<usize> = (0..all_topics.len()).collect();
        vocab.shuffle(&mut rng);
        vocab.truncate(ntopics);
        let vocab = Arc::new(vocab);
        let ndbs = rng.gen_range(1..=DBS.len());
        let mut subs: Vec<Held> = Vec::new();
        let mut dead = false;
        let counters: Arc<Vec<AtomicU64>> = Arc::new((0..6).map(|_| AtomicU64::new(0)).collect());
        perturb::configure(&mut rng, &["client.sent"]);
        for round in 0..rounds {
            // new subscribers
            while subs.iter().filter(|s| s.sub.is_some()).count() < 2 || (subs.len() < 24 && subs.iter().filter(|s| s.sub.is_some()).count() < 8 && rng.gen_bool(0.3)) {
                let (db, conn) = (rng.gen_range(0..ndbs), rng.gen_range(0..TARGETS));
                let t = ts[conn][db].clone();
                let rt = t.rt(&host).clone();
                match with_timeout(60, move || Sub::new(&t, &rt)) {
                    Ok(Ok(s)) => subs.push(Held { db, recv: s.receiver(), sub: Some(s), conn, over: false }),
                    e => {
                        out.line(&json!({"e":"fail","what":format!("create_subscriber: {:?}", e.map(|r| r.err()))}));
                        out.flush();
                        std::process::exit(0);
                    }
                }
            }
            let threads = if round % 2 == 0 { 1 } else { rng.gen_range(2..5usize) };
            let seq = Arc::new(AtomicU64::new(0));
            let cell: Arc<Vec<parking_lot::RwLock<Option<Sub>>>> =
                Arc::new(subs.iter_mut().map(|s| parking_lot::RwLock::new(s.sub.take())).collect());
            let info: Arc<Vec<(usize, usize)>> = Arc::new(subs.iter().map(|s| (s.db, s.conn)).collect());
            let mut hs = Vec::new();
            for th in 0..threads {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let (host, ts, vocab, all_topics, seq, cell, info, counters) = (
                    host.clone(), ts.clone(), vocab.clone(), all_topics.clone(), seq.clone(), cell.clone(), info.clone(), counters.clone(),
                );
                hs.push(std::thread::spawn(move || {
                    let mut evs: Vec<(u64, Value)> = Vec::new();
                    for _ in 0..nops {
                        let typed = r.gen_bool(0.5);
                        let mut call;
                        let s0;
                        let res: Result<Result<(), Error>, String>;
                        if r.gen_bool(0.55) {
                            let (db, conn) = (r.gen_range(0..ndbs), r.gen_range(0..TARGETS));
                            let many = [1, 1, 1, 0, 2, 4][r.gen_range(0..6)];
                            let tps: Vec<usize> = (0..many).map(|_| *vocab.choose(&mut r).unwrap()).collect();
                            let n = counters[th].fetch_add(1, Ordering::SeqCst) + 1;
                            call = json!({"op":"publish","db":db,"topics":tps,"n":n});
                            let (t, rt) = (ts[conn][db].clone(), ts[conn][db].rt(&host).clone());
                            let tp: Vec<_> = tps.iter().map(|i| all_topics[*i].clone()).collect();
                            let body = payload(th as u64, n);
                            s0 = seq.fetch_add(1, Ordering::SeqCst);
                            res = with_timeout(60, move || publish(&t, &rt, &tp, typed, body));
                        } else {
                            let sid = r.gen_range(0..cell.len());
                            let t = &ts[info[sid].1][0];
                            let rt = t.rt(&host).clone();
                            if r.gen_bool(0.06) {
                                let Some(s) = cell[sid].write().take() else { continue };
                                call = json!({"op":"drop","sid":sid,"late":i64::from(matches!(info[sid].1, 3 | 5))});
                                s0 = seq.fetch_add(1, Ordering::SeqCst);
                                // (asynchronous remote subscribers are dropped in the background)
                                let _g = rt.enter();
                                drop(s);
                                drop(_g);
                                res = Ok(Ok(()));
                            } else {
                                let tp = *vocab.choose(&mut r).unwrap();
                                let on = r.gen_bool(0.6);
                                let guard = cell[sid].read();
                                let Some(s) = guard.as_ref() else { continue };
                                call = json!({"op":if on { "sub" } else { "unsub" },"sid":sid,"topic":tp});
                                s0 = seq.fetch_add(1, Ordering::SeqCst);
                                res = Ok(s.set(&rt, &all_topics[tp], on, typed));
                            }
                        }
                        let s1 = seq.fetch_add(1, Ordering::SeqCst);
                        call["th"] = json!(th + 1);
                        call["e"] = json!("call");
                        call["res"] = match &res {
                            Ok(Ok(())) => json!("ok"),
                            Ok(Err(e)) => json!(format!("{e:?}")),
                            Err(m) => json!(m),
                        };
                        let sid = call["sid"].as_u64().map_or(-1, |x| x as i64);
                        let db = call["db"].as_u64().map_or(-1, |x| x as i64);
                        evs.push((s0, call));
                        evs.push((s1, json!({"e":"ret","th":th + 1,"sid":sid,"db":db})));
                        if res.is_err() {
                            break;
                        }
                    }
                    evs
                }));
            }
            let mut all: Vec<(u64, Value)> = Vec::new();
            for h in hs {
                all.extend(h.join().unwrap());
            }
            all.sort_by_key(|e| e.0);
            dead |= all.iter().any(|e| e.1["res"] == "hang");
            let cell = Arc::try_unwrap(cell).ok().expect("threads are gone");
            for (s, c) in subs.iter_mut().zip(cell) {
                s.sub = c.into_inner();
            }
            // everything each subscriber received
            let marker_pub = 99u64;
            for (sid, s) in subs.iter().enumerate() {
                if s.over {
                    continue;
                }
                let mut got = Vec::new();
                let gone = s.sub.is_none();
                let mark = (None, format!("marker {sid} {round}").into_bytes());
                let mut bad = String::new();
                if let Some(sub) = &s.sub {
                    let t = &ts[s.conn][s.db];
                    let rt = t.rt(&host).clone();
                    let r = sub.set(&rt, &mark, true, false).and_then(|()| {
                        let p = &ts[rng.gen_range(0..TARGETS)][s.db];
                        publish(p, p.rt(&host), &[mark.clone()], false, payload(marker_pub, round))
                    });
                    if let Err(e) = r {
                        bad = format!("{e:?}");
                    }
                }
                let start = Instant::now();
                let mut marked: Option<Instant> = None;
                loop {
                    match s.recv.try_receive() {
                        Ok(m) => {
                            if m.topic[..] == mark.1[..] {
                                marked = Some(Instant::now());
                                continue;
                            }
                            let tp = all_topics.iter().position(|t| t.1[..] == m.topic[..]).map_or(-1, |x| x as i64);
                            let body: Vec<u8> = m.payload().unwrap_or_default();
                            let (p, n) = if body.len() >= 16 {
                                (u64::from_be_bytes(body[..8].try_into().unwrap()), u64::from_be_bytes(body[8..16].try_into().unwrap()))
                            } else {
                                (0, 0)
                            };
                            let whole = body == payload(p, n);
                            got.push(json!({"topic":tp,"th":p as i64 + 1,"n":n,"whole":i64::from(whole)}));
                        }
                        Err(TryReceiveError::Disconnected) => {
                            if !gone && bad.is_empty() {
                                bad = "disconnected".into();
                            }
                            break;
                        }
                        Err(TryReceiveError::Empty) => {
                            if marked.map_or(false, |t| t.elapsed() > Duration::from_millis(3)) {
                                break;
                            }
                            if !bad.is_empty() || start.elapsed() > Duration::from_secs(20) {
                                if bad.is_empty() {
                                    bad = if gone { "never disconnected".into() } else { "the last message never came".to_string() };
                                }
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(300));
                        }
                    }
                }
                if let Some(sub) = &s.sub {
                    if bad.is_empty() {
                        if let Err(e) = sub.set(ts[s.conn][s.db].rt(&host), &mark, false, false) {
                            bad = format!("{e:?}");
                        }
                    }
                }
                out.line(&json!({"e":"look","sid":sid,"db":s.db,"got":got,"bad":bad,"conn":s.conn,"gone":i64::from(gone)}));
                for (_, v) in &all {
                    let mine = v["sid"] == json!(sid) || v["db"] == json!(s.db);
                    if mine {
                        out.line(v);
                    }
                }
                out.line(&json!({"e":"end","sid":sid}));
            }
            for s in &mut subs {
                s.over = s.sub.is_none();
            }
            if dead {
                out.flush();
                std::process::exit(0);
            }
        }
        perturb::off();
        subs.clear();
        drop(ts);
        if let Ok(h) = Arc::try_unwrap(host) {
            h.stop();
        }
    }
    out.flush();
    Ok(())
}
