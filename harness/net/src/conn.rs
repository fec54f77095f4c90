//! Several connections to one server that authenticate, subscribe, publish, disconnect, are
//! cut off and lose the server, all at once.  Each does so in its own thread.
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream, UdpSocket};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use anyhow::{bail, Result};
use bonsaidb_client::fabruic::Certificate;
use bonsaidb_client::url::Url;
use bonsaidb_client::{ApiCallback, AsyncClient, AsyncRemoteSubscriber, BlockingClient, BlockingRemoteSubscriber};
use bonsaidb_core::actionable::{ActionNameList, Identifier, ResourceName};
use bonsaidb_core::admin::PermissionGroup;
use bonsaidb_core::api::{Api, ApiName, Infallible};
use bonsaidb_core::async_trait::async_trait;
use bonsaidb_core::connection::{AsyncStorageConnection, Authentication, AuthenticationMethod, HasSession, IdentityReference, SensitiveString, SessionAuthentication, SessionId, StorageConnection};
use bonsaidb_core::keyvalue::{AsyncKeyValue, KeyValue};
use bonsaidb_core::networking::{LogOutSession, SubscribeTo, UnregisterSubscriber, UnsubscribeFrom};
use bonsaidb_core::permissions::bonsai::{bonsaidb_resource_name, BonsaiAction, ServerAction};
use bonsaidb_core::permissions::{Action, Permissions, Statement};
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, PubSub, Receiver, Subscriber, TryReceiveError};
use bonsaidb_core::schema::{Qualified, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::{ArgonParams, Builder};
use bonsaidb_local::Storage;
use bonsaidb_server::api::{Handler, HandlerResult, HandlerSession};
use bonsaidb_server::{Backend, BonsaiListenConfig, CustomServer, DefaultPermissions, ServerConfiguration};
use parking_lot::Mutex;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::runtime::{Handle, Runtime};

use crate::perturb;
use crate::schema::*;
use crate::util::*;

const NDB: usize = 4;
const USERS: usize = 3;
fn db(i: usize) -> String {
    format!("d{i}")
}
fn user(u: usize) -> String {
    format!("u{u}")
}

/// What the server knows of a connection, as long as it knows it.
#[derive(Debug)]
pub struct Known {
    c: u64,
    ep: u64,
    known: Arc<Mutex<Vec<(u64, u64)>>>,
}
impl Drop for Known {
    fn drop(&mut self) {
        let mut k = self.known.lock();
        if let Some(i) = k.iter().position(|x| *x == (self.c, self.ep)) {
            k.remove(i);
        }
    }
}
#[derive(Debug)]
pub struct Bk {
    known: Arc<Mutex<Vec<(u64, u64)>>>,
    _alive: Arc<()>,
}
#[async_trait]
impl Backend for Bk {
    type ClientData = Known;
    type Error = bonsaidb_core::api::Infallible;
}
type Srv = CustomServer<Bk>;

/// Names the connection and asks who the server thinks it is.
#[derive(Serialize, Deserialize, Debug)]
struct Hello(u64, u64);
impl Api for Hello {
    type Response = (u64, u64, String);
    type Error = Infallible;
    fn name() -> ApiName {
        ApiName::private("hello")
    }
}
/// What the server sends without being asked.
#[derive(Serialize, Deserialize, Debug)]
struct Note;
impl Api for Note {
    type Response = u64;
    type Error = Infallible;
    fn name() -> ApiName {
        ApiName::private("note")
    }
}
#[derive(Debug)]
struct HelloHandler;
#[async_trait]
impl Handler<Hello, Bk> for HelloHandler {
    async fn handle(s: HandlerSession<'_, Bk>, Hello(c, ep): Hello) -> HandlerResult<Hello> {
        let mut d = s.client.client_data().await;
        if d.is_none() {
            let known = s.server.backend().known.clone();
            known.lock().push((c, ep));
            *d = Some(Known { c, ep, known });
        }
        let d = d.as_ref().unwrap();
        Ok((d.c, d.ep, who(s.as_client.session().and_then(|s| s.id.map(|_| s.authentication.clone())))))
    }
}
fn who(a: Option<SessionAuthentication>) -> String {
    match a {
        Some(SessionAuthentication::Identity(i)) => match &*i {
            bonsaidb_core::connection::Identity::User { username, .. } => username.clone(),
            _ => "?".into(),
        },
        Some(_) => "?".into(),
        None => String::new(),
    }
}

fn st(res: ResourceName<'static>, act: Option<Vec<BonsaiAction>>) -> Statement {
    Statement {
        resources: vec![res],
        actions: Some(act.map_or(ActionNameList::All, |v| ActionNameList::List(v.iter().map(Action::name).collect()))),
        configuration: None,
    }
}
fn dbs(r: &[usize]) -> Vec<Statement> {
    r.iter().map(|i| st(bonsaidb_resource_name().and(db(*i)), None)).collect()
}

struct Place {
    path: PathBuf,
    quic: u16,
    ws: u16,
    def: Permissions,
    auth: Permissions,
    known: Arc<Mutex<Vec<(u64, u64)>>>,
}
struct Running {
    rt: Runtime,
    server: Srv,
    cert: Certificate,
    alive: std::sync::Weak<()>,
}
impl Place {
    fn start(&mut self) -> Result<Running> {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build()?;
        let alive = Arc::new(());
        let weak = Arc::downgrade(&alive);
        let bk = Bk { known: self.known.clone(), _alive: alive };
        let (server, cert) = rt.block_on(async {
            let mut c = ServerConfiguration::new_with_backend(self.path.join("db"), bk)
                .default_permissions(DefaultPermissions::Permissions(self.def.clone()))
                .server_name("localhost");
            c.storage = config(0, &self.path);
            let mut cheap = argon2::ParamsBuilder::new();
            cheap.m_cost(8).t_cost(1).p_cost(1);
            c.storage.argon.hashers = 1;
            c.storage.argon.params = ArgonParams::Params(cheap);
            c.storage.authenticated_permissions = self.auth.clone();
            let c = c.with_schema::<Main>()?.with_api::<HelloHandler, Hello>()?;
            let server = Srv::open(c).await?;
            if server.certificate_chain().await.is_err() {
                server.install_self_signed_certificate(true).await?;
            }
            let cert = server.certificate_chain().await?.into_end_entity_certificate();
            for kind in 0..2 {
                let mut up = false;
                for _ in 0..100 {
                    let s = server.clone();
                    let h = if kind == 0 {
                        let p = if self.quic > 0 { self.quic } else { UdpSocket::bind("127.0.0.1:0")?.local_addr()?.port() };
                        let addr: std::net::SocketAddr = format!("127.0.0.1:{p}").parse().unwrap();
                        let h = tokio::spawn(async move {
                            s.listen_on({
                                let mut c = BonsaiListenConfig::default();
                                c.address = addr;
                                c.reuse_address = true;
                                c
                            })
                            .await
                        });
                        (h, p)
                    } else {
                        let p = if self.ws > 0 { self.ws } else { TcpListener::bind("127.0.0.1:0")?.local_addr()?.port() };
                        let addr = format!("127.0.0.1:{p}");
                        (tokio::spawn(async move { s.listen_for_websockets_on(addr.as_str(), false).await }), p)
                    };
                    tokio::time::sleep(Duration::from_millis(30)).await;
                    if !h.0.is_finished() {
                        if kind == 0 {
                            self.quic = h.1;
                        } else {
                            self.ws = h.1;
                        }
                        up = true;
                        break;
                    }
                }
                if !up {
                    bail!("cannot listen")
                }
            }
            Ok::<_, anyhow::Error>((server, cert))
        })?;
        Ok(Running { rt, server, cert, alive: weak })
    }
}
impl Running {
    /// False if the server was still there after a while.
    fn stop(self) -> bool {
        let Running { rt, server, alive, .. } = self;
        rt.block_on(async {
            let _ = tokio::time::timeout(Duration::from_secs(20), server.shutdown(None)).await;
            // (the connections need a moment to be closed)
            for _ in 0..200 {
                if server.connected_clients().is_empty() {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
            tokio::time::sleep(Duration::from_millis(100)).await;
        });
        drop(server);
        rt.shutdown_timeout(Duration::from_secs(10));
        let end = Instant::now() + Duration::from_secs(10);
        while alive.strong_count() > 0 {
            if Instant::now() > end {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        true
    }
}

/// Passes a TCP connection on until it is told to break it.
struct Proxy {
    port: u16,
    open: Arc<Mutex<Vec<TcpStream>>>,
    over: Arc<AtomicBool>,
}
impl Proxy {
    fn new(to: u16) -> Result<Self> {
        let l = TcpListener::bind("127.0.0.1:0")?;
        let port = l.local_addr()?.port();
        let open: Arc<Mutex<Vec<TcpStream>>> = Arc::default();
        let over = Arc::new(AtomicBool::new(false));
        let (o, ov) = (open.clone(), over.clone());
        std::thread::spawn(move || {
            for a in l.incoming() {
                if ov.load(Ordering::SeqCst) {
                    break;
                }
                let Ok(a) = a else { continue };
                let Ok(b) = TcpStream::connect(("127.0.0.1", to)) else { continue };
                let _ = (a.set_nodelay(true), b.set_nodelay(true));
                o.lock().extend([a.try_clone().unwrap(), b.try_clone().unwrap()]);
                for (mut from, mut to) in [(a.try_clone().unwrap(), b.try_clone().unwrap()), (b, a)] {
                    std::thread::spawn(move || {
                        let mut buf = [0; 8192];
                        while let Ok(n) = from.read(&mut buf) {
                            if n == 0 || to.write_all(&buf[..n]).is_err() {
                                break;
                            }
                        }
                        let _ = (from.shutdown(Shutdown::Both), to.shutdown(Shutdown::Both));
                    });
                }
            }
        });
        Ok(Self { port, open, over })
    }
    fn cut(&self) {
        for s in self.open.lock().drain(..) {
            let _ = s.shutdown(Shutdown::Both);
        }
    }
}
impl Drop for Proxy {
    fn drop(&mut self) {
        self.over.store(true, Ordering::SeqCst);
        self.cut();
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

enum Client {
    A(AsyncClient),
    B(BlockingClient),
}
enum Sub {
    A(AsyncRemoteSubscriber),
    B(BlockingRemoteSubscriber),
}
fn net<E: std::fmt::Debug>(e: &E) -> bool {
    let s = format!("{e:?}");
    s.contains("Networking") || s.contains("Network") || s.contains("isconnect") || s.contains("Transport") || s.contains("WebSocket") || s.contains("tungstenite") || s.contains("onnection")
}
fn code<T, E: std::fmt::Debug>(r: &Result<T, E>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => {
            let s = format!("{e:?}");
            if s.contains("PermissionDenied") {
                "denied".into()
            } else if s.contains("invalid subscriber id") {
                "nosub".into()
            } else if net(e) {
                "net".into()
            } else {
                s
            }
        }
    }
}
impl Client {
    fn login(&self, rt: &Handle, u: usize, assume: bool) -> Result<Self, Error> {
        let name = user(u);
        Ok(match self {
            Client::A(c) => Client::A(rt.block_on(async {
                if assume {
                    c.assume_identity(IdentityReference::user(&name)?).await
                } else {
                    c.authenticate(Authentication::password(&name, SensitiveString(name.clone()))?).await
                }
            })?),
            Client::B(c) => Client::B(if assume {
                c.assume_identity(IdentityReference::user(&name)?)?
            } else {
                c.authenticate(Authentication::password(&name, SensitiveString(name.clone()))?)?
            }),
        })
    }
    fn sid(&self) -> u64 {
        match self {
            Client::A(c) => c.session(),
            Client::B(c) => c.session(),
        }
        .and_then(|s| s.id)
        .map_or(0, |i| i.0)
    }
    fn probe(&self, rt: &Handle, i: usize) -> Result<(), Error> {
        match self {
            Client::A(c) => rt.block_on(async { c.database::<Main>(&db(i)).await?.get_key("k").await.map(|_| ()) }),
            Client::B(c) => c.database::<Main>(&db(i))?.get_key("k").query().map(|_| ()),
        }
    }
    fn subscriber(&self, rt: &Handle, i: usize) -> Result<Sub, Error> {
        Ok(match self {
            Client::A(c) => Sub::A(rt.block_on(async { c.database::<Main>(&db(i)).await?.create_subscriber().await })?),
            Client::B(c) => Sub::B(c.database::<Main>(&db(i))?.create_subscriber()?),
        })
    }
    fn publish(&self, rt: &Handle, i: usize, t: Vec<u8>, body: &[u64]) -> Result<(), Error> {
        let b = body.to_vec();
        match self {
            Client::A(c) => rt.block_on(async { c.database::<Main>(&db(i)).await?.publish_bytes(t, pot(&b)).await }),
            Client::B(c) => c.database::<Main>(&db(i))?.publish_bytes(t, pot(&b)),
        }
    }
    fn api<A: Api + Clone2>(&self, rt: &Handle, a: &A) -> Result<A::Response, String> {
        let r = match self {
            Client::A(c) => rt.block_on(c.send_api_request(a)),
            Client::B(c) => c.send_api_request(a),
        };
        r.map_err(|e| code::<(), _>(&Err(e)))
    }
    fn dup(&self) -> Self {
        match self {
            Client::A(c) => Client::A(c.clone()),
            Client::B(c) => Client::B(c.clone()),
        }
    }
}
trait Clone2 {}
impl<T> Clone2 for T {}
fn pot(b: &Vec<u64>) -> Vec<u8> {
    use bonsaidb_core::circulate::Message;
    Message::new(&(), b).unwrap().payload.0.into_vec()
}
impl Sub {
    fn set(&self, rt: &Handle, t: &[u8], on: bool) -> Result<(), Error> {
        match (self, on) {
            (Sub::A(s), true) => rt.block_on(s.subscribe_to_bytes(t.to_vec())),
            (Sub::A(s), false) => rt.block_on(s.unsubscribe_from_bytes(t)),
            (Sub::B(s), true) => s.subscribe_to_bytes(t.to_vec()),
            (Sub::B(s), false) => s.unsubscribe_from_bytes(t),
        }
    }
    fn receiver(&self) -> Receiver {
        match self {
            Sub::A(s) => AsyncSubscriber::receiver(s).clone(),
            Sub::B(s) => Subscriber::receiver(s).clone(),
        }
    }
    fn number(&self) -> u64 {
        // (the id is only shown by the debug output)
        let s = match self {
            Sub::A(s) => format!("{s:?}"),
            Sub::B(s) => format!("{s:?}"),
        };
        s.rsplit(" id: ").find_map(|p| p.split(|c: char| !c.is_ascii_digit()).next().filter(|d| !d.is_empty()).map(|d| d.parse().unwrap())).unwrap_or(0)
    }
}

struct Hd {
    n: u64,
    c: Client,
    /// session number of the driver, 0: none
    s: u64,
    u: usize,
    ep: u64,
}
struct Sb {
    n: u64,
    id: u64,
    sub: Sub,
    s: u64,
    u: usize,
    ep: u64,
}
struct Conn {
    c: u64,
    kind: usize,
    ep: u64,
    proxy: Option<Proxy>,
    notes: Arc<Mutex<Vec<u64>>>,
    hs: Vec<Hd>,
    subs: Vec<Sb>,
    published: u64,
}
struct Shared {
    crt: Handle,
    quic: u16,
    ws: u16,
    seq: AtomicU64,
    handles: AtomicU64,
    sessions: AtomicU64,
    subs: AtomicU64,
    notes: AtomicU64,
    receivers: Mutex<Vec<(u64, u64, Receiver)>>,
    /// ids the server gave out: (connection, epoch, session, subscriber, its database)
    ids: Mutex<Vec<(u64, u64, u64, usize)>>,
    dead: AtomicBool,
    lines: Mutex<Vec<(u64, Value)>>,
    calls: AtomicUsize,
}
impl Shared {
    fn now(&self) -> u64 {
        self.seq.fetch_add(1, Ordering::SeqCst) + 1
    }
    fn put(&self, s0: u64, v: Value) {
        if std::env::var("BV_DBG").is_ok() {
            eprintln!("{s0} {v}");
        }
        self.lines.lock().push((s0, v));
    }
}
const TOPICS: [&[u8]; 3] = [b"t", b"t2", b""];

/// Runs `f` here, with someone watching the time.
fn call<T>(sh: &Shared, what: &str, f: impl FnOnce() -> T) -> T {
    sh.calls.fetch_add(1, Ordering::SeqCst);
    let done = Arc::new(AtomicBool::new(false));
    let _ = what;
    let t = Instant::now();
    let r = f();
    done.store(true, Ordering::SeqCst);
    if t.elapsed() > Duration::from_secs(20) {
        sh.dead.store(true, Ordering::SeqCst);
    }
    r
}

impl Conn {
    fn client(&self, sh: &Shared, cert: &Certificate) -> Result<Client> {
        let url = match self.kind {
            0 | 1 => Url::parse(&format!("bonsaidb://localhost:{}", sh.quic))?,
            _ => Url::parse(&format!("ws://127.0.0.1:{}", self.proxy.as_ref().map_or(sh.ws, |p| p.port)))?,
        };
        let notes = self.notes.clone();
        let cb = ApiCallback::<Note>::new(move |n: u64| {
            let notes = notes.clone();
            async move {
                notes.lock().push(n);
            }
        });
        // (a request that is never answered is an error, after a while)
        let t = Duration::from_secs(25);
        Ok(if self.kind % 2 == 0 {
            let b = AsyncClient::build(url).with_runtime(sh.crt.clone()).with_api_callback(cb).with_request_timeout(t);
            Client::A(if self.kind < 2 { b.with_certificate(cert.clone()).build()? } else { b.build()? })
        } else {
            let b = BlockingClient::build(url).with_api_callback(cb).with_request_timeout(t);
            Client::B(if self.kind < 2 { b.with_certificate(cert.clone()).build()? } else { b.build()? })
        })
    }
    /// Connects anew; the first handle has no session.
    fn connect(&mut self, sh: &Shared, cert: &Certificate) -> Result<()> {
        self.ep += 1;
        let n = sh.handles.fetch_add(1, Ordering::SeqCst) + 1;
        // (until the server hears of the end of an earlier one, both get what it sends to all)
        let had = self.notes.lock().clone();
        self.notes = Arc::new(Mutex::new(had));
        let c = self.client(sh, cert)?;
        self.hs = vec![Hd { n, c, s: 0, u: 0, ep: self.ep }];
        sh.put(sh.now(), json!({"e":"connect","c":self.c,"n":n,"kind":self.kind,"ep":self.ep}));
        self.hello(sh);
        Ok(())
    }
    /// Until it is answered.
    fn hello(&mut self, sh: &Shared) {
        for _ in 0..6 {
            if self.whoami(sh, 0) != "net" {
                return;
            }
        }
    }
    fn whoami(&mut self, sh: &Shared, i: usize) -> String {
        let h = &self.hs[i];
        let s0 = sh.now();
        let r = call(sh, "hello", || h.c.api(&sh.crt, &Hello(self.c, self.ep)));
        let (t, c, ep, u) = match r {
            Ok((c, ep, u)) => ("ok".to_string(), c, ep, u),
            Err(e) => (e, 0, 0, String::new()),
        };
        sh.put(s0, json!({"e":"who","c":self.c,"h":h.n,"rc":c,"rep":ep,"u":u,"r":t}));
        t
    }
    fn cut(&mut self, sh: &Shared) {
        let Some(p) = &self.proxy else { return };
        let s0 = sh.now();
        p.cut();
        self.ep += 1;
        sh.put(s0, json!({"e":"cut","c":self.c,"ep":self.ep,"s1":sh.now()}));
        self.hello(sh);
    }
    fn drop_sub(&mut self, sh: &Shared, i: usize) {
        let s = self.subs.swap_remove(i);
        let s0 = sh.now();
        call(sh, "drop subscriber", || {
            let _g = sh.crt.enter();
            drop(s.sub);
        });
        sh.put(s0, json!({"e":"dropsub","c":self.c,"s":s.n,"late":i64::from(self.kind % 2 == 0),"s0":s0,"s1":sh.now()}));
    }
    fn disconnect(&mut self, sh: &Shared) {
        while !self.subs.is_empty() {
            self.drop_sub(sh, 0);
        }
        let s0 = sh.now();
        {
            let _g = sh.crt.enter();
            self.hs.clear();
        }
        sh.put(s0, json!({"e":"disconnect","c":self.c}));
    }
    fn step(&mut self, sh: &Shared, r: &mut StdRng, cert: &Certificate, server: &Srv) -> Result<()> {
        let i = r.gen_range(0..self.hs.len());
        let stale = self.hs[i].ep != self.ep;
        let h = &self.hs[i];
        let (c, hn) = (self.c, h.n);
        match r.gen_range(0..100) {
            0..=11 if self.hs.len() < 7 => {
                let (u, assume) = (r.gen_range(1..=USERS), r.gen_bool(0.3));
                let s0 = sh.now();
                let x = call(sh, "login", || h.c.login(&sh.crt, u, assume));
                let t = code(&x);
                let n = sh.handles.fetch_add(1, Ordering::SeqCst) + 1;
                let s = sh.sessions.fetch_add(1, Ordering::SeqCst) + 1;
                sh.put(s0, json!({"e":"login","c":c,"h":hn,"n":n,"s":s,"u":u,"assume":i64::from(assume),"r":t}));
                if let Ok(cl) = x {
                    sh.ids.lock().push((c, cl.sid(), 0, 0));
                    self.hs.push(Hd { n, c: cl, s, u, ep: self.ep });
                }
            }
            12..=34 => {
                let d = if r.gen_bool(0.45) { 0 } else { r.gen_range(0..NDB) };
                let s0 = sh.now();
                let t = code(&call(sh, "get", || h.c.probe(&sh.crt, d)));
                sh.put(s0, json!({"e":"probe","c":c,"h":hn,"db":d,"r":t}));
            }
            35..=41 => {
                self.whoami(sh, i);
            }
            42..=45 if self.hs.len() < 7 => {
                let s0 = sh.now();
                let n = sh.handles.fetch_add(1, Ordering::SeqCst) + 1;
                let (cl, s, u, ep) = (h.c.dup(), h.s, h.u, h.ep);
                sh.put(s0, json!({"e":"clone","c":c,"h":hn,"n":n}));
                self.hs.push(Hd { n, c: cl, s, u, ep });
            }
            46..=51 if i > 0 || (stale && self.hs.len() > 1) => {
                let s0 = sh.now();
                let h = self.hs.remove(i);
                call(sh, "drop", || {
                    let _g = sh.crt.enter();
                    drop(h);
                });
                sh.put(s0, json!({"e":"drop","c":c,"h":hn}));
            }
            52..=58 if self.subs.len() < 5 => {
                let d = if r.gen_bool(0.45) { 0 } else { r.gen_range(0..NDB) };
                let s0 = sh.now();
                let x = call(sh, "create_subscriber", || h.c.subscriber(&sh.crt, d));
                let t = code(&x);
                let n = sh.subs.fetch_add(1, Ordering::SeqCst) + 1;
                sh.put(s0, json!({"e":"newsub","c":c,"h":hn,"s":n,"db":d,"r":t,"s0":s0}));
                if let Ok(sub) = x {
                    let id = sub.number();
                    sh.receivers.lock().push((n, c, sub.receiver()));
                    sh.ids.lock().push((c, 0, id, d));
                    let (s, u, ep) = if stale { (0, 0, self.ep) } else { (h.s, h.u, self.ep) };
                    self.subs.push(Sb { n, id, sub, s, u, ep });
                }
            }
            59..=72 if !self.subs.is_empty() => {
                let j = r.gen_range(0..self.subs.len());
                let s = &self.subs[j];
                let (t, on) = (r.gen_range(0..TOPICS.len()), r.gen_bool(0.75));
                let s0 = sh.now();
                let x = call(sh, "subscribe", || s.sub.set(&sh.crt, TOPICS[t], on));
                sh.put(s0, json!({"e":"set","c":c,"s":s.n,"t":t,"on":i64::from(on),"r":code(&x),"s0":s0,"s1":sh.now()}));
            }
            73..=75 if !self.subs.is_empty() => {
                let j = r.gen_range(0..self.subs.len());
                self.drop_sub(sh, j);
            }
            76..=90 => {
                let (d, t) = (if r.gen_bool(0.45) { 0 } else { r.gen_range(0..NDB) }, r.gen_range(0..TOPICS.len()));
                self.published += 1;
                let s0 = sh.now();
                let x = call(sh, "publish", || h.c.publish(&sh.crt, d, TOPICS[t].to_vec(), &[c, self.published]));
                sh.put(s0, json!({"e":"pub","c":c,"h":hn,"db":d,"t":t,"n":self.published,"r":code(&x),"s0":s0,"s1":sh.now()}));
            }
            91..=95 => {
                // what belongs to another connection
                let Some((o, sid, id, d)) = sh.ids.lock().choose(r).copied() else { return Ok(()) };
                if o == c {
                    return Ok(());
                }
                let topic = bonsaidb_core::arc_bytes::serde::Bytes::from(TOPICS[r.gen_range(0..TOPICS.len())].to_vec());
                let database = db(d);
                let (what, x) = if sid > 0 {
                    // (unless it has a session of that id itself)
                    if self.hs.iter().any(|h| h.c.sid() == sid) {
                        return Ok(());
                    }
                    ("logout", h.c.api(&sh.crt, &LogOutSession(SessionId(sid))).map(|_| ()))
                } else {
                    if self.subs.iter().any(|s| s.id == id) {
                        return Ok(());
                    }
                    match r.gen_range(0..3) {
                        0 => ("subscribe", h.c.api(&sh.crt, &SubscribeTo { database, subscriber_id: id, topic }).map(|_| ())),
                        1 => ("unsubscribe", h.c.api(&sh.crt, &UnsubscribeFrom { database, subscriber_id: id, topic }).map(|_| ())),
                        _ => ("unregister", h.c.api(&sh.crt, &UnregisterSubscriber { database, subscriber_id: id }).map(|_| ())),
                    }
                };
                let t = match x {
                    Ok(()) => "ok".to_string(),
                    Err(e) => e,
                };
                sh.put(sh.now(), json!({"e":"foreign","c":c,"h":hn,"what":what,"db":d,"r":t}));
            }
            96 => self.cut(sh),
            97 if r.gen_bool(0.3) => {
                self.disconnect(sh);
                self.connect(sh, cert)?;
            }
            98 | 99 => {
                let cl = server.connected_clients();
                if cl.is_empty() {
                    return Ok(());
                }
                let n = sh.notes.fetch_add(1, Ordering::SeqCst) + 1;
                if r.gen_bool(0.2) {
                    sh.put(sh.now(), json!({"e":"note","n":n,"c":0,"ep":0,"r":"ok"}));
                    server.broadcast::<Note>(&n);
                } else {
                    let x = cl.choose(r).unwrap();
                    let (tc, tep) = sh.crt.block_on(async { x.client_data().await.as_ref().map_or((0, 0), |k| (k.c, k.ep)) });
                    if tc > 0 {
                        let ss = x.all_sessions::<Vec<_>>();
                        let rr = x.send::<Note>(ss.choose(r), &n);
                        sh.put(sh.now(), json!({"e":"note","n":n,"c":tc,"ep":tep,"r":if rr.is_ok() { "ok" } else { "net" }}));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let scenarios = args.n("scenarios", 3);
    let rounds = args.n("rounds", 6);
    let nops = args.n("ops", 20);
    let only = args.m.get("only").map(|x| x.parse::<u64>().unwrap());
    let mut out = Out::new(&args.s("out", "/dev/stdout"));
    for sc in 0..scenarios {
        if only.map_or(false, |o| o != sc) {
            continue;
        }
        let mut rng = StdRng::seed_from_u64(seed * 11_000_027 + sc);
        let mut pick = |n: usize| {
            let mut v: Vec<usize> = (0..NDB).collect();
            v.shuffle(&mut rng);
            v.truncate(n);
            v.sort_unstable();
            v
        };
        // (database 0 is everyone's)
        let def = vec![0usize];
        let auth = vec![pick(1)[0]];
        let mut users: Vec<Vec<usize>> = (0..USERS).map(|i| pick(1 + i % 2)).collect();
        users[0].push(pick(1)[0]);
        users[0].sort_unstable();
        users[0].dedup();
        let dir = Scratch::new("conn");
        EV_PRESENT.store(1, Ordering::SeqCst);
        EV_VERSION.store(4, Ordering::SeqCst);
        perturb::off();
        let anyone = || bonsaidb_resource_name().and("user").and(Identifier::Any);
        let pw = BonsaiAction::Server(ServerAction::Authenticate(AuthenticationMethod::PasswordHash));
        let mut dp = vec![st(bonsaidb_resource_name(), Some(vec![BonsaiAction::Server(ServerAction::Connect)])), st(anyone(), Some(vec![pw]))];
        dp.extend(dbs(&def));
        let mut ap = vec![st(anyone(), Some(vec![pw, BonsaiAction::Server(ServerAction::AssumeIdentity)]))];
        ap.extend(dbs(&auth));
        let known: Arc<Mutex<Vec<(u64, u64)>>> = Arc::default();
        let mut place = Place { path: dir.0.clone(), quic: 0, ws: 0, def: Permissions::from(dp), auth: Permissions::from(ap), known: known.clone() };
        let mut running = place.start()?;
        {
            let free = Storage::from(running.server.clone());
            let admin = StorageConnection::admin(&free);
            for d in 0..NDB {
                free.create_database::<Main>(&db(d), true)?;
            }
            for u in 1..=USERS {
                let id = free.create_user(&user(u))?;
                free.set_user_password(id, SensitiveString(user(u)))?;
                let mut g = PermissionGroup::named(format!("g{u}"));
                g.statements = dbs(&users[u - 1]);
                let g = g.push_into(&admin)?.header.id;
                free.add_permission_group_to_user(id, g)?;
            }
        }
        out.line(&json!({"e":"reset","sc":sc,"seed":seed,"def":def,"auth":auth,"users":users}));
        let crt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build()?;
        let sh = Arc::new(Shared {
            crt: crt.handle().clone(),
            quic: place.quic,
            ws: place.ws,
            seq: AtomicU64::new(0),
            handles: AtomicU64::new(0),
            sessions: AtomicU64::new(0),
            subs: AtomicU64::new(0),
            notes: AtomicU64::new(0),
            receivers: Mutex::default(),
            ids: Mutex::default(),
            dead: AtomicBool::new(false),
            lines: Mutex::default(),
            calls: AtomicUsize::new(0),
        });
        let nconn = rng.gen_range(2..5u64);
        let mut conns: Vec<Conn> = Vec::new();
        perturb::configure(&mut rng, &["client.sent"]);
        for c in 1..=nconn {
            let kind = rng.gen_range(0..4);
            let proxy = (kind >= 2 && rng.gen_bool(0.8)).then(|| Proxy::new(place.ws)).transpose()?;
            let mut x = Conn { c, kind, ep: 0, proxy, notes: Arc::default(), hs: Vec::new(), subs: Vec::new(), published: 0 };
            x.connect(&sh, &running.cert)?;
            conns.push(x);
        }
        'rounds: for round in 0..rounds {
            let parallel = rng.gen_bool(0.7);
            let mut hs = Vec::new();
            for mut x in std::mem::take(&mut conns) {
                let mut r = StdRng::seed_from_u64(rng.gen());
                let (sh, cert, server) = (sh.clone(), running.cert.clone(), running.server.clone());
                let h = std::thread::spawn(move || {
                    let mut bad = None;
                    for _ in 0..nops {
                        if sh.dead.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Err(e) = x.step(&sh, &mut r, &cert, &server) {
                            bad = Some(e);
                            break;
                        }
                    }
                    (x, bad)
                });
                if parallel {
                    hs.push(h);
                } else {
                    conns.push(h.join().unwrap().0);
                }
            }
            for h in hs {
                let (x, bad) = h.join().unwrap();
                if let Some(e) = bad {
                    return Err(e);
                }
                conns.push(x);
            }
            // everyone is connected
            for x in &mut conns {
                x.hello(&sh);
            }
            // what was sent before has arrived when this has
            let free = Storage::from(running.server.clone());
            let mark = format!("mark{round}").into_bytes();
            let mut marks: HashMap<u64, bool> = HashMap::new();
            for x in &conns {
                for s in &x.subs {
                    let s0 = sh.now();
                    let t = code(&s.sub.set(&sh.crt, &mark, true));
                    sh.put(s0, json!({"e":"set","c":x.c,"s":s.n,"t":-1,"on":1,"r":t,"s0":s0,"s1":sh.now()}));
                    if t == "ok" {
                        marks.insert(s.n, false);
                    }
                }
            }
            for d in 0..NDB {
                free.database::<Main>(&db(d))?.publish_bytes(mark.clone(), pot(&vec![0, round]))?;
            }
            let mut lines = std::mem::take(&mut *sh.lines.lock());
            lines.sort_by_key(|l| l.0);
            for l in lines {
                out.line(&l.1);
            }
            let live: Vec<u64> = conns.iter().flat_map(|x| x.subs.iter().filter(|s| s.ep == x.ep).map(|s| s.n)).collect();
            let mut recs = std::mem::take(&mut *sh.receivers.lock());
            let mut keep = Vec::new();
            for (n, c, rec) in recs.drain(..) {
                let mut got = Vec::new();
                let mut closed = 0;
                let end = Instant::now() + Duration::from_secs(15);
                let (mut marked, lives) = (None::<Instant>, live.contains(&n));
                loop {
                    match rec.try_receive() {
                        Ok(m) => {
                            if m.topic[..] == mark[..] {
                                marked = Some(Instant::now());
                                continue;
                            }
                            let t = TOPICS.iter().position(|t| *t == &m.topic[..]).map_or(-2, |x| x as i64);
                            let b: Vec<u64> = m.payload().unwrap_or_default();
                            got.push(json!({"t":t,"c":b.first().copied().unwrap_or(99),"n":b.get(1).copied().unwrap_or(0)}));
                        }
                        Err(TryReceiveError::Disconnected) => {
                            closed = 1;
                            break;
                        }
                        Err(TryReceiveError::Empty) => {
                            if marked.map_or(false, |t| t.elapsed() > Duration::from_millis(2)) || Instant::now() > end || (lives && !marks.contains_key(&n)) {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(200));
                        }
                    }
                }
                out.line(&json!({"e":"recv","s":n,"c":c,"got":got,"closed":closed,"mark":i64::from(marked.is_some())}));
                if lives {
                    keep.push((n, c, rec));
                }
            }
            for x in &conns {
                for s in x.subs.iter().filter(|s| marks.contains_key(&s.n)) {
                    let t = code(&s.sub.set(&sh.crt, &mark, false));
                    if t != "ok" {
                        out.line(&json!({"e":"fail","what":format!("unsubscribing: {t}")}));
                    }
                }
            }
            *sh.receivers.lock() = keep;
            // what the server has of each connection, as soon as it is what it should be
            let want: BTreeMap<(u64, u64), Vec<i64>> = conns
                .iter()
                .map(|x| {
                    let mut s: Vec<(u64, usize)> = x.hs.iter().filter(|h| h.ep == x.ep && h.s > 0).map(|h| (h.s, h.u)).collect();
                    s.extend(x.subs.iter().filter(|h| h.ep == x.ep && h.s > 0).map(|h| (h.s, h.u)));
                    s.sort_unstable();
                    s.dedup();
                    let mut v = vec![0; USERS];
                    for (_, u) in s {
                        v[u - 1] += 1;
                    }
                    ((x.c, x.ep), v)
                })
                .collect();
            let end = Instant::now() + Duration::from_secs(if round + 1 == rounds { 5 } else { 1 });
            let end_hard = Instant::now() + Duration::from_secs(5);
            let (mut seen, mut kn);
            loop {
                seen = Vec::new();
                for cl in running.server.connected_clients() {
                    let (c, ep) = sh.crt.block_on(async { cl.client_data().await.as_ref().map_or((0, 0), |k| (k.c, k.ep)) });
                    let mut v = vec![0; USERS];
                    for s in cl.all_sessions::<Vec<_>>() {
                        let w = who(s.id.map(|_| s.authentication.clone()));
                        if let Some(u) = w.strip_prefix('u').and_then(|x| x.parse::<usize>().ok()) {
                            v[u - 1] += 1;
                        }
                    }
                    seen.push(((c, ep), v));
                }
                seen.sort();
                kn = known.lock().clone();
                kn.sort_unstable();
                let same = seen.iter().map(|x| x.0).eq(want.keys().copied()) && kn.iter().copied().eq(want.keys().copied());
                let sessions = seen.iter().all(|x| want.get(&x.0) == Some(&x.1));
                if (same && (sessions || Instant::now() > end)) || Instant::now() > end_hard {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            let seen: Vec<Value> = seen.into_iter().map(|((c, ep), v)| json!({"c":c,"ep":ep,"us":v})).collect();
            let kn: Vec<Value> = kn.into_iter().map(|(c, ep)| json!([c, ep])).collect();
            out.line(&json!({"e":"seen","cs":seen,"known":kn}));
            for x in &conns {
                let n = std::mem::take(&mut *x.notes.lock());
                out.line(&json!({"e":"notes","c":x.c,"got":n}));
            }
            out.line(&json!({"e":"end","slow":i64::from(sh.dead.load(Ordering::SeqCst))}));
            if sh.dead.load(Ordering::SeqCst) {
                break 'rounds;
            }
            if round + 1 < rounds && rng.gen_bool(0.35) {
                drop(free);
                if !running.stop() {
                    out.line(&json!({"e":"fail","what":"the server never went away"}));
                    out.flush();
                    std::process::exit(0);
                }
                if std::env::var("BV_DBG").is_ok() {
                    eprintln!("restarting");
                }
                running = place.start()?;
                sh.ids.lock().clear();
                let mut eps = Vec::new();
                for x in &mut conns {
                    x.ep += 1;
                    eps.push(x.ep);
                }
                out.line(&json!({"e":"restart","eps":eps}));
                // the first to come may be anyone
                for x in &mut conns {
                    if rng.gen_bool(0.5) {
                        let i = rng.gen_range(0..x.hs.len());
                        x.whoami(&sh, i);
                    }
                    x.hello(&sh);
                }
            }
        }
        perturb::off();
        for x in &mut conns {
            x.disconnect(&sh);
        }
        drop(conns);
        running.stop();
        crt.shutdown_timeout(Duration::from_secs(5));
    }
    out.flush();
    Ok(())
}
