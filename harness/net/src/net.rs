//! A server on the loopback interface and the kinds of connections to it.
use std::net::{TcpListener, UdpSocket};
use std::path::Path;
use std::time::Duration;

use anyhow::Result;
use bonsaidb_client::fabruic::Certificate;
use bonsaidb_client::url::Url;
use bonsaidb_client::{AsyncClient, AsyncRemoteDatabase, BlockingClient, BlockingRemoteDatabase};
use bonsaidb_core::schema::Schema;
use bonsaidb_core::connection::{AsyncStorageConnection, StorageConnection};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{AsyncDatabase, Database};
use bonsaidb_server::{BonsaiListenConfig, DefaultPermissions, Server, ServerConfiguration, ServerDatabase};
use serde_json::{json, Value};
use tokio::runtime::Runtime;

use crate::kvops::*;
use crate::ops::*;
use crate::util::*;

pub struct Host {
    pub rt: Runtime,
    /// runtime of the clients
    pub crt: Runtime,
    pub server: Server,
    pub cert: Certificate,
    pub quic: u16,
    pub ws: u16,
}

fn free_udp() -> u16 {
    UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
fn free_tcp() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

impl Host {
    pub fn start(kind: u64, path: &Path, perms: DefaultPermissions, setup: impl FnOnce(ServerConfiguration) -> Result<ServerConfiguration>) -> Result<Self> {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build()?;
        let crt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build()?;
        let (server, cert, quic, ws) = rt.block_on(async {
            let mut c = ServerConfiguration::new(path.join("db")).default_permissions(perms).server_name("localhost");
            c.storage = config(kind, path);
            let c = setup(c)?;
            let server = Server::open(c).await?;
            server.install_self_signed_certificate(true).await?;
            let cert = server.certificate_chain().await?.into_end_entity_certificate();
            let (mut quic, mut ws) = (0, 0);
            for _ in 0..20 {
                quic = free_udp();
                let s = server.clone();
                let addr: std::net::SocketAddr = format!("127.0.0.1:{quic}").parse().unwrap();
                let h = tokio::spawn(async move { s.listen_on({ let mut c = BonsaiListenConfig::default(); c.address = addr; c }).await });
                tokio::time::sleep(Duration::from_millis(30)).await;
                if !h.is_finished() {
                    break;
                }
            }
            for _ in 0..20 {
                ws = free_tcp();
                let s = server.clone();
                let addr = format!("127.0.0.1:{ws}");
                let h = tokio::spawn(async move { s.listen_for_websockets_on(addr.as_str(), false).await });
                tokio::time::sleep(Duration::from_millis(30)).await;
                if !h.is_finished() {
                    break;
                }
            }
            Ok::<_, anyhow::Error>((server, cert, quic, ws))
        })?;
        Ok(Self { rt, crt, server, cert, quic, ws })
    }
    pub fn url(&self, ws: bool) -> Url {
        if ws {
            Url::parse(&format!("ws://127.0.0.1:{}", self.ws)).unwrap()
        } else {
            Url::parse(&format!("bonsaidb://localhost:{}", self.quic)).unwrap()
        }
    }
    /// A client whose futures run on the clients' runtime.
    pub fn client(&self, ws: bool) -> Result<AsyncClient> {
        let b = AsyncClient::build(self.url(ws)).with_runtime(self.crt.handle().clone());
        Ok(if ws { b.build()? } else { b.with_certificate(self.cert.clone()).build()? })
    }
    /// A client that brings its own thread and runtime.
    pub fn blocking(&self, ws: bool) -> Result<BlockingClient> {
        let b = BlockingClient::build(self.url(ws));
        Ok(if ws { b.build()? } else { b.with_certificate(self.cert.clone()).build()? })
    }
    pub fn stop(self) {
        let s = self.server.clone();
        self.rt.block_on(async move {
            let _ = s.shutdown(None).await;
        });
        drop(self.server);
        self.crt.shutdown_timeout(Duration::from_secs(5));
        self.rt.shutdown_timeout(Duration::from_secs(5));
    }
}

/// One way to reach a database.
#[derive(Clone)]
pub enum Target {
    Local(Database),
    LocalAsync(AsyncDatabase),
    Server(ServerDatabase),
    Remote(AsyncRemoteDatabase),
    Blocking(BlockingRemoteDatabase),
}
pub const TARGETS: usize = 7;

impl Target {
    /// 0 local, 1 local asynchronous, 2 server, 3 QUIC, 4 QUIC blocking, 5 WebSocket,
    /// 6 WebSocket blocking
    pub fn new<S: Schema>(host: &Host, kind: usize, name: &str) -> Result<Self> {
        Ok(match kind {
            0 => Target::Local(bonsaidb_local::Storage::from(host.server.clone()).database::<S>(name)?),
            1 => Target::LocalAsync(bonsaidb_local::Storage::from(host.server.clone()).database::<S>(name)?.into_async_with_runtime(host.rt.handle().clone())),
            2 => Target::Server(host.rt.block_on(host.server.database::<S>(name))?),
            3 | 5 => Target::Remote(host.crt.block_on(host.client(kind == 5)?.database::<S>(name))?),
            _ => Target::Blocking(host.blocking(kind == 6)?.database::<S>(name)?),
        })
    }
    /// the runtime its futures run on
    pub fn rt<'h>(&self, host: &'h Host) -> &'h tokio::runtime::Handle {
        match self {
            Target::Remote(_) => host.crt.handle(),
            _ => host.rt.handle(),
        }
    }
    pub fn op(&self, rt: &tokio::runtime::Handle, p: &Pool, op: &Op) -> Value {
        match self {
            Target::Local(d) => crate::exec::exec(d, p, op),
            Target::LocalAsync(d) => rt.block_on(crate::aexec::exec(d, p, op)),
            Target::Server(d) => rt.block_on(crate::aexec::exec(d, p, op)),
            Target::Remote(d) => rt.block_on(crate::aexec::exec(d, p, op)),
            Target::Blocking(d) => crate::exec::exec(d, p, op),
        }
    }
    pub fn kv(&self, rt: &tokio::runtime::Handle, base: &Base, op: &KvOp) -> Value {
        match self {
            Target::Local(d) => crate::kvexec::kv(d, base, op),
            Target::LocalAsync(d) => rt.block_on(crate::akvexec::kv(d, base, op)),
            Target::Server(d) => rt.block_on(crate::akvexec::kv(d, base, op)),
            Target::Remote(d) => rt.block_on(crate::akvexec::kv(d, base, op)),
            Target::Blocking(d) => crate::kvexec::kv(d, base, op),
        }
    }
    pub fn guarded_op(&self, host: &Host, p: &std::sync::Arc<Pool>, op: &Op) -> Value {
        let (t, rt, p, op) = (self.clone(), self.rt(host).clone(), p.clone(), op.clone());
        with_timeout(60, move || t.op(&rt, &p, &op)).unwrap_or_else(|m| json!({"t":"crash","m":m}))
    }
}
