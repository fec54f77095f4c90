use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};

use bonsaidb_core::document::KeyId;
use bonsaidb_local::config::{Builder, Compression, StorageConfiguration};
use bonsaidb_local::vault::LocalVaultKeyStorage;
use serde_json::Value;

pub struct Args {
    pub cmd: String,
    pub m: HashMap<String, String>,
}
impl Args {
    pub fn parse() -> Self {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut m = HashMap::new();
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            m.insert(k.trim_start_matches("--").to_string(), v);
        }
        Self { cmd, m }
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.m.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.m.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("BV_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
        let p = Path::new(&base).join(format!(
            "bv-{}-{}-{name}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Out(std::io::BufWriter<std::fs::File>, pub u64);
impl Out {
    pub fn new(path: &str) -> Self {
        Self(
            std::io::BufWriter::new(std::fs::File::create(path).expect("trace file")),
            0,
        )
    }
    pub fn line(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.0, v).unwrap();
        self.0.write_all(b"\n").unwrap();
        self.1 += 1;
    }
    pub fn flush(&mut self) {
        self.0.flush().unwrap();
    }
}

/// Storage configurations drivers run with: 0 plain, 1 encrypted, 2 compressed, 3 both,
/// 4 memory only, 5 view integrity checked on open
pub fn config(kind: u64, path: &Path) -> StorageConfiguration {
    let c = StorageConfiguration::new(path.join("db")).tasks_worker_count(6).tasks_parallelization(3);
    let c = c.vault_key_storage(LocalVaultKeyStorage::new(path.join("keys")).unwrap());
    match kind {
        1 => c.default_encryption_key(KeyId::Master),
        2 => c.default_compression(Compression::Lz4),
        3 => c.default_encryption_key(KeyId::Master).default_compression(Compression::Lz4),
        4 => c.memory_only(),
        5 => c.check_view_integrity_on_open(true),
        _ => c,
    }
}

/// Runs `f` on another thread and gives up when it does not come back.
pub fn with_timeout<T: Send + 'static>(
    secs: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(p)) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
        Err(_) => Err("hang".to_string()),
    }
}
