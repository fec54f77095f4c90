//! Configurations of file storages, and what the executors share.
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_files::FileConfig;
use serde_json::{json, Value};

pub trait Cfg: FileConfig<Metadata = i64> + std::fmt::Debug {}

macro_rules! cfg {
    ($n:ident, $size:expr) => {
        #[derive(Debug)]
        pub struct $n;
        impl FileConfig for $n {
            type Metadata = i64;
            const BLOCK_SIZE: usize = $size;
            fn files_name() -> CollectionName {
                CollectionName::new("bv", concat!(stringify!($n), "files"))
            }
            fn blocks_name() -> CollectionName {
                CollectionName::new("bv", concat!(stringify!($n), "blocks"))
            }
        }
        impl Cfg for $n {}
    };
}
cfg!(B1, 1);
cfg!(B4, 4);
cfg!(B8, 8);
cfg!(B33, 33);
cfg!(B2M, 2 * 1024 * 1024);

/// Microseconds since the scenario began.
#[derive(Clone, Copy)]
pub struct FBase(pub i64);
impl FBase {
    pub fn new() -> Self {
        Self(TimestampAsNanoseconds::now().representation())
    }
    pub fn us(&self, t: TimestampAsNanoseconds) -> i64 {
        ((t.representation() - self.0).div_euclid(1000)).clamp(-1_000_000_000, 2_000_000_000)
    }
    pub fn now(&self) -> i64 {
        self.us(TimestampAsNanoseconds::now())
    }
    pub fn opt(&self, t: Option<TimestampAsNanoseconds>) -> i64 {
        t.map_or(-1, |t| self.us(t))
    }
}

pub fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}
pub fn unchars(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect()
}

pub fn core_err(e: &bonsaidb_core::Error) -> Value {
    use bonsaidb_core::Error as E;
    let k = match e {
        E::DocumentConflict(..) => "conflict",
        E::DocumentNotFound(..) => "notfound",
        E::UniqueKeyViolation { .. } => "exists",
        _ => "other",
    };
    json!({"t":"err","k":k,"m":e.to_string()})
}
pub fn file_err(e: &bonsaidb_files::Error) -> Value {
    use bonsaidb_files::Error as E;
    let k = match e {
        E::Database(e) => return core_err(e),
        E::InvalidName => "name",
        E::InvalidPath => "path",
        E::AlreadyExists => "exists",
        E::Deleted => "deleted",
    };
    json!({"t":"err","k":k})
}
