//! The schemas every driver works with, and their translation into the integers the
//! TLA+ traces use.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

use bonsaidb_core::connection::{Bound, Range, RangeRef};
use bonsaidb_core::document::{BorrowedDocument, CollectionDocument, DocumentId, Emit, KeyId};
use bonsaidb_core::key::{Key, KeyEncoding};
use bonsaidb_core::schema::view::map::ViewMappedValue;
use bonsaidb_core::schema::{
    Collection, CollectionMapReduce, CollectionName, MapReduce, Name, Qualified, ReduceResult,
    Schema, SchemaName, Schematic, SerializedCollection, SerializedView, View, ViewMapResult,
    ViewSchema,
};
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use serde::{Deserialize, Serialize};

/// Contents of every document of the collections a, b, n, e and x.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Content {
    pub c: u32,
    pub k: i32,
    pub v: i64,
    pub tags: Vec<String>,
    pub name: String,
    pub pad: Vec<u8>,
}

impl Content {
    /// The content that is stored as no bytes at all.
    pub fn empty() -> Self {
        Self { c: 0, k: 0, v: 0, tags: vec![], name: String::new(), pad: vec![] }
    }
}

macro_rules! content_format {
    ($t:ident $(, $natural:item)?) => {
        impl SerializedCollection for $t {
            type Contents = Self;
            type Format = bonsaidb_core::transmog_pot::Pot;
            $($natural)?
            fn format() -> Self::Format {
                Self::Format::default()
            }
            fn deserialize(data: &[u8]) -> Result<Self, bonsaidb_core::Error> {
                use bonsaidb_core::transmog::OwnedDeserializer;
                if data.is_empty() {
                    return Ok(Self(Content::empty()));
                }
                Self::format()
                    .deserialize_owned(data)
                    .map_err(|err| bonsaidb_core::Error::other("serialization", err))
            }
            fn serialize(item: &Self) -> Result<Vec<u8>, bonsaidb_core::Error> {
                use bonsaidb_core::transmog::Format;
                if item.0 == Content::empty() {
                    return Ok(Vec::new());
                }
                Self::format()
                    .serialize(item)
                    .map_err(|err| bonsaidb_core::Error::other("serialization", err))
            }
        }
    };
}

// ---------------------------------------------------------------- collection a
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct A(pub Content);
impl Collection for A {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName {
        CollectionName::new("v", "a")
    }
    fn define_views(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_view(ByK)?;
        schematic.define_view(ByTag)?;
        schematic.define_view(EByK)?;
        schematic.define_view(UName)?;
        schematic.define_view(Comp)?;
        schematic.define_view(OptK)?;
        Ok(())
    }
}
content_format!(A);

macro_rules! plain_view {
    ($t:ident, $c:ty, $k:ty, $v:ty, $n:literal, $policy:expr) => {
        #[derive(Debug, Clone)]
        pub struct $t;
        impl View for $t {
            type Collection = $c;
            type Key = $k;
            type Value = $v;
            fn name(&self) -> Name {
                Name::new($n)
            }
        }
        impl ViewSchema for $t {
            type View = Self;
            type MappedKey<'doc> = $k;
            fn update_policy(&self) -> ViewUpdatePolicy {
                $policy
            }
        }
        impl bonsaidb_core::schema::view::DefaultViewSerialization for $t {}
    };
}

plain_view!(ByK, A, i32, i64, "by-k", ViewUpdatePolicy::Lazy);
impl CollectionMapReduce for ByK {
    fn map<'doc>(&self, d: CollectionDocument<A>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.0.k, d.contents.0.v)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
plain_view!(ByTag, A, String, i64, "by-tag", ViewUpdatePolicy::Lazy);
impl MapReduce for ByTag {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = A::document_contents(d)?.0;
        c.tags
            .iter()
            .map(|t| d.header.emit_key_and_value(t.clone(), c.v))
            .collect()
    }
}
plain_view!(EByK, A, i32, i64, "e-by-k", ViewUpdatePolicy::Eager);
impl MapReduce for EByK {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = A::document_contents(d)?.0;
        d.header.emit_key_and_value(c.k, c.v)
    }
    /// The largest value, or -1 when there is none.
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).max().unwrap_or(-1))
    }
}
plain_view!(UName, A, String, i64, "u-name", ViewUpdatePolicy::Unique);
impl MapReduce for UName {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = A::document_contents(d)?.0;
        if c.name.is_empty() {
            Ok(bonsaidb_core::schema::view::map::Mappings::none())
        } else {
            d.header.emit_key_and_value(c.name, c.v)
        }
    }
}
// Composite keys: (tag, k) for each tag.
plain_view!(Comp, A, (String, i32), i64, "comp", ViewUpdatePolicy::Lazy);
impl MapReduce for Comp {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = A::document_contents(d)?.0;
        c.tags
            .iter()
            .map(|t| d.header.emit_key_and_value((t.clone(), c.k), c.v))
            .collect()
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
// Optional keys: Some(k) when the document has a name, None otherwise.
plain_view!(OptK, A, Option<i32>, i64, "opt-k", ViewUpdatePolicy::Eager);
impl MapReduce for OptK {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = A::document_contents(d)?.0;
        d.header
            .emit_key_and_value((!c.name.is_empty()).then_some(c.k), c.v)
    }
}

// ---------------------------------------------------------------- collection b
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct B(pub Content);
impl Collection for B {
    type PrimaryKey = String;
    fn collection_name() -> CollectionName {
        CollectionName::new("v", "b")
    }
    fn define_views(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_view(BByK)?;
        schematic.define_view(BUName)?;
        Ok(())
    }
}
content_format!(B);
plain_view!(BByK, B, i32, i64, "by-k", ViewUpdatePolicy::Lazy);
impl CollectionMapReduce for BByK {
    fn map<'doc>(&self, d: CollectionDocument<B>) -> ViewMapResult<'doc, Self> {
        d.header.emit_key_and_value(d.contents.0.k, d.contents.0.v)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
plain_view!(BUName, B, String, i64, "u-name", ViewUpdatePolicy::Unique);
impl MapReduce for BUName {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = B::document_contents(d)?.0;
        if c.name.is_empty() {
            Ok(bonsaidb_core::schema::view::map::Mappings::none())
        } else {
            d.header.emit_key_and_value(c.name, c.v)
        }
    }
}

// ---------------------------------------------------------------- collection n (natural ids)
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct N(pub Content);
impl Collection for N {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName {
        CollectionName::new("v", "n")
    }
    fn define_views(_: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        Ok(())
    }
}
content_format!(N,
    fn natural_id(contents: &Self) -> Option<u64> {
        // documents without tags have no natural id
        if contents.0.tags.is_empty() {
            None
        } else {
            Some(u64::try_from(contents.0.k.unsigned_abs()).unwrap())
        }
    }
);

// ---------------------------------------------------------------- collection e (versioned view)
pub static EV_VERSION: AtomicU64 = AtomicU64::new(0);
/// 0: key k, value v; 1: key k+1000; 2: key v, value k; 3: no entries for odd k
pub static EV_MODE: AtomicI64 = AtomicI64::new(0);
/// 0 lazy, 1 eager, 2 unique
pub static EV_POLICY: AtomicI64 = AtomicI64::new(0);
/// 1: the view is part of the schema
pub static EV_PRESENT: AtomicI64 = AtomicI64::new(1);
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct Ec(pub Content);
impl Collection for Ec {
    type PrimaryKey = i64;
    fn collection_name() -> CollectionName {
        CollectionName::new("v", "e")
    }
    fn define_views(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        if EV_PRESENT.load(Ordering::SeqCst) == 1 {
            schematic.define_view(Ev)?;
        }
        Ok(())
    }
}
content_format!(Ec);
#[derive(Debug, Clone)]
pub struct Ev;
impl View for Ev {
    type Collection = Ec;
    type Key = i32;
    type Value = i64;
    fn name(&self) -> Name {
        Name::new("ev")
    }
}
impl ViewSchema for Ev {
    type View = Self;
    type MappedKey<'doc> = i32;
    fn update_policy(&self) -> ViewUpdatePolicy {
        match EV_POLICY.load(Ordering::SeqCst) {
            1 => ViewUpdatePolicy::Eager,
            2 => ViewUpdatePolicy::Unique,
            _ => ViewUpdatePolicy::Lazy,
        }
    }
    fn version(&self) -> u64 {
        EV_VERSION.load(Ordering::SeqCst)
    }
}
impl bonsaidb_core::schema::view::DefaultViewSerialization for Ev {}
/// The key the view `ev` emits for a content in a mode.
pub fn ev_key(mode: i64, c: &Content) -> Option<i64> {
    match mode {
        0 => Some(i64::from(c.k)),
        1 => Some(i64::from(c.k) + 1000),
        2 => Some(c.v),
        _ => (c.k.rem_euclid(2) == 0).then_some(i64::from(c.k)),
    }
}
impl CollectionMapReduce for Ev {
    fn map<'doc>(&self, d: CollectionDocument<Ec>) -> ViewMapResult<'doc, Self> {
        let c = &d.contents.0;
        match EV_MODE.load(Ordering::SeqCst) {
            0 => d.header.emit_key_and_value(c.k, c.v),
            1 => d.header.emit_key_and_value(c.k + 1000, c.v),
            2 => d
                .header
                .emit_key_and_value(c.v as i32, i64::from(c.k)),
            _ => {
                if c.k.rem_euclid(2) == 1 {
                    Ok(bonsaidb_core::schema::view::map::Mappings::none())
                } else {
                    d.header.emit_key_and_value(c.k, c.v)
                }
            }
        }
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}

// ---------------------------------------------------------------- collection x (own encryption key)
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(transparent)]
pub struct X(pub Content);
impl Collection for X {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName {
        CollectionName::new("v", "x")
    }
    fn define_views(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_view(XByTag)?;
        schematic.define_view(XEByK)?;
        Ok(())
    }
    fn encryption_key() -> Option<KeyId> {
        if X_ENCRYPTED.load(Ordering::SeqCst) == 1 {
            Some(KeyId::Master)
        } else {
            None
        }
    }
}
pub static X_ENCRYPTED: AtomicI64 = AtomicI64::new(0);
content_format!(X);
plain_view!(XByTag, X, String, i64, "by-tag", ViewUpdatePolicy::Lazy);
impl MapReduce for XByTag {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = X::document_contents(d)?.0;
        c.tags
            .iter()
            .map(|t| d.header.emit_key_and_value(t.clone(), c.v))
            .collect()
    }
}
plain_view!(XEByK, X, i32, i64, "e-by-k", ViewUpdatePolicy::Eager);
impl MapReduce for XEByK {
    fn map<'doc>(&self, d: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let c = X::document_contents(d)?.0;
        d.header.emit_key_and_value(c.k, c.v)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _r: bool) -> ReduceResult<Self> {
        Ok(m.iter().map(|m| m.value).max().unwrap_or(-1))
    }
}

// ---------------------------------------------------------------- schemas
#[derive(Debug)]
pub struct Main;
impl Schema for Main {
    fn schema_name() -> SchemaName {
        SchemaName::new("v", "main")
    }
    fn define_collections(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_collection::<A>()?;
        schematic.define_collection::<B>()?;
        schematic.define_collection::<N>()?;
        schematic.define_collection::<Ec>()?;
        schematic.define_collection::<X>()?;
        Ok(())
    }
}
/// A second schema sharing collections with the first.
#[derive(Debug)]
pub struct Other;
impl Schema for Other {
    fn schema_name() -> SchemaName {
        SchemaName::new("v", "other")
    }
    fn define_collections(schematic: &mut Schematic) -> Result<(), bonsaidb_core::Error> {
        schematic.define_collection::<A>()?;
        schematic.define_collection::<B>()?;
        Ok(())
    }
}

// ---------------------------------------------------------------- integers <-> values
/// The strings drivers use as ids, tags and names; sorted, so that ranks order as they do.
pub struct Strings(pub Vec<String>);
impl Strings {
    pub fn new() -> Self {
        let mut v: Vec<String> = [
            "", "\0", "\0\u{1}", "0", "10", "9", "A", "Z", "a", "a\0", "a\0b", "a\u{1}", "aa", "ab", "ab\0", "abc",
            "abcd", "b", "ba", "key", "key2", "long-long-long-long-long-long-long-long-long-long-long-63",
            "tag", "tag1", "tag2", "z", "z\u{7f}", "~", "\u{e9}", "\u{7ff}", "\u{4e2d}\u{6587}", "\u{1f600}", "\u{10ffff}",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        v.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
        v.dedup();
        Self(v)
    }
    pub fn rank(&self, s: &str) -> i64 {
        self.0
            .iter()
            .position(|x| x == s)
            .map_or(-999, |p| p as i64)
    }
}
use std::sync::OnceLock;
pub fn strings() -> &'static Strings {
    static S: OnceLock<Strings> = OnceLock::new();
    S.get_or_init(Strings::new)
}

pub const TOP: i64 = 2_000_000_000;
pub fn enc_u64(x: u64) -> i64 {
    if x < 1_000_000_000 {
        x as i64
    } else if u64::MAX - x < 1_000_000 {
        TOP - (u64::MAX - x) as i64
    } else {
        1_500_000_000
    }
}
pub fn dec_u64(x: i64) -> u64 {
    if x < 1_000_000_000 {
        x as u64
    } else {
        u64::MAX - (TOP - x) as u64
    }
}
pub fn enc_i64(x: i64) -> i64 {
    if x.abs() < 1_000_000_000 {
        x
    } else if x > 0 && i64::MAX - x < 1_000_000 {
        TOP - (i64::MAX - x)
    } else if x < 0 && x - i64::MIN < 1_000_000 {
        -TOP + (x - i64::MIN)
    } else {
        1_500_000_000
    }
}
pub fn dec_i64(x: i64) -> i64 {
    if x.abs() < 1_000_000_000 {
        x
    } else if x > 0 {
        i64::MAX - (TOP - x)
    } else {
        i64::MIN + (x + TOP)
    }
}

/// A collection the generic drivers can work with.
pub trait CSpec: SerializedCollection<Contents = Self> + Clone + std::fmt::Debug + Send + Sync + Unpin + 'static
where
    Self::PrimaryKey: KeyEncoding<Self::PrimaryKey>,
{
    fn wrap(c: Content) -> Self;
    fn id(i: i64) -> Self::PrimaryKey;
    fn unid(i: &Self::PrimaryKey) -> i64;
    fn doc_id(i: i64) -> DocumentId {
        DocumentId::new(&Self::id(i)).unwrap()
    }
    fn un_doc_id(d: &DocumentId) -> i64 {
        d.deserialize::<Self::PrimaryKey>()
            .map_or(-777, |k| Self::unid(&k))
    }
}
macro_rules! cspec {
    ($t:ident, $dec:expr, $enc:expr) => {
        impl CSpec for $t {
            fn wrap(c: Content) -> Self {
                $t(c)
            }
            fn id(i: i64) -> <Self as Collection>::PrimaryKey {
                $dec(i)
            }
            fn unid(i: &<Self as Collection>::PrimaryKey) -> i64 {
                $enc(i)
            }
        }
    };
}
cspec!(A, dec_u64, |i: &u64| enc_u64(*i));
cspec!(N, dec_u64, |i: &u64| enc_u64(*i));
cspec!(X, dec_u64, |i: &u64| enc_u64(*i));
cspec!(Ec, dec_i64, |i: &i64| enc_i64(*i));
cspec!(B, |i: i64| strings().0[i as usize].clone(), |i: &String| strings().rank(i));

pub trait VSpec: SerializedView<Value = i64> {
    fn key(i: i64) -> Self::Key;
    fn unkey(k: &Self::Key) -> i64;
}
impl VSpec for ByK {
    fn key(i: i64) -> i32 {
        i as i32
    }
    fn unkey(k: &i32) -> i64 {
        i64::from(*k)
    }
}
impl VSpec for EByK {
    fn key(i: i64) -> i32 {
        i as i32
    }
    fn unkey(k: &i32) -> i64 {
        i64::from(*k)
    }
}
impl VSpec for XEByK {
    fn key(i: i64) -> i32 {
        i as i32
    }
    fn unkey(k: &i32) -> i64 {
        i64::from(*k)
    }
}
impl VSpec for BByK {
    fn key(i: i64) -> i32 {
        i as i32
    }
    fn unkey(k: &i32) -> i64 {
        i64::from(*k)
    }
}
impl VSpec for Ev {
    fn key(i: i64) -> i32 {
        i as i32
    }
    fn unkey(k: &i32) -> i64 {
        i64::from(*k)
    }
}
impl VSpec for OptK {
    // None sorts before every Some
    fn key(i: i64) -> Option<i32> {
        if i == -1_999_999_999 {
            None
        } else {
            Some(i as i32)
        }
    }
    fn unkey(k: &Option<i32>) -> i64 {
        k.map_or(-1_999_999_999, i64::from)
    }
}
macro_rules! string_view {
    ($t:ident) => {
        impl VSpec for $t {
            fn key(i: i64) -> String {
                strings().0[i as usize].clone()
            }
            fn unkey(k: &String) -> i64 {
                strings().rank(k)
            }
        }
    };
}
string_view!(ByTag);
string_view!(XByTag);
string_view!(UName);
string_view!(BUName);
impl VSpec for Comp {
    fn key(i: i64) -> (String, i32) {
        let r = i.div_euclid(100_000);
        (
            strings().0[r as usize].clone(),
            (i.rem_euclid(100_000) - 50_000) as i32,
        )
    }
    fn unkey(k: &(String, i32)) -> i64 {
        strings().rank(&k.0) * 100_000 + i64::from(k.1) + 50_000
    }
}

/// Bounds as the traces carry them: `[kind, value]`, kind 0 unbounded, 1 included, 2 excluded.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub struct Rg(pub (i64, i64), pub (i64, i64));
impl Rg {
    pub fn full() -> Self {
        Rg((0, 0), (0, 0))
    }
    pub fn to<T: Clone>(self, f: impl Fn(i64) -> T) -> Range<T> {
        let b = |(k, v): (i64, i64)| match k {
            0 => Bound::Unbounded,
            1 => Bound::Included(f(v)),
            _ => Bound::Excluded(f(v)),
        };
        Range {
            start: b(self.0),
            end: b(self.1),
        }
    }
    pub fn to_ref<'a, T: Clone + PartialEq + for<'k> Key<'k>>(
        self,
        f: impl Fn(i64) -> T,
    ) -> RangeRef<'a, T> {
        RangeRef::owned(self.to(f))
    }
}
pub fn _unused() {
    let _ = <A as Collection>::collection_name().name.as_ref();
    let _ = CollectionName::private("x");
}
