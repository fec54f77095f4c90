//! Programs that store documents under, and index them by, values of every key type.
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use anyhow::Result;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Bound, MaybeOwned, QueryKey, Range, RangeRef};
use bonsaidb_core::document::{BorrowedDocument, CollectionDocument, DocumentId, Emit};
use bonsaidb_core::key::time::limited as lim;
use bonsaidb_core::key::{EnumKey, IntoPrefixRange, Key, VarInt};
use bonsaidb_core::schema::view::map::ViewMappedValue;
use bonsaidb_core::schema::{
    Collection, CollectionName, MapReduce, Qualified, ReduceResult, Schema, SchemaName, Schematic,
    SerializedCollection, SerializedView, View, ViewMapResult, ViewSchema,
};
use bonsaidb_local::Database;
use bonsaidb_core::num_traits::{FromPrimitive, ToPrimitive};
use bonsaidb_core::ordered_varint::{Signed, Unsigned};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use uuid::Uuid;

use crate::util::*;

pub struct G {
    rng: StdRng,
    /// whether strings within composite keys may contain NUL
    nul: bool,
    /// how many composites surround the value
    depth: u32,
    long: bool,
}

/// `sign` and decimal digits -> a number the specification compares
fn num(neg: bool, mut v: u128) -> Value {
    let mut m = vec![];
    while v > 0 {
        m.push((v % 10_000) as u32);
        v /= 10_000;
    }
    m.reverse();
    json!({"k": "n", "s": if m.is_empty() { 0 } else if neg { -1 } else { 1 }, "m": m})
}
fn inum(v: i128) -> Value {
    num(v < 0, v.unsigned_abs())
}
fn runs(it: impl Iterator<Item = u32>) -> Value {
    let mut r: Vec<(u32, u32)> = vec![];
    for c in it {
        match r.last_mut() {
            Some((l, n)) if *l == c => *n += 1,
            _ => r.push((c, 1)),
        }
    }
    json!({"k": "b", "r": r})
}
fn variant(d: Value, f: Vec<Value>) -> Value {
    json!({"k": "v", "d": d, "f": f})
}

pub trait Case: for<'k> Key<'k> + Eq + Ord + Clone + Debug + 'static {
    fn gen(g: &mut G) -> Self;
    fn json(&self) -> Value;
    fn prefix(&self) -> Option<Range<Self>> {
        None
    }
}

fn int(g: &mut G, lo: i128, hi: u128) -> (bool, u128) {
    // within -|lo|..=hi
    let bits = g.rng.gen_range(0..128);
    let p = 1_u128 << bits;
    let few = g.depth > 0 && g.rng.gen_bool(0.6);
    let a = match if few { g.rng.gen_range(0..2) } else { g.rng.gen_range(0..8) } {
        0 | 1 => g.rng.gen_range(0..3),
        2 => p,
        3 => p - 1,
        4 => p + 1,
        5 => g.rng.gen::<u128>() % p,
        6 => u128::MAX,
        _ => u128::MAX - 1,
    };
    let neg = lo < 0 && g.rng.gen();
    if neg {
        (true, a.min(lo.unsigned_abs()))
    } else if a > hi && g.rng.gen() {
        (false, a % hi)
    } else {
        (false, a.min(hi))
    }
}
macro_rules! ints {
    ($($t:ident $k:literal),*) => {$(
        impl Case for $t {
            fn gen(g: &mut G) -> Self {
                let (n, a) = int(g, <$t>::MIN as i128, <$t>::MAX as u128);
                if n { (a as i128).wrapping_neg() as $t } else { a as $t }
            }
            fn json(&self) -> Value {
                #[allow(unused_comparisons)]
                let mut v = num(*self < 0, if *self < 0 { (*self as i128).unsigned_abs() } else { *self as u128 });
                v["k"] = $k.into();
                v
            }
        }
    )*};
}
ints!(u8 "n", u16 "n", u32 "n", u64 "n", u128 "n", usize "n", isize "n", i8 "x", i16 "x", i32 "x", i64 "x", i128 "x");
macro_rules! nonzero {
    ($($t:ident $p:ident),*) => {$(
        impl Case for $t {
            fn gen(g: &mut G) -> Self {
                loop {
                    if let Some(v) = Self::new($p::gen(g)) { return v; }
                }
            }
            fn json(&self) -> Value { self.get().json() }
        }
    )*};
}
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize,
    NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize);
macro_rules! varints {
    ($($t:ident),*) => {$(
        impl Case for VarInt<$t> {
            fn gen(g: &mut G) -> Self { VarInt($t::gen(g)) }
            fn json(&self) -> Value { let mut v = self.0.json(); v["k"] = "n".into(); v }
        }
    )*};
}
varints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Case for Signed {
    fn gen(g: &mut G) -> Self {
        Signed::from(i128::gen(g))
    }
    fn json(&self) -> Value {
        inum(i128::try_from(*self).unwrap())
    }
}
impl Case for Unsigned {
    fn gen(g: &mut G) -> Self {
        Unsigned::from(u128::gen(g))
    }
    fn json(&self) -> Value {
        num(false, u128::try_from(*self).unwrap())
    }
}
impl Case for bool {
    fn gen(g: &mut G) -> Self {
        g.rng.gen()
    }
    fn json(&self) -> Value {
        num(false, u128::from(*self))
    }
}
impl Case for () {
    fn gen(_: &mut G) -> Self {}
    fn json(&self) -> Value {
        json!({"k": "t", "f": []})
    }
}
impl Case for String {
    fn gen(g: &mut G) -> Self {
        const C: &[char] = &[
            'a', 'b', 'a', 'b', '\u{1}', '\u{2}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}',
            '\u{10000}', '\u{10ffff}', '\0', '\0',
        ];
        let n = C.len() - if g.depth == 0 || g.nul { 0 } else { 2 };
        if g.long && g.rng.gen_bool(0.4) {
            let len = g.len();
            let mut s: String = std::iter::repeat('a').take(len).collect();
            if g.rng.gen_bool(0.4) {
                s.pop();
                s.push(C[g.rng.gen_range(0..n)]);
            }
            return s;
        }
        (0..g.rng.gen_range(0..4)).map(|_| C[g.rng.gen_range(0..n)]).collect()
    }
    fn json(&self) -> Value {
        runs(self.chars().map(u32::from))
    }
    fn prefix(&self) -> Option<Range<Self>> {
        own(self.to_prefix_range())
    }
}
impl G {
    fn len(&mut self) -> usize {
        let l = *[126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 60000].choose(&mut self.rng).unwrap();
        if l > 300 && self.rng.gen_bool(0.5) { 128 } else { l }
    }
    fn bytes(&mut self) -> Vec<u8> {
        const C: &[u8] = &[1, 2, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0xff, 0, 0];
        let n = C.len() - if self.depth == 0 || self.nul { 0 } else { 2 };
        if self.long && self.rng.gen_bool(0.4) {
            let len = self.len();
            let mut v = vec![if self.rng.gen() { 1 } else { 0xff }; len];
            if self.rng.gen_bool(0.4) {
                *v.last_mut().unwrap() = C[self.rng.gen_range(0..n)];
            }
            return v;
        }
        (0..self.rng.gen_range(0..4)).map(|_| C[self.rng.gen_range(0..n)]).collect()
    }
    /// a part of a composite key
    fn part<T: Case>(&mut self) -> T {
        self.depth += 1;
        let v = T::gen(self);
        self.depth -= 1;
        v
    }
}
fn own<T: Case>(r: RangeRef<'_, T>) -> Option<Range<T>> {
    let b = |b: bonsaidb_core::connection::BoundRef<'_, T>| match b {
        bonsaidb_core::connection::BoundRef::Unbounded => Bound::Unbounded,
        bonsaidb_core::connection::BoundRef::Included(v) => Bound::Included((*v).clone()),
        bonsaidb_core::connection::BoundRef::Excluded(v) => Bound::Excluded((*v).clone()),
    };
    Some(Range { start: b(r.start), end: b(r.end) })
}
impl Case for Vec<u8> {
    fn gen(g: &mut G) -> Self {
        g.bytes()
    }
    fn json(&self) -> Value {
        runs(self.iter().map(|b| u32::from(*b)))
    }
    fn prefix(&self) -> Option<Range<Self>> {
        own(self.to_prefix_range())
    }
}
impl Case for Bytes {
    fn gen(g: &mut G) -> Self {
        Bytes::from(g.bytes())
    }
    fn json(&self) -> Value {
        runs(self.iter().map(|b| u32::from(*b)))
    }
    fn prefix(&self) -> Option<Range<Self>> {
        own(self.to_prefix_range())
    }
}
impl<const N: usize> Case for [u8; N] {
    fn gen(g: &mut G) -> Self {
        let mut a = [0; N];
        for b in &mut a {
            *b = *[0, 0, 1, 0x7f, 0x80, 0xff].choose(&mut g.rng).unwrap();
        }
        a
    }
    fn json(&self) -> Value {
        runs(self.iter().map(|b| u32::from(*b)))
    }
}
impl Case for Uuid {
    fn gen(g: &mut G) -> Self {
        Uuid::from_bytes(<[u8; 16]>::gen(g))
    }
    fn json(&self) -> Value {
        self.as_bytes().json()
    }
}
impl Case for DocumentId {
    fn gen(g: &mut G) -> Self {
        let long = std::mem::replace(&mut g.long, false);
        let b = g.bytes();
        g.long = long;
        DocumentId::new(&b).unwrap()
    }
    fn json(&self) -> Value {
        runs(self.iter().map(|b| u32::from(*b)))
    }
}
impl<T: Case> Case for Option<T> {
    fn gen(g: &mut G) -> Self {
        g.rng.gen_bool(0.7).then(|| T::gen(g))
    }
    fn json(&self) -> Value {
        match self {
            None => variant(inum(0), vec![]),
            Some(v) => variant(inum(1), vec![v.json()]),
        }
    }
}
impl<T: Case, E> Case for std::result::Result<T, E>
where
    E: Case + for<'k> Key<'k, Error = T::Error>,
{
    fn gen(g: &mut G) -> Self {
        if g.rng.gen() { Ok(T::gen(g)) } else { Err(E::gen(g)) }
    }
    fn json(&self) -> Value {
        match self {
            Ok(v) => variant(inum(0), vec![v.json()]),
            Err(v) => variant(inum(1), vec![v.json()]),
        }
    }
}
macro_rules! tuples {
    ($($($t:ident $i:tt),+;)*) => {$(
        impl<$($t: Case),+> Case for ($($t,)+) {
            fn gen(g: &mut G) -> Self { ($(g.part::<$t>(),)+) }
            fn json(&self) -> Value { json!({"k": "t", "f": [$(self.$i.json()),+]}) }
        }
    )*};
}
tuples! {
    A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, H 6; A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7;
}
impl Case for Duration {
    fn gen(g: &mut G) -> Self {
        let s = u64::gen(g);
        let n = *[0, 1, 999_999_999, 1_000, 500_000_000].choose(&mut g.rng).unwrap();
        Duration::new(s, n)
    }
    fn json(&self) -> Value {
        num(false, self.as_nanos())
    }
}
impl Case for SystemTime {
    fn gen(g: &mut G) -> Self {
        let s = u64::gen(g) % (1 << 62);
        let d = Duration::new(s, g.rng.gen_range(0..3));
        // what is inside of another key has to be storable
        if g.depth == 0 && g.rng.gen_bool(0.2) { UNIX_EPOCH - Duration::new(s % 1000, 1) } else { UNIX_EPOCH + d }
    }
    fn json(&self) -> Value {
        match self.duration_since(UNIX_EPOCH) {
            Ok(d) => num(false, d.as_nanos()),
            Err(e) => num(true, e.duration().as_nanos()),
        }
    }
}
impl<R> Case for lim::LimitedResolutionDuration<R>
where
    R: lim::TimeResolution + 'static,
    R::Representation: Case,
{
    fn gen(g: &mut G) -> Self {
        Self::new(R::Representation::gen(g))
    }
    fn json(&self) -> Value {
        let mut v = self.representation().json();
        v["k"] = "n".into();
        v
    }
}
impl<R, E> Case for lim::LimitedResolutionTimestamp<R, E>
where
    R: lim::TimeResolution + 'static,
    R::Representation: Case,
    E: lim::TimeEpoch + 'static,
{
    fn gen(g: &mut G) -> Self {
        Self::from_representation(R::Representation::gen(g))
    }
    fn json(&self) -> Value {
        let mut v = self.representation().json();
        v["k"] = "n".into();
        v
    }
}

// ---- derived keys

#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct New(pub u32);
impl Case for New {
    fn gen(g: &mut G) -> Self {
        Self(u32::gen(g))
    }
    fn json(&self) -> Value {
        self.0.json()
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct NewNamed {
    pub name: String,
}
impl Case for NewNamed {
    fn gen(g: &mut G) -> Self {
        Self { name: String::gen(g) }
    }
    fn json(&self) -> Value {
        self.name.json()
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub struct UnitStruct;
impl Case for UnitStruct {
    fn gen(_: &mut G) -> Self {
        Self
    }
    fn json(&self) -> Value {
        json!({"k": "t", "f": []})
    }
}
macro_rules! structs {
    ($($(#[$m:meta])* $n:ident { $($f:ident: $t:ty),+ })*) => {$(
        #[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[key(core = bonsaidb_core)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t),+ }
        impl Case for $n {
            fn gen(g: &mut G) -> Self { Self { $($f: g.part::<$t>()),+ } }
            fn json(&self) -> Value { json!({"k": "t", "f": [$(self.$f.json()),+]}) }
        }
    )*};
}
structs! {
    Fixed { a: u16, b: u32 }
    Vary { a: String, b: Vec<u8>, c: u8 }
    Opts { a: Option<u32>, b: String, c: Option<u8> }
    OptVary { a: Option<String>, b: Option<Vec<u8>>, c: Option<bool> }
    Nested { a: Fixed, b: Vary, c: (u8, String) }
    Units { a: (), b: u8, c: UnitStruct, d: Option<()> }
    Timed { a: Duration, b: lim::LimitedResolutionTimestamp<lim::Milliseconds, lim::BonsaiEpoch>, c: u8 }
    Enums { a: Plain, b: Repr8, c: Mixed }
}
// how NUL is handled makes a difference for composite keys only
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = allow)]
pub struct Allow {
    pub a: String,
    pub b: Vec<u8>,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = deny)]
pub struct Deny(pub Vec<u8>, pub String);
impl Case for Allow {
    fn gen(g: &mut G) -> Self {
        Self { a: g.part(), b: g.part() }
    }
    fn json(&self) -> Value {
        json!({"k": "t", "f": [self.a.json(), self.b.json()]})
    }
}
impl Case for Deny {
    fn gen(g: &mut G) -> Self {
        Self(g.part(), g.part())
    }
    fn json(&self) -> Value {
        json!({"k": "t", "f": [self.0.json(), self.1.json()]})
    }
}
macro_rules! enums {
    ($($(#[$m:meta])* $k:literal $n:ident { $($v:ident = $d:literal),+ })*) => {$(
        #[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        #[key(core = bonsaidb_core)]
        $(#[$m])*
        pub enum $n { $($v = $d),+ }
        impl Case for $n {
            fn gen(g: &mut G) -> Self { *[$(Self::$v),+].choose(&mut g.rng).unwrap() }
            fn json(&self) -> Value {
                let mut d = match self { $(Self::$v => inum($d)),+ };
                d["k"] = $k.into();
                variant(d, vec![])
            }
        }
    )*};
}
enums! {
    "n" Plain { A = 0, B = 1, C = 2, D = 300, E = 70000 }
    "n" Negative { A = -5, B = -1, C = 0, D = 7, E = 8, F = -300 }
    #[repr(u8)] "n" Repr8 { A = 3, B = 200, C = 1 }
    #[repr(u32)] "n" Repr32 { A = 0xFF00_00FF, B = 0x00FF_00FF, C = 0x0000_FFFF }
    #[repr(i16)] "x" ReprI16 { A = -2, B = -1, C = 1, D = 256 }
    #[key(enum_repr = u16)] "n" AsU16 { A = 9, B = 256, C = 255 }
    #[key(enum_repr = usize)] #[repr(u64)] "n" AsUsize { A = 9, B = 256, C = 255 }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
pub enum Mixed {
    None,
    One(u8),
    Named { a: String, b: Option<u16> },
    Two(Vec<u8>, String),
    Last,
}
impl Case for Mixed {
    fn gen(g: &mut G) -> Self {
        match g.rng.gen_range(0..8) {
            0 => Self::None,
            1 | 2 => Self::One(g.part()),
            3 | 4 => Self::Named { a: g.part(), b: g.part() },
            5 | 6 => Self::Two(g.part(), g.part()),
            _ => Self::Last,
        }
    }
    fn json(&self) -> Value {
        match self {
            Self::None => variant(inum(0), vec![]),
            Self::One(a) => variant(inum(1), vec![a.json()]),
            Self::Named { a, b } => variant(inum(2), vec![a.json(), b.json()]),
            Self::Two(a, b) => variant(inum(3), vec![a.json(), b.json()]),
            Self::Last => variant(inum(4), vec![]),
        }
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, enum_repr = u8, can_own_bytes = true)]
pub enum MixedU8 {
    A(String),
    B,
    C(u64, String),
}
impl Case for MixedU8 {
    fn gen(g: &mut G) -> Self {
        match g.rng.gen_range(0..5) {
            0 | 1 => Self::A(g.part()),
            2 => Self::B,
            _ => Self::C(g.part(), g.part()),
        }
    }
    fn json(&self) -> Value {
        match self {
            Self::A(a) => variant(inum(0), vec![a.json()]),
            Self::B => variant(inum(1), vec![]),
            Self::C(a, b) => variant(inum(2), vec![a.json(), b.json()]),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Prim {
    A = 0,
    B = 15,
    C = 16,
    D = 5000,
}
impl ToPrimitive for Prim {
    fn to_i64(&self) -> Option<i64> {
        Some(*self as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(*self as u64)
    }
}
impl FromPrimitive for Prim {
    fn from_i64(n: i64) -> Option<Self> {
        Self::from_u64(n as u64)
    }
    fn from_u64(n: u64) -> Option<Self> {
        [Self::A, Self::B, Self::C, Self::D].into_iter().find(|v| *v as u64 == n)
    }
}
impl Case for EnumKey<Prim> {
    fn gen(g: &mut G) -> Self {
        Self(*[Prim::A, Prim::B, Prim::C, Prim::D].choose(&mut g.rng).unwrap())
    }
    fn json(&self) -> Value {
        inum(self.0 as i128)
    }
}

// ---- the schema: documents are numbers of values, which a view maps to the values

pub static TABLES: parking_lot::Mutex<Option<HashMap<(TypeId, u32), Box<dyn Any + Send>>>> = parking_lot::Mutex::new(None);

fn table<K: Case>(tag: u32) -> Vec<K> {
    TABLES.lock().as_ref().unwrap()[&(TypeId::of::<K>(), tag)].downcast_ref::<Vec<K>>().unwrap().clone()
}

pub struct Col<K>(PhantomData<K>);
impl<K> Debug for Col<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Col")
    }
}
impl<K: Case> Collection for Col<K> {
    type PrimaryKey = K;
    fn collection_name() -> CollectionName {
        CollectionName::private("col")
    }
    fn define_views(schema: &mut Schematic) -> std::result::Result<(), bonsaidb_core::Error> {
        schema.define_view(ByKey::<K>(PhantomData))
    }
}
#[derive(Clone)]
pub struct ByKey<K>(PhantomData<K>);
impl<K> Debug for ByKey<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ByKey")
    }
}
impl<K: Case> SerializedCollection for Col<K> {
    type Contents = (u32, u32);
    type Format = bonsaidb_core::transmog_pot::Pot;
    fn format() -> Self::Format {
        Self::Format::default()
    }
}
impl<K: Case> View for ByKey<K> {
    type Collection = Col<K>;
    type Key = K;
    type Value = u32;
    fn name(&self) -> bonsaidb_core::schema::Name {
        bonsaidb_core::schema::Name::new("by-key")
    }
}
impl<K: Case> SerializedView for ByKey<K> {
    type Format = bonsaidb_core::transmog_pot::Pot;
    fn format() -> Self::Format {
        Self::Format::default()
    }
}
impl<K: Case> ViewSchema for ByKey<K> {
    type View = Self;
    type MappedKey<'doc> = K;
}
impl<K: Case> MapReduce for ByKey<K> {
    fn map<'doc>(&self, doc: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
        let (tag, c) = Col::<K>::document_contents(doc)?;
        doc.header.emit_key_and_value(table::<K>(tag)[c as usize - 1].clone(), 1)
    }
    fn reduce(&self, m: &[ViewMappedValue<'_, Self>], _: bool) -> ReduceResult<Self::View> {
        Ok(m.iter().map(|m| m.value).sum())
    }
}
pub struct Sch<K>(PhantomData<K>);
impl<K> Debug for Sch<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sch")
    }
}
impl<K: Case> Schema for Sch<K> {
    fn schema_name() -> SchemaName {
        SchemaName::private("keys")
    }
    fn define_collections(schema: &mut Schematic) -> std::result::Result<(), bonsaidb_core::Error> {
        schema.define_collection::<Col<K>>()
    }
}

// ---- programs

fn err(e: &bonsaidb_core::Error) -> Value {
    use bonsaidb_core::Error as E;
    match e {
        E::DocumentConflict(..) => json!({"t": "conflict"}),
        E::DocumentNotFound(..) => json!({"t": "notfound"}),
        E::DocumentPush(_, bonsaidb_core::key::NextValueError::Unsupported) => json!({"t": "unsup"}),
        E::DocumentPush(_, bonsaidb_core::key::NextValueError::WouldWrap) => json!({"t": "wrap"}),
        E::DocumentIdTooLong => json!({"t": "idlong"}),
        e => json!({"t": "err", "m": e.to_string()}),
    }
}

struct Prog<'a, K: Case> {
    g: G,
    vals: Vec<K>,
    /// values that may be ids, and those that may be keys of views
    ids: Vec<usize>,
    keys: Vec<usize>,
    tag: u32,
    nul: bool,
    out: &'a mut Out,
}

impl<'a, K: Case> Prog<'a, K> {
    fn idx(&self, k: &K) -> i64 {
        self.vals.iter().position(|v| v == k).map_or(-1, |i| i as i64 + 1)
    }
    fn bound(&mut self, of: &[usize]) -> (Value, Bound<K>) {
        let i = *of.choose(&mut self.g.rng).unwrap();
        match self.g.rng.gen_range(0..5) {
            0 => (json!([0, 1]), Bound::Unbounded),
            1 | 2 => (json!([1, i]), Bound::Included(self.vals[i - 1].clone())),
            _ => (json!([2, i]), Bound::Excluded(self.vals[i - 1].clone())),
        }
    }
    fn query(&mut self, of: &[usize]) -> (Value, Q<K>) {
        let i = *of.choose(&mut self.g.rng).unwrap();
        let n = if self.nul { self.g.rng.gen_range(0..4) } else { self.g.rng.gen_range(0..11) };
        match n {
            0 | 1 => (json!({"t": "all"}), Q::Range(Range { start: Bound::Unbounded, end: Bound::Unbounded })),
            2 => (json!({"t": "key", "i": i}), Q::Key(self.vals[i - 1].clone())),
            3 => {
                let mut is: Vec<usize> = (0..self.g.rng.gen_range(0..4)).map(|_| *of.choose(&mut self.g.rng).unwrap()).collect();
                is.sort_unstable();
                is.dedup();
                (json!({"t": "keys", "is": is}), Q::Keys(is.iter().map(|i| self.vals[i - 1].clone()).collect()))
            }
            4..=6 if self.vals[i - 1].prefix().is_some() => {
                (json!({"t": "prefix", "i": i}), Q::Range(self.vals[i - 1].prefix().unwrap()))
            }
            _ => {
                let (mut l, mut h) = (self.bound(of), self.bound(of));
                // bounds the wrong way round are another matter
                if let (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) = (&l.1, &h.1) {
                    if a > b {
                        std::mem::swap(&mut l, &mut h);
                    }
                }
                (json!({"t": "range", "lo": l.0, "hi": h.0}), Q::Range(Range { start: l.1, end: h.1 }))
            }
        }
    }
    fn step(&mut self, db: &Database) -> Value {
        let ids = self.ids.clone();
        let keys = self.keys.clone();
        let i = *ids.choose(&mut self.g.rng).unwrap();
        let c = *keys.choose(&mut self.g.rng).unwrap();
        let id = self.vals[i - 1].clone();
        let content = (self.tag, c as u32);
        let desc = self.g.rng.gen_bool(0.4);
        let lim = (!self.nul && self.g.rng.gen_bool(0.3)).then(|| self.g.rng.gen_range(1..4_u32));
        let opts = json!({"desc": u8::from(desc), "lim": lim.map_or(-1, i64::from)});
        match self.g.rng.gen_range(0..100) {
            0..=24 => {
                let o = json!({"o": "ins", "i": i, "c": c});
                let r = guard(|| Col::<K>::insert(&id, content, db).map(|d| d.header.id));
                let r = match r {
                    Some(Ok(k)) => json!({"t": "ok", "i": self.idx(&k)}),
                    Some(Err(e)) => err(&e.error),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            25..=32 => {
                let o = json!({"o": "put", "i": i, "c": c});
                let r = match guard(|| Col::<K>::overwrite(&id, content, db)) {
                    Some(Ok(d)) => json!({"t": "ok", "i": self.idx(&d.header.id)}),
                    Some(Err(e)) => err(&e.error),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            33..=39 => {
                let o = json!({"o": "del", "i": i});
                let r = match guard(|| match Col::<K>::get(&id, db)? {
                    Some(d) => d.delete(db).map(|()| true),
                    None => Ok(false),
                }) {
                    Some(Ok(b)) => json!({"t": "ok", "d": u8::from(b)}),
                    Some(Err(e)) => err(&e),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            40..=47 => {
                let o = json!({"o": "push", "c": c});
                let r = match guard(|| Col::<K>::push(content, db)) {
                    Some(Ok(d)) => {
                        let k = d.header.id;
                        if self.idx(&k) < 0 {
                            self.vals.push(k);
                            self.ids.push(self.vals.len());
                            TABLES.lock().as_mut().unwrap().insert((TypeId::of::<K>(), self.tag), Box::new(self.vals.clone()));
                            json!({"t": "ok", "i": self.vals.len(), "n": self.vals.last().unwrap().json()})
                        } else {
                            json!({"t": "ok", "i": self.idx(&k)})
                        }
                    }
                    Some(Err(e)) => err(&e.error),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            48..=55 => {
                let o = json!({"o": "get", "i": i});
                let r = match guard(|| Col::<K>::get(&id, db)) {
                    Some(Ok(d)) => json!({"t": "ok", "r": d.iter().map(|d| json!([self.idx(&d.header.id), d.contents.1])).collect::<Vec<_>>()}),
                    Some(Err(e)) => err(&e),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            56..=73 => {
                let (q, query) = self.query(&ids);
                let o = json!({"o": "list", "q": q, "p": opts});
                let r = guard(|| -> std::result::Result<Vec<CollectionDocument<Col<K>>>, bonsaidb_core::Error> {
                    match &query {
                        Q::Range(r) => {
                            let mut l = Col::<K>::list(RangeRef::owned(r.clone()), db);
                            l = if desc { l.descending() } else { l.ascending() };
                            if let Some(n) = lim {
                                l = l.limit(n);
                            }
                            l.query()
                        }
                        Q::Key(k) => Col::<K>::get_multiple(std::iter::once(k), db),
                        Q::Keys(ks) => Col::<K>::get_multiple(ks.iter(), db),
                    }
                });
                let r = match r {
                    Some(Ok(d)) => json!({"t": "ok", "r": d.iter().map(|d| json!([self.idx(&d.header.id), d.contents.1])).collect::<Vec<_>>()}),
                    Some(Err(e)) => err(&e),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            // what is sent to a server
            74..=77 => {
                let (q, query) = self.query(&keys);
                let o = json!({"o": "wire", "q": q});
                let r = guard(|| -> std::result::Result<Q<K>, bonsaidb_core::Error> {
                    let key = match &query {
                        Q::Range(r) => QueryKey::Range(RangeRef::owned(r.clone())),
                        Q::Key(k) => QueryKey::Matches(MaybeOwned::Owned(k.clone())),
                        Q::Keys(ks) => QueryKey::Multiple(ks.iter().cloned().map(MaybeOwned::Owned).collect()),
                    };
                    Ok(match key.serialized()?.deserialized::<K>()? {
                        QueryKey::Range(r) => Q::Range(own(r).unwrap()),
                        QueryKey::Matches(k) => Q::Key((*k).clone()),
                        QueryKey::Multiple(ks) => Q::Keys(ks.iter().map(|k| (**k).clone()).collect()),
                    })
                });
                let r = match r {
                    Some(Ok(back)) => {
                        let b = |b: &Bound<K>| match b {
                            Bound::Unbounded => json!([0, 1]),
                            Bound::Included(v) => json!([1, self.idx(v)]),
                            Bound::Excluded(v) => json!([2, self.idx(v)]),
                        };
                        json!({"t": "ok", "q": match (&back, &query) {
                            (Q::Key(k), _) => json!({"t": "key", "i": self.idx(k)}),
                            (Q::Keys(k), _) => json!({"t": "keys", "is": k.iter().map(|k| self.idx(k)).collect::<Vec<_>>()}),
                            (Q::Range(r), Q::Range(of)) if q["t"] == "prefix" && r == of => q.clone(),
                            (Q::Range(r), _) if matches!((&r.start, &r.end), (Bound::Unbounded, Bound::Unbounded)) => json!({"t": "all"}),
                            (Q::Range(r), _) => json!({"t": "range", "lo": b(&r.start), "hi": b(&r.end)}),
                        }})
                    }
                    Some(Err(e)) => err(&e),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
            n => {
                let (q, query) = self.query(&keys);
                let group = n >= 94;
                let o = json!({"o": if group { "group" } else { "view" }, "q": q, "p": opts});
                let r = guard(|| -> std::result::Result<Vec<(K, Option<K>, u32)>, bonsaidb_core::Error> {
                    let mut v = ByKey::<K>::entries(db);
                    v = match &query {
                        Q::Range(r) => v.with_key_range(RangeRef::owned(r.clone())),
                        Q::Key(k) => v.with_key(k),
                        Q::Keys(ks) => v.with_keys(ks.iter()),
                    };
                    if group {
                        return v.reduce_grouped().map(|r| r.into_iter().map(|m| (m.key, None, m.value)).collect::<Vec<_>>());
                    }
                    v = if desc { v.descending() } else { v.ascending() };
                    if let Some(n) = lim {
                        v = v.limit(n);
                    }
                    v.query().map(|r| r.into_iter().map(|m| (m.key, Some(m.source.id), m.value)).collect())
                });
                let r = match r {
                    Some(Ok(rows)) => {
                        let rows: Vec<Value> = rows
                            .iter()
                            .map(|(k, id, v)| match id {
                                Some(id) => json!([self.idx(k), self.idx(id), v]),
                                None => json!([self.idx(k), v]),
                            })
                            .collect();
                        json!({"t": "ok", "r": rows})
                    }
                    Some(Err(e)) => err(&e),
                    None => json!({"t": "panic"}),
                };
                json!({"o": o, "r": r})
            }
        }
    }
}
enum Q<K> {
    Range(Range<K>),
    Key(K),
    Keys(Vec<K>),
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn scenario<K: Case>(name: &str, out: &mut Out, seed: u64, tag: u32, ops: u64) -> Result<()> {
    let mut rng = StdRng::seed_from_u64(seed);
    let nul = rng.gen_bool(0.15);
    let long = rng.gen_bool(0.25);
    let mut g = G { rng, nul, depth: 0, long };
    let mut vals: Vec<K> = vec![];
    for _ in 0..24 {
        let v = K::gen(&mut g);
        if !vals.contains(&v) && vals.len() < 14 {
            vals.push(v);
        }
    }
    let (mut ids, mut keys) = (vec![], vec![]);
    for (i, v) in vals.iter().enumerate() {
        match guard(|| v.as_ord_bytes().map(|b| b.len())) {
            Some(Ok(len)) => {
                if len <= DocumentId::MAX_LENGTH {
                    ids.push(i + 1);
                }
                // what the storage can hold
                if len <= 60_000 {
                    keys.push(i + 1);
                }
            }
            _ => ids.push(i + 1),
        }
    }
    if keys.is_empty() {
        // nothing that can be stored
        return Ok(());
    }
    if ids.is_empty() {
        let v = (0..1000).map(|_| { g.long = false; K::gen(&mut g) }).find(|v| {
            matches!(guard(|| v.as_ord_bytes().map(|b| b.len())), Some(Ok(n)) if n <= DocumentId::MAX_LENGTH)
        });
        let Some(v) = v else { return Ok(()) };
        let at = vals.iter().position(|o| *o == v).unwrap_or(vals.len());
        if at == vals.len() {
            vals.push(v);
        }
        ids.push(at + 1);
    }
    TABLES.lock().get_or_insert_with(HashMap::new).insert((TypeId::of::<K>(), tag), Box::new(vals.clone()));
    out.line(&json!({"e": "type", "name": name, "nul": u8::from(nul), "vals": vals.iter().map(Case::json).collect::<Vec<_>>()}));
    let dir = Scratch::new("keys");
    let kind = if g.rng.gen_bool(0.3) { 4 } else { 0 };
    let open = |dir: &Path| Database::open::<Sch<K>>(config(kind, dir));
    let mut db = open(&dir.0)?;
    let mut p = Prog { g, vals, ids, keys, tag, nul, out };
    for _ in 0..ops {
        if kind == 0 && p.g.rng.gen_bool(0.02) {
            // (see the finding log-lookup of C04)
            if !p.ids.iter().any(|i| matches!(guard(|| p.vals[i - 1].as_ord_bytes().map(|b| b.len())), Some(Ok(700..)))) {
                drop(db);
                db = open(&dir.0)?;
            }
            continue;
        }
        let v = p.step(&db);
        let dead = v["r"]["t"] == "panic";
        p.out.line(&json!({"e": "op", "o": v["o"], "r": v["r"]}));
        if dead {
            break;
        }
    }
    Ok(())
}

type Run = fn(&str, &mut Out, u64, u32, u64) -> Result<()>;
macro_rules! types {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), scenario::<$t> as Run)),*] };
}
type Ms = lim::LimitedResolutionTimestamp<lim::Milliseconds, lim::BonsaiEpoch>;
type R<A, B> = std::result::Result<A, B>;
static TYPES: &[(&str, Run)] = types![
    u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
    NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize,
    Signed, Unsigned,
    VarInt<u8>, VarInt<u16>, VarInt<u32>, VarInt<u64>, VarInt<u128>, VarInt<usize>,
    VarInt<i8>, VarInt<i16>, VarInt<i32>, VarInt<i64>, VarInt<i128>, VarInt<isize>,
    bool, (), String, Vec<u8>, Bytes, [u8; 1], [u8; 3], Uuid, DocumentId,
    Option<u16>, Option<String>, Option<i32>, Option<Option<u8>>, Option<(u8, String)>,
    R<u8, u16>, R<String, String>, R<Option<u32>, u8>,
    (u8,), (String,), (u16, u8), (String, u8), (String, String), (Option<u32>, String),
    (Vec<u8>, u16, Option<u16>), ((String, u8), (u8, String)), (isize, Option<String>), (R<u8, u16>, u8),
    (u8, u8, u8, u8), (bool, String, VarInt<i32>, u8, i8), (u8, String, (), [u8; 2], Option<()>, u16),
    (u8, String, u8, String, u8, String, u8), (String, String, String, u8, u8, u8, Vec<u8>, Option<bool>),
    (Option<u32>, Option<u32>), (Option<Option<u8>>, Vec<u8>), (Option<(u16, u8)>, u8),
    Duration, SystemTime, (Duration, u8), Option<Duration>,
    lim::LimitedResolutionDuration<lim::Weeks>, lim::LimitedResolutionDuration<lim::Days>,
    lim::LimitedResolutionDuration<lim::Hours>, lim::LimitedResolutionDuration<lim::Minutes>,
    lim::LimitedResolutionDuration<lim::Seconds>, lim::LimitedResolutionDuration<lim::Nanoseconds>,
    lim::LimitedResolutionTimestamp<lim::Microseconds, lim::UnixEpoch>, Ms, (Ms, String),
    New, NewNamed, UnitStruct, Fixed, Vary, Opts, OptVary, Nested, Units, Timed, Enums, Allow, Deny,
    Plain, Negative, Repr8, Repr32, ReprI16, AsU16, AsUsize, Mixed, MixedU8, EnumKey<Prim>,
    (Mixed, u8), Option<Plain>, (Repr32, Negative),
];

pub fn run(args: &Args) -> Result<()> {
    let seed = args.n("seed", 1);
    let n = args.n("types", 10);
    let ops = args.n("ops", 60);
    let mut out = Out::new(&args.s("out", "/tmp/keys.ndjson"));
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {i}")));
    // the types one after another, seed by seed
    for k in 0..n {
        let i = (seed.wrapping_mul(n) + k) as usize % TYPES.len();
        let (name, f) = TYPES[i];
        f(name, &mut out, seed.wrapping_mul(1000) + k, k as u32, ops)?;
    }
    out.flush();
    Ok(())
}
