//! The operations drivers perform, as they appear in traces.
use std::collections::HashMap;

use bonsaidb_core::document::{Header, Revision};
use bonsaidb_core::schema::SerializedCollection;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::schema::*;

/// A revision as traces carry it: number and content id. `r == -1` is "none".
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub struct Rev {
    pub r: i64,
    pub h: i64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(tag = "k", rename_all = "lowercase")]
pub enum TxOp {
    /// id -1 with push = 1: assign an id
    Ins { c: String, id: i64, push: i64, ct: i64 },
    Upd { c: String, id: i64, rev: Rev, ct: i64 },
    Ovr { c: String, id: i64, ct: i64 },
    Del { c: String, id: i64, rev: Rev },
    Chk { c: String, id: i64, rev: Rev },
}

/// A view selection. kind: all, key, keys, range, prefix.
#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(tag = "s", rename_all = "lowercase")]
pub enum Sel {
    All,
    Key { k: i64 },
    Keys { ks: Vec<i64> },
    Range { rg: Rg },
    Prefix { k: i64 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(tag = "op", rename_all = "lowercase")]
pub enum Op {
    /// via: 0 = one transaction; 1 = the collection functions (single operation only)
    Tx { via: i64, ops: Vec<TxOp> },
    Get { c: String, id: i64, via: i64 },
    GetMulti { c: String, ids: Vec<i64>, via: i64 },
    /// kind: docs, headers, count
    List { c: String, kind: String, rg: Rg, desc: i64, lim: i64, via: i64 },
    /// ids with a prefix (string ids)
    ListPre { c: String, kind: String, pre: i64, desc: i64, lim: i64 },
    /// pol: before, after, none; docs: 0/1/2 (2: typed documents)
    Query { c: String, v: String, sel: Sel, desc: i64, lim: i64, pol: String, docs: i64, via: i64 },
    Reduce { c: String, v: String, sel: Sel, pol: String },
    Grouped { c: String, v: String, sel: Sel, pol: String },
    DelView { c: String, v: String, sel: Sel },
    TxLog { start: i64, lim: i64 },
    LastTx {},
    /// what: a collection name, "all" or "kv"
    Compact { what: String },
}

/// The documents' possible contents.
pub struct Pool {
    pub contents: Vec<Content>,
    pub bytes: Vec<Vec<u8>>,
    pub by_sha: HashMap<[u8; 32], i64>,
    pub by_bytes: HashMap<Vec<u8>, i64>,
}
impl Pool {
    pub fn new(contents: Vec<Content>) -> Self {
        let bytes: Vec<Vec<u8>> = contents
            .iter()
            .map(|c| <A as SerializedCollection>::serialize(&A(c.clone())).unwrap())
            .collect();
        let by_sha = bytes
            .iter()
            .enumerate()
            .map(|(i, b)| (Revision::new(b).sha256, i as i64 + 1))
            .collect();
        let by_bytes = bytes
            .iter()
            .enumerate()
            .map(|(i, b)| (b.clone(), i as i64 + 1))
            .collect();
        Self {
            contents,
            bytes,
            by_sha,
            by_bytes,
        }
    }
    pub fn b(&self, ct: i64) -> Vec<u8> {
        self.bytes[ct as usize - 1].clone()
    }
    pub fn content(&self, ct: i64) -> Content {
        self.contents[ct as usize - 1].clone()
    }
    pub fn sha(&self, rev: &Revision) -> i64 {
        self.by_sha.get(&rev.sha256).copied().unwrap_or(-99)
    }
    pub fn cid(&self, bytes: &[u8]) -> i64 {
        self.by_bytes.get(bytes).copied().unwrap_or(-98)
    }
    pub fn revision(&self, rev: Rev) -> Revision {
        if rev.h >= 1 {
            Revision::with_id(rev.r as u32, &self.bytes[rev.h as usize - 1])
        } else {
            Revision::with_id(rev.r as u32, b"no such contents")
        }
    }
    pub fn header(&self, c: &str, h: &Header) -> Value {
        json!({"id": un_doc_id(c, &h.id), "r": h.revision.id, "h": self.sha(&h.revision)})
    }
    /// The contents table the trace specification works with.
    pub fn table(&self) -> Value {
        let s = strings();
        Value::Array(
            self.contents
                .iter()
                .map(|c| {
                    let mut tags: Vec<i64> = c.tags.iter().map(|t| s.rank(t)).collect();
                    tags.sort();
                    json!({"k": c.k, "v": c.v, "tags": tags, "n": if c.name.is_empty() {-1} else {s.rank(&c.name)}})
                })
                .collect(),
        )
    }
}

/// prefixes()[i] = the ranks of the strings that start with string i
pub fn prefixes() -> Value {
    let s = strings();
    Value::Array(
        s.0.iter()
            .map(|p| {
                let v: Vec<i64> =
                    s.0.iter()
                        .enumerate()
                        .filter(|(_, x)| x.as_bytes().starts_with(p.as_bytes()))
                        .map(|(i, _)| i as i64)
                        .collect();
                json!(v)
            })
            .collect(),
    )
}

use bonsaidb_core::document::DocumentId;
use bonsaidb_core::schema::{Collection, CollectionName, Qualified};
pub fn cname(c: &str) -> CollectionName {
    match c {
        "a" => A::collection_name(),
        "b" => B::collection_name(),
        "n" => N::collection_name(),
        "e" => Ec::collection_name(),
        "x" => X::collection_name(),
        _ => CollectionName::new("v", "unknown"),
    }
}
pub fn cshort(c: &CollectionName) -> String {
    c.name.as_ref().to_string()
}
pub fn doc_id(c: &str, i: i64) -> DocumentId {
    match c {
        "a" => A::doc_id(i),
        "b" => B::doc_id(i),
        "n" => N::doc_id(i),
        "e" => Ec::doc_id(i),
        _ => X::doc_id(i),
    }
}
pub fn un_doc_id(c: &str, i: &DocumentId) -> i64 {
    match c {
        "a" => A::un_doc_id(i),
        "b" => B::un_doc_id(i),
        "n" => N::un_doc_id(i),
        "e" => Ec::un_doc_id(i),
        _ => X::un_doc_id(i),
    }
}

/// Errors, as far as the specification distinguishes them.
pub fn err(e: &bonsaidb_core::Error) -> Value {
    use bonsaidb_core::Error as E;
    match e {
        E::DocumentConflict(c, h) => {
            json!({"t":"conflict","c":cshort(c),"id":un_doc_id(&cshort(c), &h.id)})
        }
        E::DocumentNotFound(c, id) => {
            json!({"t":"notfound","c":cshort(c),"id":un_doc_id(&cshort(c), id)})
        }
        E::UniqueKeyViolation {
            view,
            conflicting_document,
            existing_document,
        } => {
            let c = cshort(&view.collection);
            json!({"t":"unique","v":view.name.as_ref(),"c":c,
                "nid":un_doc_id(&c,&conflicting_document.id),"oid":un_doc_id(&c,&existing_document.id)})
        }
        E::DocumentPush(c, _) => json!({"t":"push","c":cshort(c)}),
        E::ReduceUnimplemented => json!({"t":"noreduce"}),
        E::CollectionNotFound => json!({"t":"nocoll"}),
        E::ViewNotFound => json!({"t":"noview"}),
        E::DocumentIdTooLong => json!({"t":"idlong"}),
        E::PermissionDenied(_) => json!({"t":"denied"}),
        E::DatabaseNotFound(_) => json!({"t":"nodb"}),
        E::DatabaseNameAlreadyTaken(_) => json!({"t":"taken"}),
        E::InvalidDatabaseName(_) => json!({"t":"badname"}),
        E::SchemaMismatch { .. } => json!({"t":"mismatch"}),
        E::SchemaNotRegistered(_) => json!({"t":"noschema"}),
        E::InvalidCredentials => json!({"t":"badcred"}),
        E::UserNotFound => json!({"t":"nouser"}),
        E::NotANumber => json!({"t":"nan"}),
        other => json!({"t":"err","m":format!("{other:?}").chars().take(200).collect::<String>()}),
    }
}
