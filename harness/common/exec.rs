// Executes operations on any connection. This file is the blocking version;
// build.rs derives the asynchronous one (`/*async*/`, `/*await*/` and `//sync:`/`//async:` lines).
use bonsaidb_core::connection::AccessPolicy;
use bonsaidb_core::connection::Connection as Conn; //sync
//async: use bonsaidb_core::connection::AsyncConnection as Conn;
use bonsaidb_core::connection::{Sort, View as ViewQ}; //sync
//async: use bonsaidb_core::connection::{Sort, AsyncView as ViewQ};
use bonsaidb_core::document::{Header, OwnedDocument};
use bonsaidb_core::key::Key;
use bonsaidb_core::schema::SerializedCollection;
use bonsaidb_core::transaction::{Changes, Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use serde_json::{json, Value};

use crate::ops::*;
use crate::schema::*;

pub type R = Result<Value, Error>;

fn doc_json(p: &Pool, c: &str, d: &OwnedDocument) -> Value {
    json!({"id": un_doc_id(c, &d.header.id), "r": d.header.revision.id,
           "h": p.sha(&d.header.revision), "ct": p.cid(&d.contents)})
}

fn untyped<C: SerializedCollection>(
    cd: bonsaidb_core::document::CollectionDocument<C>,
) -> Result<OwnedDocument, Error> {
    Ok(OwnedDocument {
        contents: <C as SerializedCollection>::serialize(&cd.contents)?.into(),
        header: Header::try_from(cd.header)?,
    })
}

fn op_of(p: &Pool, o: &TxOp) -> Operation {
    match o {
        TxOp::Ins { c, id, push, ct } => Operation::insert(
            cname(c),
            if *push == 1 { None } else { Some(doc_id(c, *id)) },
            p.b(*ct),
        ),
        TxOp::Upd { c, id, rev, ct } => Operation::update(
            cname(c),
            Header { id: doc_id(c, *id), revision: p.revision(*rev) },
            p.b(*ct),
        ),
        TxOp::Ovr { c, id, ct } => Operation::overwrite(cname(c), doc_id(c, *id), p.b(*ct)),
        TxOp::Del { c, id, rev } => Operation::delete(
            cname(c),
            Header { id: doc_id(c, *id), revision: p.revision(*rev) },
        ),
        TxOp::Chk { c, id, rev } => {
            if rev.r < 0 {
                Operation::check_document_id_exists(cname(c), doc_id(c, *id))
            } else {
                Operation {
                    collection: cname(c),
                    command: bonsaidb_core::transaction::Command::Check {
                        id: doc_id(c, *id),
                        revision: Some(p.revision(*rev)),
                    },
                }
            }
        }
    }
}

pub fn transaction(p: &Pool, ops: &[TxOp]) -> Transaction {
    let mut tx = Transaction::new();
    for o in ops {
        tx.push(op_of(p, o));
    }
    tx
}

pub fn op_results(p: &Pool, rs: &[OperationResult]) -> Value {
    Value::Array(
        rs.iter()
            .map(|r| match r {
                OperationResult::Success => json!({"t":"ok"}),
                OperationResult::DocumentUpdated { collection, header } => {
                    let c = cshort(collection);
                    json!({"t":"upd","c":c,"id":un_doc_id(&c,&header.id),"r":header.revision.id,"h":p.sha(&header.revision)})
                }
                OperationResult::DocumentDeleted { collection, id } => {
                    let c = cshort(collection);
                    json!({"t":"del","c":c,"id":un_doc_id(&c,id)})
                }
            })
            .collect(),
    )
}

fn head(c: &str, p: &Pool, h: &Header) -> Value {
    json!({"t":"upd","c":c,"id":un_doc_id(c,&h.id),"r":h.revision.id,"h":p.sha(&h.revision)})
}

/// A single operation through the collection functions.
/*async*/ fn single<C: CSpec, D: Conn>(db: &D, p: &Pool, o: &TxOp, via: i64) -> R
where
    C::PrimaryKey: Unpin,
{
    let one = |v: Value| json!({"t":"ok","r":[v]});
    match o {
        TxOp::Ins { c, id, push, ct } => {
            let value = C::wrap(p.content(*ct));
            if via == 2 {
                // typed
                let d = if *push == 1 {
                    value.push_into(db)/*await*/.map_err(|e| e.error)? //sync
                    //async: value.push_into_async(db).await.map_err(|e| e.error)?
                } else {
                    value.insert_into(&C::id(*id), db)/*await*/.map_err(|e| e.error)? //sync
                    //async: value.insert_into_async(&C::id(*id), db).await.map_err(|e| e.error)?
                };
                let h = Header::try_from(d.header)?;
                Ok(one(head(c, p, &h)))
            } else if *push == 1 {
                let h = db.collection::<C>().push(&value)/*await*/?;
                Ok(one(head(c, p, &Header::try_from(h)?)))
            } else {
                let h = db.collection::<C>().insert(&C::id(*id), &value)/*await*/?;
                Ok(one(head(c, p, &Header::try_from(h)?)))
            }
        }
        TxOp::Upd { c, id, rev, ct } => {
            let header = Header { id: doc_id(c, *id), revision: p.revision(*rev) };
            let mut d = OwnedDocument {
                header,
                contents: p.b(*ct).into(),
            };
            if via == 2 {
                let mut cd = bonsaidb_core::document::CollectionDocument::<C>::try_from(&d)?;
                cd.update(db)/*await*/?; //sync
                //async: cd.update_async(db).await?;
                Ok(one(head(c, p, &Header::try_from(cd.header)?)))
            } else {
                db.collection::<C>().update::<OwnedDocument>(&mut d)/*await*/?;
                Ok(one(head(c, p, &d.header)))
            }
        }
        TxOp::Ovr { c, id, ct } => {
            if via == 2 {
                let value = C::wrap(p.content(*ct));
                let d = value.overwrite_into(&C::id(*id), db)/*await*/.map_err(|e| e.error)?; //sync
                //async: let d = value.overwrite_into_async(&C::id(*id), db).await.map_err(|e| e.error)?;
                Ok(one(head(c, p, &Header::try_from(d.header)?)))
            } else {
                let mut d = OwnedDocument {
                    header: Header { id: doc_id(c, *id), revision: p.revision(Rev { r: 7, h: -1 }) },
                    contents: p.b(*ct).into(),
                };
                db.collection::<C>().overwrite::<OwnedDocument>(&mut d)/*await*/?;
                Ok(one(head(c, p, &d.header)))
            }
        }
        TxOp::Del { c, id, rev } => {
            let header = Header { id: doc_id(c, *id), revision: p.revision(*rev) };
            db.collection::<C>().delete::<Header>(&header)/*await*/?;
            Ok(one(json!({"t":"del","c":c,"id":id})))
        }
        TxOp::Chk { .. } => {
            let r = db.apply_transaction(transaction(p, std::slice::from_ref(o)))/*await*/?;
            Ok(json!({"t":"ok","r":op_results(p, &r)}))
        }
    }
}

fn sort(desc: i64) -> Sort {
    if desc == 1 {
        Sort::Descending
    } else {
        Sort::Ascending
    }
}
fn policy(pol: &str) -> AccessPolicy {
    match pol {
        "before" => AccessPolicy::UpdateBefore,
        "after" => AccessPolicy::UpdateAfter,
        _ => AccessPolicy::NoUpdate,
    }
}
fn limit(l: i64) -> Option<u32> {
    u32::try_from(l).ok()
}

/*async*/ fn coll_op<C: CSpec, D: Conn>(db: &D, p: &Pool, op: &Op) -> R
where
    C::PrimaryKey: std::borrow::Borrow<C::PrimaryKey> + PartialEq + Unpin + for<'k> Key<'k>,
{
    match op {
        Op::Get { c, id, via } => {
            let d = match via {
                0 => db.get_from_collection(doc_id(c, *id), &cname(c))/*await*/?,
                1 => db.collection::<C>().get(&C::id(*id))/*await*/?,
                _ => match C::get(&C::id(*id), db)/*await*/? { //sync
                //async: _ => match C::get_async(&C::id(*id), db).await? {
                    Some(cd) => Some(untyped::<C>(cd)?),
                    None => None,
                },
            };
            Ok(match d {
                Some(d) => json!({"t":"ok","r":[doc_json(p, c, &d)]}),
                None => json!({"t":"ok","r":[]}),
            })
        }
        Op::GetMulti { c, ids, via } => {
            let ds = if *via == 0 {
                let ids: Vec<_> = ids.iter().map(|i| doc_id(c, *i)).collect();
                db.get_multiple_from_collection(&ids, &cname(c))/*await*/?
            } else {
                let ids: Vec<C::PrimaryKey> = ids.iter().map(|i| C::id(*i)).collect();
                db.collection::<C>().get_multiple(ids.iter())/*await*/?
            };
            Ok(json!({"t":"ok","r":ds.iter().map(|d| doc_json(p, c, d)).collect::<Vec<_>>()}))
        }
        Op::List { c, kind, rg, desc, lim, via } => {
            if *via == 0 {
                let ids = rg.to(|i| doc_id(c, i));
                return Ok(match kind.as_str() {
                    "docs" => {
                        let ds = db.list_from_collection(ids, sort(*desc), limit(*lim), &cname(c))/*await*/?;
                        json!({"t":"ok","r":ds.iter().map(|d| doc_json(p, c, d)).collect::<Vec<_>>()})
                    }
                    "headers" => {
                        let ds = db.list_headers_from_collection(ids, sort(*desc), limit(*lim), &cname(c))/*await*/?;
                        json!({"t":"ok","r":ds.iter().map(|d| p.header(c, d)).collect::<Vec<_>>()})
                    }
                    _ => {
                        let n = db.count_from_collection(ids, &cname(c))/*await*/?;
                        json!({"t":"ok","n":n})
                    }
                });
            }
            let coll = db.collection::<C>();
            let full = rg.0 .0 == 0 && rg.1 .0 == 0 && *via == 2;
            let owned = rg.to(C::id);
            let l = if full { coll.all() } else { coll.list(owned.map_ref(|x| x)) }; //sync
            //async: let l = if full { coll.all() } else { coll.list(bonsaidb_core::connection::RangeRef::owned(owned)) };
            let l = if *desc == 1 { l.descending() } else { l.ascending() };
            let l = match limit(*lim) {
                Some(x) => l.limit(x),
                None => l,
            };
            Ok(match kind.as_str() {
                "docs" => {
                    let ds = l.query()/*await*/?; //sync
                    //async: let ds = l.await?;
                    json!({"t":"ok","r":ds.iter().map(|d| doc_json(p, c, d)).collect::<Vec<_>>()})
                }
                "headers" => {
                    let ds = l.headers()/*await*/?;
                    json!({"t":"ok","r":ds.iter().map(|d| p.header(c, d)).collect::<Vec<_>>()})
                }
                _ => {
                    let n = l.count()/*await*/?;
                    json!({"t":"ok","n":n})
                }
            })
        }
        _ => unreachable!(),
    }
}

/*async*/ fn list_pre<D: Conn>(db: &D, p: &Pool, op: &Op) -> R {
    let Op::ListPre { c, kind, pre, desc, lim } = op else { unreachable!() };
    let coll = db.collection::<B>();
    let prefix = B::id(*pre);
    let l = coll.list_with_prefix(&prefix);
    let l = if *desc == 1 { l.descending() } else { l.ascending() };
    let l = match limit(*lim) {
        Some(x) => l.limit(x),
        None => l,
    };
    Ok(match kind.as_str() {
        "docs" => {
            let ds = l.query()/*await*/?; //sync
            //async: let ds = l.await?;
            json!({"t":"ok","r":ds.iter().map(|d| doc_json(p, c, d)).collect::<Vec<_>>()})
        }
        "headers" => {
            let ds = l.headers()/*await*/?;
            json!({"t":"ok","r":ds.iter().map(|d| p.header(c, d)).collect::<Vec<_>>()})
        }
        _ => {
            let n = l.count()/*await*/?;
            json!({"t":"ok","n":n})
        }
    })
}

/*async*/ fn run_query<'a, V: VSpec, D: Conn>(q: ViewQ<'a, D, V, V::Key>, p: &Pool, op: &Op) -> R
where
    V::Key: std::borrow::Borrow<V::Key> + PartialEq + for<'k> Key<'k>,
    V::Collection: CSpec,
{
    match op {
        Op::Query { c, desc, lim, pol, docs, .. } => {
            let q = if *desc == 1 { q.descending() } else { q.ascending() };
            let q = match limit(*lim) {
                Some(x) => q.limit(x),
                None => q,
            };
            let q = q.with_access_policy(policy(pol));
            let m = |key: &V::Key, value: i64, h: &Header| {
                json!({"k":V::unkey(key),"v":value,"id":un_doc_id(c,&h.id),"r":h.revision.id,"h":p.sha(&h.revision)})
            };
            match docs {
                0 => {
                    let r = q.query()/*await*/?;
                    Ok(json!({"t":"ok","r":r.iter().map(|x| m(&x.key, x.value, &Header::try_from(x.source.clone()).unwrap())).collect::<Vec<_>>()}))
                }
                1 => {
                    let r = q.query_with_docs()/*await*/?;
                    // what the iterator pairs
                    let paired: Vec<Value> = r.iter().map(|x| json!([V::unkey(x.key), x.value, un_doc_id(c, &x.document.header.id)])).collect();
                    Ok(json!({"t":"ok",
                        "r":r.mappings.iter().map(|x| m(&x.key, x.value, &Header::try_from(x.source.clone()).unwrap())).collect::<Vec<_>>(),
                        "d":r.documents.values().map(|d| doc_json(p, c, d)).collect::<Vec<_>>(), "pr": paired}))
                }
                _ => {
                    let r = q.query_with_collection_docs()/*await*/?;
                    let paired: Vec<Value> = r.iter().map(|x| json!([V::unkey(x.key), x.value, un_doc_id(c, &Header::try_from(x.document.header.clone()).unwrap().id)])).collect();
                    let mut docs = Vec::new();
                    for d in r.documents.values() {
                        docs.push(doc_json(p, c, &untyped::<V::Collection>(d.clone())?));
                    }
                    Ok(json!({"t":"ok",
                        "r":r.mappings.iter().map(|x| m(&x.key, x.value, &Header::try_from(x.source.clone()).unwrap())).collect::<Vec<_>>(),
                        "d":docs, "pr": paired}))
                }
            }
        }
        Op::Reduce { pol, .. } => {
            let v = q.with_access_policy(policy(pol)).reduce()/*await*/?;
            Ok(json!({"t":"ok","n":v}))
        }
        Op::Grouped { pol, .. } => {
            let v = q.with_access_policy(policy(pol)).reduce_grouped()/*await*/?;
            Ok(json!({"t":"ok","r":v.iter().map(|g| json!({"k":V::unkey(&g.key),"v":g.value})).collect::<Vec<_>>()}))
        }
        Op::DelView { .. } => {
            let n = q.delete_docs()/*await*/?;
            Ok(json!({"t":"ok","n":n}))
        }
        _ => unreachable!(),
    }
}

fn sel_of(op: &Op) -> &Sel {
    match op {
        Op::Query { sel, .. } | Op::Reduce { sel, .. } | Op::Grouped { sel, .. } | Op::DelView { sel, .. } => sel,
        _ => unreachable!(),
    }
}

/*async*/ fn view_op<V: VSpec, D: Conn>(db: &D, p: &Pool, op: &Op) -> R
where
    V::Key: std::borrow::Borrow<V::Key> + PartialEq + for<'k> Key<'k>,
    V::Collection: CSpec,
{
    let q = db.view::<V>();
    match sel_of(op) {
        Sel::All => run_query::<V, D>(q, p, op)/*await*/,
        Sel::Key { k } => {
            let key = V::key(*k);
            run_query::<V, D>(q.with_key(&key), p, op)/*await*/
        }
        Sel::Keys { ks } => {
            let keys: Vec<V::Key> = ks.iter().map(|k| V::key(*k)).collect();
            run_query::<V, D>(q.with_keys(keys.iter()), p, op)/*await*/
        }
        Sel::Range { rg } => run_query::<V, D>(q.with_key_range(rg.to_ref(V::key)), p, op)/*await*/,
        Sel::Prefix { .. } => unreachable!(),
    }
}
/*async*/ fn view_op_str<V: VSpec + bonsaidb_core::schema::View<Key = String>, D: Conn>(db: &D, p: &Pool, op: &Op) -> R
where
    V::Collection: CSpec,
{
    if let Sel::Prefix { k } = sel_of(op) {
        let key = V::key(*k);
        run_query::<V, D>(db.view::<V>().with_key_prefix(&key), p, op)/*await*/
    } else {
        view_op::<V, D>(db, p, op)/*await*/
    }
}

/*async*/ pub fn try_exec<D: Conn>(db: &D, p: &Pool, op: &Op) -> R {
    match op {
        Op::Tx { via, ops } => {
            if *via == 0 || ops.len() != 1 {
                let r = db.apply_transaction(transaction(p, ops))/*await*/?;
                Ok(json!({"t":"ok","r":op_results(p, &r)}))
            } else {
                let c = match &ops[0] {
                    TxOp::Ins { c, .. } | TxOp::Upd { c, .. } | TxOp::Ovr { c, .. } | TxOp::Del { c, .. } | TxOp::Chk { c, .. } => c,
                };
                match c.as_str() {
                    "a" => single::<A, D>(db, p, &ops[0], *via)/*await*/,
                    "b" => single::<B, D>(db, p, &ops[0], *via)/*await*/,
                    "n" => single::<N, D>(db, p, &ops[0], *via)/*await*/,
                    "e" => single::<Ec, D>(db, p, &ops[0], *via)/*await*/,
                    _ => single::<X, D>(db, p, &ops[0], *via)/*await*/,
                }
            }
        }
        Op::Get { c, .. } | Op::GetMulti { c, .. } | Op::List { c, .. } => match c.as_str() {
            "a" => coll_op::<A, D>(db, p, op)/*await*/,
            "b" => coll_op::<B, D>(db, p, op)/*await*/,
            "n" => coll_op::<N, D>(db, p, op)/*await*/,
            "e" => coll_op::<Ec, D>(db, p, op)/*await*/,
            _ => coll_op::<X, D>(db, p, op)/*await*/,
        },
        Op::ListPre { .. } => list_pre::<D>(db, p, op)/*await*/,
        Op::Query { c, v, .. } | Op::Reduce { c, v, .. } | Op::Grouped { c, v, .. } | Op::DelView { c, v, .. } => {
            match (c.as_str(), v.as_str()) {
                ("a", "by-k") => view_op::<ByK, D>(db, p, op)/*await*/,
                ("a", "by-tag") => view_op_str::<ByTag, D>(db, p, op)/*await*/,
                ("a", "e-by-k") => view_op::<EByK, D>(db, p, op)/*await*/,
                ("a", "u-name") => view_op_str::<UName, D>(db, p, op)/*await*/,
                ("a", "comp") => view_op::<Comp, D>(db, p, op)/*await*/,
                ("a", "opt-k") => view_op::<OptK, D>(db, p, op)/*await*/,
                ("b", "by-k") => view_op::<BByK, D>(db, p, op)/*await*/,
                ("b", "u-name") => view_op_str::<BUName, D>(db, p, op)/*await*/,
                ("e", "ev") => view_op::<Ev, D>(db, p, op)/*await*/,
                ("x", "by-tag") => view_op_str::<XByTag, D>(db, p, op)/*await*/,
                ("x", "e-by-k") => view_op::<XEByK, D>(db, p, op)/*await*/,
                _ => unreachable!("no such view"),
            }
        }
        Op::TxLog { start, lim } => {
            let l = db.list_executed_transactions(u64::try_from(*start).ok(), limit(*lim))/*await*/?;
            Ok(json!({"t":"ok","r":l.iter().map(|e| {
                match &e.changes {
                    Changes::Documents(d) => {
                        let ch: Vec<Value> = d.iter().map(|(coll, d)| {
                            let c = cshort(coll);
                            json!({"c":c,"id":un_doc_id(&c,&d.id),"del":i64::from(d.deleted)})
                        }).collect();
                        json!({"tx":e.id,"kv":0,"ch":ch})
                    }
                    Changes::Keys(k) => {
                        let ch: Vec<Value> = k.iter().map(|k| json!({"ns":k.namespace.clone().unwrap_or_else(|| "-".to_string()),"key":k.key,"del":i64::from(k.deleted)})).collect();
                        json!({"tx":e.id,"kv":1,"ch":ch})
                    }
                }
            }).collect::<Vec<_>>()}))
        }
        Op::LastTx {} => {
            let l = db.last_transaction_id()/*await*/?;
            Ok(json!({"t":"ok","n":l.map_or(-1, |x| x as i64)}))
        }
        Op::Compact { what } => {
            match what.as_str() {
                "all" => db.compact()/*await*/?,
                "kv" => db.compact_key_value_store()/*await*/?,
                c => db.compact_collection_by_name(cname(c))/*await*/?,
            }
            Ok(json!({"t":"ok"}))
        }
    }
}

/*async*/ pub fn exec<D: Conn>(db: &D, p: &Pool, op: &Op) -> Value {
    match try_exec(db, p, op)/*await*/ {
        Ok(v) => v,
        Err(e) => err(&e),
    }
}
