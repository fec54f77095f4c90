// Executes key-value operations. This file is the blocking version; build.rs derives the
// asynchronous one.
use bonsaidb_core::keyvalue::KeyValue as Kv; //sync
//async: use bonsaidb_core::keyvalue::AsyncKeyValue as Kv;
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyStatus, Output, SetCommand, Value as KvValue};
use bonsaidb_core::Error;
use serde_json::{json, Value};

use crate::kvops::*;

fn status(s: KeyStatus) -> Value {
    json!({"t":"status","s": match s {
        KeyStatus::Inserted => "inserted",
        KeyStatus::Updated => "updated",
        KeyStatus::Deleted => "deleted",
        KeyStatus::NotChanged => "notchanged",
    }})
}
fn value(v: Option<KvValue>) -> Value {
    json!({"t":"val","v": v.as_ref().map_or(json!({"t":"none"}), enc_value)})
}

/*async*/ fn raw<K: Kv>(kv: &K, k: i64, command: Command) -> Result<Value, Error> {
    let (ns, key) = pair(k);
    Ok(match kv.execute_key_operation(KeyOperation { namespace: ns.map(String::from), key: key.to_string(), command })/*await*/? {
        Output::Status(s) => status(s),
        Output::Value(v) => value(v),
    })
}

/*async*/ fn built<K: Kv>(kv: &K, base: &Base, op: &KvOp) -> Result<Value, Error> {
    let key = pair(op.k()).1;
    Ok(match op {
        KvOp::Set { v, exp, keep, chk, ret, .. } => {
            let bytes;
            let b = match dec_value(v) {
                KvValue::Numeric(n) => kv.set_numeric_key(key, n),
                KvValue::Bytes(x) => {
                    bytes = x.to_vec();
                    kv.set_binary_key(key, &bytes)
                }
            };
            let b = if *exp >= 0 { b.expire_at(base.at(*exp)) } else { b };
            let b = if *keep == 1 { b.keep_existing_expiration() } else { b };
            let b = match *chk {
                1 => b.only_if_exists(),
                2 => b.only_if_vacant(),
                _ => b,
            };
            if *ret == 1 {
                let r = b.returning_previous()/*await*/?;
                // (the builder cannot tell "no change" from "no previous value")
                let mut r = value(r);
                r["t"] = json!("prev");
                r
            } else {
                //async: status(b.await?)
                status(b.execute()?) //sync
            }
        }
        KvOp::Get { del, .. } => {
            let b = kv.get_key(key);
            let b = if *del == 1 { b.and_delete() } else { b };
            //async: value(b.await?)
            value(b.query()?) //sync
        }
        KvOp::Del { .. } => status(kv.delete_key(key)/*await*/?),
        KvOp::Add { v, neg, sat, .. } => {
            macro_rules! go {
                ($x:expr) => {{
                    let b = if *neg == 1 { kv.decrement_key_by(key, $x) } else { kv.increment_key_by(key, $x) };
                    let b = if *sat == 1 { b } else { b.allow_overflow() };
                    //async: let n = b.await?;
                    let n = b.execute()?; //sync
                    value(Some(KvValue::Numeric(n.into())))
                }};
            }
            match dec_value(v) {
                KvValue::Numeric(bonsaidb_core::keyvalue::Numeric::Integer(x)) => go!(x),
                KvValue::Numeric(bonsaidb_core::keyvalue::Numeric::UnsignedInteger(x)) => go!(x),
                KvValue::Numeric(bonsaidb_core::keyvalue::Numeric::Float(x)) => go!(x),
                KvValue::Bytes(_) => unreachable!(),
            }
        }
    })
}

/*async*/ pub fn try_kv<K: Kv>(kv: &K, base: &Base, op: &KvOp) -> Result<Value, Error> {
    if op.via() == 1 {
        return match pair(op.k()).0 {
            None => built(kv, base, op)/*await*/,
            Some(ns) => built(&kv.with_key_namespace(ns), base, op)/*await*/,
        };
    }
    match op {
        KvOp::Set { k, v, exp, keep, chk, ret, .. } => {
            raw(kv, *k, Command::Set(SetCommand {
                value: dec_value(v),
                expiration: (*exp >= 0).then(|| base.at(*exp).into()),
                keep_existing_expiration: *keep == 1,
                check: match *chk {
                    1 => Some(bonsaidb_core::keyvalue::KeyCheck::OnlyIfPresent),
                    2 => Some(bonsaidb_core::keyvalue::KeyCheck::OnlyIfVacant),
                    _ => None,
                },
                return_previous_value: *ret == 1,
            }))/*await*/
        }
        KvOp::Get { k, del, .. } => raw(kv, *k, Command::Get { delete: *del == 1 })/*await*/,
        KvOp::Del { k, .. } => raw(kv, *k, Command::Delete)/*await*/,
        KvOp::Add { k, v, neg, sat, .. } => {
            let KvValue::Numeric(amount) = dec_value(v) else { unreachable!() };
            let command = if *neg == 1 {
                Command::Decrement { amount, saturating: *sat == 1 }
            } else {
                Command::Increment { amount, saturating: *sat == 1 }
            };
            raw(kv, *k, command)/*await*/
        }
    }
}

/*async*/ pub fn kv<K: Kv>(kv: &K, base: &Base, op: &KvOp) -> Value {
    match try_kv(kv, base, op)/*await*/ {
        Ok(v) => v,
        Err(Error::NotANumber) => json!({"t":"nan"}),
        Err(Error::PermissionDenied(_)) => json!({"t":"denied"}),
        Err(e) => {
            let m = format!("{e:?}");
            if m.contains("is not `Numeric`") {
                json!({"t":"notnum"})
            } else {
                json!({"t":"err","m":m.chars().take(200).collect::<String>()})
            }
        }
    }
}
