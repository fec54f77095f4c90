// Executes what concerns users, sessions and databases of a storage. This file is the
// blocking version; build.rs derives the asynchronous one.
use bonsaidb_core::connection::StorageConnection as Sc; //sync
//async: use bonsaidb_core::connection::AsyncStorageConnection as Sc;
use bonsaidb_core::admin::User;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Authentication, HasSession, IdentityReference, SensitiveString, Session};
use bonsaidb_core::schema::{Nameable, SerializedCollection};
use bonsaidb_core::Error;
use serde_json::{json, Value};

use crate::auth::*;
use crate::ops::*;
use crate::schema::*;

/*async*/ pub fn act<S: Sc<Authenticated = S> + HasSession>(s: &S, op: &AOp) -> (Value, Option<S>) {
    match run(s, op)/*await*/ {
        Ok((mut v, h)) => {
            v["t"] = json!("ok");
            if let Some(h) = &h {
                describe(&mut v, h.session());
            }
            (v, h)
        }
        Err(e) => (err(&e), None),
    }
}

/*async*/ fn run<S: Sc<Authenticated = S> + HasSession>(s: &S, op: &AOp) -> Result<(Value, Option<S>), Error> {
    let plain = |_: ()| (json!({}), None);
    Ok(match op {
        AOp::CreateUser(n) => (json!({"id":s.create_user(n)/*await*/?}), None),
        AOp::DeleteUser(u) => plain(s.delete_user(u.named())/*await*/?),
        AOp::SetPw(u, pw) => plain(s.set_user_password(u.named(), SensitiveString(pw.clone()))/*await*/?),
        AOp::Group(true, u, g) => plain(s.add_permission_group_to_user(u.named(), g.named())/*await*/?),
        AOp::Group(false, u, g) => plain(s.remove_permission_group_from_user(u.named(), g.named())/*await*/?),
        AOp::Role(true, u, g) => plain(s.add_role_to_user(u.named(), g.named())/*await*/?),
        AOp::Role(false, u, g) => plain(s.remove_role_from_user(u.named(), g.named())/*await*/?),
        AOp::Login(u, pw) => {
            let a = Authentication::password(u.named(), SensitiveString(pw.clone()))?;
            (json!({}), Some(s.authenticate(a)/*await*/?))
        }
        AOp::TBegin(a) => (json!({}), Some(s.authenticate(a.clone())/*await*/?)),
        AOp::TFinish(r) => {
            let a = Authentication::TokenChallengeResponse(Bytes::from(r.clone()));
            (json!({}), Some(s.authenticate(a)/*await*/?))
        }
        AOp::TLogin(id, secret) => (json!({}), Some(s.authenticate_with_token(*id, &SensitiveString(secret.clone()))/*await*/?)),
        AOp::Assume(true, u) => (json!({}), Some(s.assume_identity(IdentityReference::User(u.named::<u64>().name()?))/*await*/?)),
        AOp::Assume(false, u) => (json!({}), Some(s.assume_identity(IdentityReference::Role(u.named::<u64>().name()?))/*await*/?)),
        AOp::ListDb => {
            let mut v: Vec<String> = s.list_databases()/*await*/?.into_iter().map(|d| d.name).collect();
            v.sort();
            (json!({"r":v}), None)
        }
        AOp::ListSchemas => {
            let mut v: Vec<String> = s.list_available_schemas()/*await*/?.into_iter().map(|x| x.name.to_string()).collect();
            v.sort();
            (json!({"r":v}), None)
        }
        AOp::CreateDb(n) => plain(s.create_database::<Main>(n, false)/*await*/.map(|_| ())?),
        AOp::DeleteDb(n) => plain(s.delete_database(n)/*await*/?),
        AOp::Get(id) => {
            let d = s.database::<Main>("main")/*await*/?;
            let r = A::get(&A::id(*id), &d)?; //sync
//async:             let r = A::get_async(&A::id(*id), &d).await?;
            (json!({"some":i64::from(r.is_some())}), None)
        }
        AOp::GetUser(id) => {
            let d = s.admin()/*await*/;
            #[allow(unused_mut)]
            let mut r = User::get(id, &d)?; //sync
//async:             let mut r = User::get_async(id, &d).await?;
            (json!({"n":r.take().map_or(String::new(), |u| u.contents.username)}), None)
        }
    })
}

fn describe(v: &mut Value, s: Option<&Session>) {
    let Some(s) = s else {
        v["who"] = json!("nobody");
        return;
    };
    v["sid"] = json!(s.id.map_or(0, |i| i.0));
    match identity(s) {
        Some((w, id, n)) => {
            v["who"] = json!(w);
            v["id"] = json!(id);
            v["n"] = json!(n);
        }
        None => v["who"] = json!("challenge"),
    }
}
