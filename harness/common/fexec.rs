// Executes file operations.  build.rs derives the asynchronous version from this source.
use std::io::{Read, Seek, SeekFrom, Write}; //sync
//async: use std::io::SeekFrom;
//async: use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
//async: use futures::StreamExt;

use bonsaidb_core::connection::LowLevelConnection; //sync
//async: use bonsaidb_core::connection::AsyncLowLevelConnection;
use bonsaidb_core::connection::{Range, Sort};
use bonsaidb_core::document::DocumentId;
use bonsaidb_files::direct;
use bonsaidb_files::Truncate;
use serde_json::{json, Value};

use crate::fops::*;

pub type Db = bonsaidb_local::Database; //sync
//async: pub type Db = bonsaidb_local::AsyncDatabase;
pub type Mode = direct::Blocking<Db>; //sync
//async: pub type Mode = direct::Async<Db>;
pub type F<C> = direct::File<Mode, C>;
pub type R<C> = direct::Contents<Mode, C>;

pub struct Env<C: Cfg> {
    pub db: Db,
    pub files: Vec<F<C>>,
    pub readers: Vec<R<C>>,
}

pub fn desc<C: Cfg>(f: &F<C>, base: &FBase) -> Value {
    json!({"id": f.id(), "dir": chars(f.containing_path()), "name": chars(f.name()), "path": chars(&f.path()),
           "md": *f.metadata(), "at": base.us(f.created_at())})
}

fn io(e: &std::io::Error) -> Value {
    json!({"t":"err","k":"io","m":e.to_string()})
}

fn got(d: &[u8]) -> Value {
    json!({"t":"ok","d":d})
}

/*async*/ pub fn dump<C: Cfg>(db: &Db, base: &FBase) -> Value {
    let list = C::list_recursive("/", db); //sync
    //async: let list = C::list_recursive_async("/", db).await;
    let mut files = Vec::new();
    match list {
        Err(e) => return core_err(&e),
        Ok(list) => {
            for f in list {
                let mut d = desc(&f, base);
                match f.contents()/*await*/ {
                    Err(e) => return core_err(&e),
                    Ok(c) => match c.into_vec()/*await*/ {
                        Err(e) => return io(&e),
                        Ok(v) => d["data"] = json!(v),
                    },
                }
                files.push(d);
            }
        }
    }
    let blocks = db.list_from_collection(Range::<DocumentId>::from(..), Sort::Ascending, None, &C::blocks_name())/*await*/;
    let docs = db.list_from_collection(Range::<DocumentId>::from(..), Sort::Ascending, None, &C::files_name())/*await*/;
    match (blocks, docs) {
        (Ok(b), Ok(d)) => json!({"t":"ok","files":files,"blocks":b.len(),"docs":d.len()}),
        (Err(e), _) | (_, Err(e)) => core_err(&e),
    }
}

/*async*/ pub fn exec<C: Cfg>(env: &mut Env<C>, op: &Value, base: &FBase) -> Value {
    let s = |k: &str| unchars(&op[k]);
    let n = |k: &str| op[k].as_i64().unwrap();
    let u = |k: &str| op[k].as_u64().unwrap() as usize;
    let bytes = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    let db = env.db.clone();
    macro_rules! keep {
        ($f:expr) => {{
            let f = $f;
            let d = desc(&f, base);
            env.files.push(f);
            json!({"t":"ok","h":env.files.len(),"f":d})
        }};
    }
    macro_rules! unit {
        ($r:expr) => {
            match $r {
                Ok(()) => json!({"t":"ok"}),
                Err(e) => core_err(&e),
            }
        };
    }
    macro_rules! funit {
        ($r:expr) => {
            match $r {
                Ok(()) => json!({"t":"ok"}),
                Err(e) => file_err(&e),
            }
        };
    }
    macro_rules! list {
        ($r:expr) => {
            match $r {
                Err(e) => core_err(&e),
                Ok(l) => {
                    let d: Vec<Value> = l.iter().map(|f| desc(f, base)).collect();
                    let mut res = json!({"t":"ok","l":d,"h":0,"k":0});
                    if let Some(i) = (n("keep") >= 0 && !l.is_empty()).then(|| u("keep") % l.len()) {
                        env.files.push(l.into_iter().nth(i).unwrap());
                        res["h"] = json!(env.files.len());
                        res["k"] = json!(i + 1);
                    }
                    res
                }
            }
        };
    }
    match op["e"].as_str().unwrap() {
        "create" => {
            let data = bytes(&op["data"]);
            let mut b = if n("md") == 0 { C::build(s("p")) } else { C::build_with_metadata(s("p"), n("md")) };
            if n("has") == 1 {
                b = b.at_path(s("at"));
            }
            if !data.is_empty() {
                b = b.contents(&data);
            }
            let r = b.create(&db); //sync
            //async: let r = b.create_async(&db).await;
            match r {
                Ok(f) => keep!(f),
                Err(e) => file_err(&e),
            }
        }
        "loc" => {
            let p = s("p");
            let r = if n("md") == 0 { C::load_or_create(&p, n("ex") == 1, &db) } else { C::load_or_create_with_metadata(&p, n("md"), n("ex") == 1, &db) }; //sync
            //async: let r = if n("md") == 0 { C::load_or_create_async(&p, n("ex") == 1, &db).await } else { C::load_or_create_with_metadata_async(&p, n("md"), n("ex") == 1, &db).await };
            match r {
                Ok(f) => keep!(f),
                Err(e) => file_err(&e),
            }
        }
        "load" => {
            let r = C::load(&s("p"), &db); //sync
            //async: let r = C::load_async(&s("p"), &db).await;
            match r {
                Ok(Some(f)) => keep!(f),
                Ok(None) => json!({"t":"none"}),
                Err(e) => file_err(&e),
            }
        }
        "get" => {
            let id = n("id") as u32;
            let r = C::get(id, &db); //sync
            //async: let r = C::get_async(id, &db).await;
            match r {
                Ok(Some(f)) => keep!(f),
                Ok(None) => json!({"t":"none"}),
                Err(e) => core_err(&e),
            }
        }
        "delpath" => {
            let r = C::delete(&s("p"), &db); //sync
            //async: let r = C::delete_async(&s("p"), &db).await;
            match r {
                Ok(b) => json!({"t":"ok","b":b}),
                Err(e) => file_err(&e),
            }
        }
        "list" => {
            let r = C::list(&s("p"), &db); //sync
            //async: let r = C::list_async(&s("p"), &db).await;
            list!(r)
        }
        "listrec" => {
            let r = C::list_recursive(&s("p"), &db); //sync
            //async: let r = C::list_recursive_async(&s("p"), &db).await;
            list!(r)
        }
        "stats" => {
            let p = s("p");
            let r = if p == "/" { C::stats(&db) } else { C::stats_for_path(&p, &db) }; //sync
            //async: let r = if p == "/" { C::stats_async(&db).await } else { C::stats_for_path_async(&p, &db).await };
            match r {
                Ok(st) => json!({"t":"ok","bytes":st.total_bytes,"count":st.file_count,"last":base.opt(st.last_appended_at)}),
                Err(e) => core_err(&e),
            }
        }
        "children" => list!(env.files[u("h") - 1].children()/*await*/),
        "view" => {
            let f = &env.files[u("h") - 1];
            json!({"t":"ok","f":desc(f, base)})
        }
        "rename" => funit!(env.files[u("h") - 1].rename(s("name"))/*await*/),
        "move" => funit!(env.files[u("h") - 1].move_to(&s("p"))/*await*/),
        "setmd" => {
            *env.files[u("h") - 1].metadata_mut() = n("md");
            json!({"t":"ok"})
        }
        "upd" => unit!(env.files[u("h") - 1].update_metadata()/*await*/),
        "del" => funit!(env.files[u("h") - 1].delete()/*await*/),
        "append" => {
            let d = bytes(&op["data"]);
            unit!(env.files[u("h") - 1].append(&d)/*await*/)
        }
        "appendbuf" => {
            let mut w = env.files[u("h") - 1].append_buffered();
            let mut err = None;
            for step in op["steps"].as_array().unwrap() {
                let r = match step["s"].as_str().unwrap() {
                    "w" => {
                        let d = bytes(&step["d"]);
                        w.write_all(&d)/*await*/
                    }
                    "f" => w.flush()/*await*/,
                    _ => w.set_buffer_size(step["n"].as_u64().unwrap() as usize)/*await*/,
                };
                if let Err(e) = r {
                    err = Some(e);
                    break;
                }
            }
            //async: if err.is_none() { if let Err(e) = if n("end") == 0 { w.flush().await } else { w.shutdown().await } { err = Some(e); } }
            if err.is_none() && n("end") == 0 { if let Err(e) = w.flush() { err = Some(e); } } //sync
            drop(w);
            match err {
                None => json!({"t":"ok"}),
                Some(e) => io(&e),
            }
        }
        "trunc" => {
            let from = if n("from") == 0 { Truncate::RemovingStart } else { Truncate::RemovingEnd };
            let r = env.files[u("h") - 1].truncate(op["n"].as_u64().unwrap(), from)/*await*/;
            match r {
                Err(e) => core_err(&e),
                Ok(()) => match env.files[u("h") - 1].contents()/*await*/ {
                    Err(e) => core_err(&e),
                    Ok(c) => match c.into_vec()/*await*/ {
                        Ok(v) => got(&v),
                        Err(e) => io(&e),
                    },
                },
            }
        }
        "len" => {
            let f = &mut env.files[u("h") - 1];
            match (f.len()/*await*/, f.is_empty()/*await*/, f.last_appended_at()/*await*/) {
                (Ok(l), Ok(e), Ok(t)) => json!({"t":"ok","n":l,"empty":e,"last":base.opt(t)}),
                (Err(e), _, _) | (_, Err(e), _) | (_, _, Err(e)) => core_err(&e),
            }
        }
        "open" => match env.files[u("h") - 1].contents()/*await*/ {
            Err(e) => core_err(&e),
            Ok(c) => {
                let c = if n("buf") >= 0 { c.with_buffer_size(u("buf")) } else { c };
                env.readers.push(c);
                json!({"t":"ok","r":env.readers.len()})
            }
        },
        "clone" => {
            let c = env.readers[u("r") - 1].clone();
            env.readers.push(c);
            json!({"t":"ok","r":env.readers.len()})
        }
        "read" => {
            let mut b = vec![0; u("n")];
            match env.readers[u("r") - 1].read(&mut b)/*await*/ {
                Ok(k) => got(&b[..k]),
                Err(e) => io(&e),
            }
        }
        "readx" => {
            let mut b = vec![0; u("n")];
            match env.readers[u("r") - 1].read_exact(&mut b)/*await*/.map(|_| ()) {
                Ok(()) => got(&b),
                Err(e) => io(&e),
            }
        }
        "rest" => match env.readers[u("r") - 1].to_vec()/*await*/ {
            Ok(v) => got(&v),
            Err(e) => io(&e),
        },
        "into" => {
            let c = env.readers[u("r") - 1].clone();
            match c.into_vec()/*await*/ {
                Ok(v) => got(&v),
                Err(e) => io(&e),
            }
        }
        "end" => {
            let mut v = Vec::new();
            match env.readers[u("r") - 1].read_to_end(&mut v)/*await*/ {
                Ok(_) => got(&v),
                Err(e) => io(&e),
            }
        }
        "text" => {
            // the remaining contents as text
            let c = env.readers[u("r") - 1].clone();
            let r = if n("own") == 1 { c.into_string()/*await*/ } else { env.readers[u("r") - 1].to_string()/*await*/ };
            match r {
                Ok(v) => got(v.as_bytes()),
                Err(e) if e.kind() == std::io::ErrorKind::InvalidData => json!({"t":"err","k":"text"}),
                Err(e) => io(&e),
            }
        }
        "next" => match env.readers[u("r") - 1].next()/*await*/ {
            None => json!({"t":"none"}),
            Some(Ok(v)) => got(&v),
            Some(Err(e)) => io(&e),
        },
        "cancel" => {
            // an asynchronous read that is given up while it waits
            #[allow(unused_mut)]
            let mut b = vec![0u8; u("n")];
            let k = env.readers[u("r") - 1].read(&mut b).map(Some); //sync
            //async: let k = { let fut = env.readers[u("r") - 1].read(&mut b); futures::pin_mut!(fut); match futures::poll!(fut) { std::task::Poll::Ready(r) => r.map(Some), std::task::Poll::Pending => Ok(None) } };
            match k {
                Ok(Some(k)) => got(&b[..k]),
                Ok(None) => json!({"t":"pending"}),
                Err(e) => io(&e),
            }
        }
        "seek" => {
            let o = n("o");
            let to = match op["w"].as_str().unwrap() {
                "s" => SeekFrom::Start(o as u64),
                "e" => SeekFrom::End(o),
                _ => SeekFrom::Current(o),
            };
            match env.readers[u("r") - 1].seek(to)/*await*/ {
                Ok(p) => json!({"t":"ok","n":p}),
                Err(e) => io(&e),
            }
        }
        "rinfo" => {
            let c = &env.readers[u("r") - 1];
            json!({"t":"ok","n":c.len(),"empty":c.is_empty(),"last":base.opt(c.last_appended_at())})
        }
        "dump" => dump::<C>(&db, base)/*await*/,
        "wipe" => {
            let list = C::list_recursive("/", &db); //sync
            //async: let list = C::list_recursive_async("/", &db).await;
            match list {
                Err(e) => core_err(&e),
                Ok(list) => {
                    let mut res = json!({"t":"ok"});
                    for f in list {
                        if let Err(e) = f.delete()/*await*/ {
                            res = file_err(&e);
                        }
                    }
                    res
                }
            }
        }
        other => panic!("operation {other}"),
    }
}

/// Appends pieces one after another; the error that stopped it.
/*async*/ pub fn appends<C: Cfg>(db: Db, id: u32, pieces: Vec<Vec<u8>>) -> Option<Value> {
    let f = C::get(id, &db); //sync
    //async: let f = C::get_async(id, &db).await;
    let f = match f {
        Ok(Some(f)) => f,
        Ok(None) => return Some(json!({"t":"none"})),
        Err(e) => return Some(core_err(&e)),
    };
    for p in pieces {
        if let Err(e) = f.append(&p)/*await*/ {
            return Some(core_err(&e));
        }
    }
    None
}

/// Reads the whole file again and again.
/*async*/ pub fn reads<C: Cfg>(db: Db, id: u32, times: usize) -> Vec<Value> {
    let mut r = Vec::new();
    let f = C::get(id, &db); //sync
    //async: let f = C::get_async(id, &db).await;
    let Ok(Some(f)) = f else { return r };
    for _ in 0..times {
        r.push(match f.contents()/*await*/ {
            Err(e) => core_err(&e),
            Ok(c) => match c.into_vec()/*await*/ {
                Ok(v) => got(&v),
                Err(e) => io(&e),
            },
        });
    }
    r
}

/*async*/ pub fn create_one<C: Cfg>(db: Db, path: String, data: Vec<u8>, how: u64, base: FBase) -> Value {
    let r = if how == 0 { C::build(&path).contents(&data).create(&db) } else { C::load_or_create(&path, how == 1, &db) }; //sync
    //async: let r = if how == 0 { C::build(&path).contents(&data).create_async(&db).await } else { C::load_or_create_async(&path, how == 1, &db).await };
    match r {
        Ok(f) => json!({"t":"ok","f":desc(&f, &base)}),
        Err(e) => file_err(&e),
    }
}

/// Appends to a file, or deletes it when there is nothing to append.
/*async*/ pub fn gone<C: Cfg>(db: Db, id: u32, pieces: Vec<Vec<u8>>, barrier: std::sync::Arc<std::sync::Barrier>) -> Value {
    let f = C::get(id, &db); //sync
    //async: let f = C::get_async(id, &db).await;
    barrier.wait();
    let f = match f {
        Ok(Some(f)) => f,
        Ok(None) => return json!({"t":"none"}),
        Err(e) => return core_err(&e),
    };
    if pieces.is_empty() {
        return match f.delete()/*await*/ {
            Ok(()) => json!({"t":"ok"}),
            Err(e) => file_err(&e),
        };
    }
    for p in pieces {
        if let Err(e) = f.append(&p)/*await*/ {
            return core_err(&e);
        }
    }
    json!({"t":"ok"})
}
