//! Drivers that exercise bonsaidb-core/-local/-files and record what happened.
#[path = "../../common/exec.rs"]
pub mod exec;
#[path = "../../common/gen.rs"]
pub mod gen;
#[path = "../../common/ops.rs"]
pub mod ops;
#[path = "../../common/schema.rs"]
pub mod schema;
#[allow(clippy::all)]
pub mod aexec {
    include!(concat!(env!("OUT_DIR"), "/exec_async.rs"));
}
#[path = "../../common/kvexec.rs"]
pub mod kvexec;
#[path = "../../common/kvops.rs"]
pub mod kvops;
#[allow(clippy::all)]
pub mod akvexec {
    include!(concat!(env!("OUT_DIR"), "/kvexec_async.rs"));
}
#[path = "../../common/fexec.rs"]
pub mod fexec;
#[path = "../../common/fops.rs"]
pub mod fops;
#[allow(clippy::all)]
pub mod afexec {
    include!(concat!(env!("OUT_DIR"), "/fexec_async.rs"));
}
pub mod backup;
pub mod bulk;
pub mod files;
pub mod keys;
pub mod cat;
pub mod catconc;
pub mod conc;
pub mod crash;
pub mod fsrec;
pub mod kv;
pub mod perturb;
pub mod store;
pub mod util;
pub mod vault;

fn main() {
    let args = util::Args::parse();
    let r = match args.cmd.as_str() {
        "store" => store::run(&args),
        "backup" => backup::run(&args),
        "bulk" => bulk::run(&args),
        "cat" => cat::run(&args),
        "catconc" => catconc::run(&args),
        "conc" => conc::run(&args),
        "crash" => crash::run(&args),
        "kv" => kv::run(&args),
        "files" => files::run(&args),
        "keys" => keys::run(&args),
        "vault" => vault::run(&args),
        "replay" => store::replay(&args),
        other => {
            eprintln!("unknown command {other}");
            std::process::exit(2);
        }
    };
    if let Err(e) = r {
        eprintln!("driver error: {e:?}");
        std::process::exit(2);
    }
}
