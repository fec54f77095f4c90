//! Drivers that exercise bonsaidb-server and bonsaidb-client and record what happened.
#[path = "../../common/exec.rs"]
pub mod exec;
#[path = "../../common/gen.rs"]
pub mod gen;
#[path = "../../common/ops.rs"]
pub mod ops;
#[path = "../../common/schema.rs"]
pub mod schema;
#[allow(clippy::all)]
pub mod aexec {
    include!(concat!(env!("OUT_DIR"), "/exec_async.rs"));
}
#[path = "../../common/kvexec.rs"]
pub mod kvexec;
#[path = "../../common/kvops.rs"]
pub mod kvops;
#[allow(clippy::all)]
pub mod akvexec {
    include!(concat!(env!("OUT_DIR"), "/kvexec_async.rs"));
}
#[path = "../../local/src/perturb.rs"]
pub mod perturb;
#[path = "../../common/authexec.rs"]
pub mod authexec;
#[allow(clippy::all)]
pub mod aauthexec {
    include!(concat!(env!("OUT_DIR"), "/authexec_async.rs"));
}
pub mod access;
pub mod auth;
pub mod conn;
pub mod net;
pub mod pubsub;
pub mod same;
#[path = "../../local/src/util.rs"]
pub mod util;

fn main() {
    // the runtime's other tasks go on meanwhile
    bonsaidb_client::verif::set_hook(Some(std::sync::Arc::new(|name| {
        match tokio::runtime::Handle::try_current().map(|h| h.runtime_flavor()) {
            Ok(tokio::runtime::RuntimeFlavor::MultiThread) => tokio::task::block_in_place(|| perturb::hit(name)),
            _ => perturb::hit(name),
        }
    })));
    let args = util::Args::parse();
    let r = match args.cmd.as_str() {
        "same" => same::run(&args),
        "sameconc" => same::conc(&args),
        "samekv" => same::kv(&args),
        "pubsub" => pubsub::run(&args),
        "auth" => auth::run(&args),
        "conn" => conn::run(&args),
        "access" => access::run(&args),
        other => {
            eprintln!("unknown command {other}");
            std::process::exit(2);
        }
    };
    if let Err(e) = r {
        eprintln!("driver error: {e:?}");
        std::process::exit(2);
    }
}
