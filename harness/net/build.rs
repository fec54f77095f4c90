// Derives the asynchronous executor from the blocking one.
fn main() {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../common");
    for name in ["exec", "kvexec", "authexec"] {
        let src = dir.join(format!("{name}.rs"));
        println!("cargo:rerun-if-changed={}", src.display());
        let Ok(text) = std::fs::read_to_string(&src) else { continue };
        let mut out = String::new();
        let mut skip_next_sync = false;
        for line in text.lines() {
            if line.trim_end().ends_with("//sync") {
                skip_next_sync = true;
                continue;
            }
            let t = line.trim_start();
            if let Some(rest) = t.strip_prefix("//async: ") {
                let _ = skip_next_sync;
                out.push_str(rest);
            } else {
                out.push_str(line);
            }
            out.push('\n');
        }
        let out = out
            .replace("/*async*/ pub fn", "pub async fn")
            .replace("/*async*/ fn", "async fn")
            .replace("/*await*/", ".await");
        let dst = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join(format!("{name}_async.rs"));
        std::fs::write(dst, out).unwrap();
    }
}
