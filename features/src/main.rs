// One JSON request per line in, one answer per line out.
mod core;

use std::io::{BufRead, Write};

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let q: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(core::run(&q))));
        let a = a.unwrap_or_else(|p| {
            let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
            serde_json::json!({ "panic": s })
        });
        writeln!(out, "{a}").unwrap();
        out.flush().unwrap();
    }
}
