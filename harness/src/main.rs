//! Conformance driver: reads one JSON command per line, runs the real `krates`
//! code through its public API only, and writes one JSON observation per line.
//! A panic in the code under test is recorded as data.
mod build;
mod misc;

use serde_json::{Value, json};
use std::io::{BufRead, Write};

pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: expected string, got {v}"))
}

pub fn arr(v: &Value) -> &[Value] {
    static EMPTY: Vec<Value> = Vec::new();
    match v {
        Value::Null => &EMPTY,
        _ => v.as_array().unwrap_or_else(|| panic!("harness: expected array, got {v}")),
    }
}

fn run(cmd: &Value) -> Value {
    match s(&cmd["mode"]) {
        "build" => build::run(cmd),
        "index" => build::index(cmd),
        "kid" => misc::kid(cmd),
        "kidcmp" => misc::kidcmp(cmd),
        "spec" => misc::spec(cmd),
        "specmatch" => misc::specmatch(cmd),
        "cmd" => misc::cmd(cmd),
        "exec" => misc::exec(cmd),
        "md" => misc::md(cmd),
        "feature" => misc::feature(cmd),
        "mdc" => misc::mdc(cmd),
        "text" => misc::text(cmd),
        m => panic!("harness: unknown mode {m}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 3 {
        eprintln!("usage: kharness IN.ndjson OUT.ndjson");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("open input"))
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .collect();
    let threads: usize = std::env::var("KH_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    // Each answer is written as soon as it is there, after a line that says it was begun, so that whoever started us can tell
    // which case it was that ended us.
    let out = std::sync::Mutex::new(std::fs::File::create(&args[2]).expect("create output"));
    let say = |l: String| out.lock().unwrap().write_all(l.as_bytes()).expect("write");
    std::thread::scope(|sc| {
        for _ in 0..threads.max(1) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= lines.len() {
                            break;
                        }
                        let cmd: Value = serde_json::from_str(&lines[i]).expect("command json");
                        say(format!("{i}\n"));
                        let mut out = match std::panic::catch_unwind(|| run(&cmd)) {
                            Ok(v) => v,
                            Err(e) => {
                                let msg = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                if msg.starts_with("harness:") {
                                    eprintln!("line {i}: {msg}");
                                    std::process::exit(2);
                                }
                                let msg: String = msg.chars().take(600).collect();
                                json!({"status": "panic", "msg": msg})
                            }
                        };
                        out["id"] = cmd["id"].clone();
                        say(format!("{i} {out}\n"));
                    }
                })
                .unwrap();
        }
    });
}
