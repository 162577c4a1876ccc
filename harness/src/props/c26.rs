//! C26: every subset of the crate's features is a working build.

use crate::codec;
use crate::data::*;
use crate::engine::*;
use crate::exec::*;
use crate::foreign::*;
use crate::readers::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

#[path = "../../../features/src/core.rs"]
mod core;

pub fn property() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        rule: "the crate is built with no features, with each compression method alone and with generated subsets of its features; generated archives (foreign layouts, all methods) are read with every reader of the build, and generated write histories written, and the answers compared with those of the full build: the same wherever only enabled methods occur, CompressionNotSupported with the method's number otherwise; the 65536 method numbers are enumerated in each build; non-trivial = the case has both data and a method that some subset lacks",
        assumptions: &["the dependencies are built with all of their features", "Deflate64 with a data descriptor is left out (finding F4)"],
        parts: || {
            vec![
                part("build", SUBSETS, ALL, index_strategy(), check_build),
                part("read", 9_000, 24_000, (mask_strategy(SUBSETS), farchive_strategy(0..5, 800, true)).prop_map(|(mask, a)| Read { mask, a, stream: true }).boxed(), check_read),
                part("read-placed", 6_000, 16_000, (mask_strategy(SUBSETS), farchive_strategy(0..5, 800, false)).prop_map(|(mask, a)| Read { mask, a, stream: false }).boxed(), check_read),
                part("write", 9_000, 24_000, write_strategy(SUBSETS), check_write),
                part("read-more", 0, 60_000, (mask_strategy(ALL), farchive_strategy(0..5, 800, true)).prop_map(|(mask, a)| Read { mask, a, stream: true }).boxed(), check_read),
                part("write-more", 0, 60_000, write_strategy(ALL), check_write),
            ]
        },
    }
}

/// Number of subsets in the quick and thorough tiers.
const SUBSETS: u64 = 20;
const ALL: u64 = 96;

const NAMES: [&str; 9] = ["deflate", "deflate64", "bzip2", "lzma", "zstd", "xz", "chrono", "tokio", "tokio-fs"];
const IDS: [u16; 6] = [codec::DEFLATE, codec::DEFLATE64, codec::BZ, codec::LZMA, codec::ZSTD, codec::XZ];

/// The k-th subset: none, each method with varying company, then generated ones.
fn mask_of(k: u64) -> u16 {
    match k {
        0 => 0,
        1..=6 => 1 << (k - 1) | [0, 1 << 6, 1 << 7, 1 << 8][k as usize % 4],
        7 => 1 << 7,
        8 => 0x1ff & !1,
        // All but one compression method, in varying company.
        9..=13 => 0x1ff & !(1 << (k - 8)) & !([0, 1 << 6, 3 << 7, 1 << 8][k as usize % 4]),
        14 => 1 << 8,
        15 => 1 << 6,
        _ => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            (Rng(seed.wrapping_mul(0x9e37).wrapping_add(k)).next() >> 13) as u16 & 0x1ff
        }
    }
}

fn mask_strategy(n: u64) -> BoxedStrategy<u16> {
    (0..n).prop_map(mask_of).boxed()
}

fn describe(mask: u16) -> String {
    let f: Vec<_> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    if f.is_empty() { "no features".into() } else { f.join("+") }
}

fn has(mask: u16, id: u16) -> bool {
    id == 0 || IDS.iter().position(|x| *x == id).is_some_and(|i| mask >> i & 1 == 1)
}

// ---------------------------------------------------------------- building

fn hash_tree(p: &Path, h: &mut u64) {
    let mut entries: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    entries.sort();
    for e in entries {
        if e.is_dir() {
            hash_tree(&e, h);
        } else {
            mix(e.to_string_lossy().as_bytes(), h);
            mix(&std::fs::read(&e).unwrap_or_default(), h);
        }
    }
}

fn mix(b: &[u8], h: &mut u64) {
    for x in b.iter().chain(&[0xff]) {
        *h = (*h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
}

fn verif() -> PathBuf {
    std::env::var_os("AZV_VERIF").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

/// State of the code under test, so that no build of another state is used.
fn fingerprint() -> u64 {
    static F: OnceLock<u64> = OnceLock::new();
    *F.get_or_init(|| {
        let mut h = 0xcbf2_9ce4_8422_2325;
        let repo = PathBuf::from(std::env::var_os("AZV_REPO").unwrap_or_else(|| "/repo".into()));
        hash_tree(&repo.join("src"), &mut h);
        mix(&std::fs::read(repo.join("Cargo.toml")).unwrap_or_default(), &mut h);
        hash_tree(&verif().join("features/src"), &mut h);
        mix(&std::fs::read(verif().join("features/Cargo.toml")).unwrap_or_default(), &mut h);
        h
    })
}

struct Lock(std::fs::File);

impl Lock {
    fn take(p: &Path) -> Lock {
        let f = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(p).expect("lock file");
        while unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) } != 0 {}
        Lock(f)
    }
}

impl Drop for Lock {
    fn drop(&mut self) {
        unsafe { libc::flock(self.0.as_raw_fd(), libc::LOCK_UN) };
    }
}

enum Build {
    Ready(PathBuf),
    /// The code under test, or the use of its API, doesn't compile with this subset.
    Broken(String),
    /// The build failed for another reason.
    Unavailable(String),
}

/// The runner for a subset, built if need be.
fn runner(mask: u16) -> Build {
    let dir = verif().join("features");
    let target = dir.join("target");
    let bins = target.join("bins").join(format!("{:016x}", fingerprint()));
    let bin = bins.join(format!("{mask:03x}"));
    let failed = bins.join(format!("{mask:03x}.err"));
    std::fs::create_dir_all(&target).expect("target directory");
    let _lock = Lock::take(&target.join("azv.lock"));
    if bin.exists() {
        return Build::Ready(bin);
    }
    if let Ok(e) = std::fs::read_to_string(&failed) {
        return Build::Broken(e);
    }
    let cargo = |args: &[&str]| {
        let o = Command::new("cargo").args(args).arg("--offline").current_dir(&dir).env("CARGO_TARGET_DIR", &target).stdin(Stdio::null()).output();
        match o {
            Ok(o) => (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned()),
            Err(e) => (false, e.to_string()),
        }
    };
    if !bins.exists() {
        // Another state of the code: nothing of the last one is to be reused.
        let _ = std::fs::remove_dir_all(target.join("bins"));
        cargo(&["clean", "-p", "async_zip", "-p", "azv-features"]);
        std::fs::create_dir_all(&bins).expect("directory for runners");
    }
    let features: Vec<_> = (0..9).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    let mut last = String::new();
    for _ in 0..2 {
        let (ok, err) = cargo(&["build", "--locked", "--features", &features.join(",")]);
        if ok {
            std::fs::rename(target.join("debug/azv-features"), &bin).expect("moving the runner");
            return Build::Ready(bin);
        }
        last = err;
    }
    if last.contains("could not compile `async_zip`") || last.contains("could not compile `azv-features`") {
        let first: Vec<_> = last.lines().skip_while(|l| !l.starts_with("error")).take(6).collect();
        let text = first.join(" | ");
        let _ = std::fs::write(&failed, &text);
        return Build::Broken(text);
    }
    Build::Unavailable(last)
}

struct Runner {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Runner {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static RUNNERS: RefCell<HashMap<u16, Runner>> = RefCell::default();
}

/// Asks the build of a subset; None if it can't be had here.
fn ask(mask: u16, q: &Value) -> Result<Option<Value>, String> {
    let known = RUNNERS.with(|r| r.borrow().contains_key(&mask));
    if !known {
        let bin = match runner(mask) {
            Build::Ready(b) => b,
            Build::Broken(e) => return Err(format!("with {} the crate does not build: {e}", describe(mask))),
            Build::Unavailable(e) => {
                eprintln!("runner for {} not available: {}", describe(mask), e.lines().last().unwrap_or(""));
                return Ok(None);
            }
        };
        let mut child = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("starting the runner");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        RUNNERS.with(|r| r.borrow_mut().insert(mask, Runner { child, to, from }));
    }
    RUNNERS.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.get_mut(&mask).unwrap();
        let mut line = String::new();
        let sent = writeln!(p.to, "{q}").and_then(|_| p.to.flush());
        let mut fd = libc::pollfd { fd: p.from.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let ready = unsafe { libc::poll(&mut fd, 1, 300_000) };
        if sent.is_err() || ready != 1 || p.from.read_line(&mut line).unwrap_or(0) == 0 {
            let what = if ready == 1 { "died" } else { "gave no answer within 300 s" };
            r.remove(&mask);
            return Err(format!("the build with {} {what}", describe(mask)));
        }
        serde_json::from_str(&line).map(Some).map_err(|e| format!("answer of the runner: {e}"))
    })
}

// ---------------------------------------------------------------- checks

fn check_build(k: &u64, ctx: &mut Ctx) -> Check {
    let mask = mask_of(*k);
    ctx.nontrivial();
    ctx.label(format!("features={}", describe(mask)));
    let Some(got) = ask(mask, &json!({"op": "methods"}))? else {
        ctx.label("unavailable");
        return Ok(());
    };
    let mut want: Vec<u16> = IDS.iter().copied().filter(|i| has(mask, *i)).collect();
    want.push(0);
    want.sort();
    if got != json!(want) {
        return Err(format!("with {} the supported methods are {got}, expected {want:?}", describe(mask)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Read {
    mask: u16,
    a: FArchive,
    /// Whether the layout can be streamed.
    stream: bool,
}

fn same(what: &str, mask: u16, got: &Value, want: &Value) -> Check {
    if got == want {
        return Ok(());
    }
    let cut = |v: &Value| {
        let s = v.to_string();
        s.chars().take(300).collect::<String>()
    };
    Err(format!("{what} with {}: {} instead of {}", describe(mask), cut(got), cut(want)))
}

fn check_read(c: &Read, ctx: &mut Ctx) -> Check {
    let mut a = c.a.clone();
    for e in &mut a.entries {
        if e.method == codec::DEFLATE64 {
            e.dd = Dd::None;
        }
    }
    let b = a.build();
    let s = Scratch::new();
    let path = s.file("a.zip", &b.bytes);
    let q = json!({"op": "read", "archive": core::hex(&b.bytes), "path": path.to_str().unwrap()});
    let mut want = on_tokio(core::run(&q));
    let lacking = |i: usize| if has(c.mask, a.entries[i].method) { None } else { Some(format!("CompressionNotSupported({})", a.entries[i].method)) };
    let first = b.cd_order.iter().find_map(|i| lacking(*i));
    ctx.label(if first.is_some() { "lacks-a-method" } else { "has-all-methods" });
    ctx.nontrivial_if(a.entries.iter().any(|e| e.method != 0 && e.data.len() > 0));
    if let Some(e) = &first {
        for k in ["mem", "seek", "fs"] {
            want[k] = json!({ "err": e });
        }
        want["chrono"] = Value::Null;
        want["tokio"]["seek"] = json!({ "err": e });
        let k = (0..a.entries.len()).position(|i| lacking(i).is_some()).unwrap();
        cut_traversal(&mut want["stream"], k, &lacking(k).unwrap());
        cut_traversal(&mut want["tokio"]["stream"], k, &lacking(k).unwrap());
    }
    if c.mask >> 8 & 1 == 0 {
        want.as_object_mut().unwrap().remove("fs");
    }
    if c.mask >> 6 & 1 == 0 {
        want.as_object_mut().unwrap().remove("chrono");
    }
    // The filesystem support needs, and so turns on, tokio.
    if c.mask >> 7 & 3 == 0 {
        want.as_object_mut().unwrap().remove("tokio");
    }
    let Some(mut got) = ask(c.mask, &q)? else {
        ctx.label("unavailable");
        return Ok(());
    };
    if !c.stream {
        for v in [&mut got, &mut want] {
            v["stream"].take();
            if v["tokio"].is_object() {
                v["tokio"]["stream"].take();
            }
        }
    }
    for k in ["mem", "seek", "stream", "tokio", "fs", "chrono"] {
        same(k, c.mask, &got[k], &want[k])?;
    }
    same("answer", c.mask, &got, &want)
}

/// A traversal that meets a method it lacks at entry k.
fn cut_traversal(t: &mut Value, k: usize, e: &str) {
    if let Some(l) = t["entries"].as_array_mut() {
        if l.len() >= k {
            l.truncate(k);
            t["end"] = json!(e);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Write_ {
    mask: u16,
    mode: u8,
    entries: Vec<(String, u16, u8, DataSpec, Option<Hex>, Option<i32>)>,
}

fn write_strategy(n: u64) -> BoxedStrategy<Write_> {
    let m = proptest::sample::select(vec![0u16, codec::DEFLATE, codec::BZ, codec::LZMA, codec::ZSTD, codec::XZ]);
    let e = (proptest::string::string_regex("[a-zé]{0,6}").unwrap(), m, 0u8..4, data_strategy(2_000), proptest::option::weighted(0.3, proptest::collection::vec(any::<u8>(), 0..6).prop_map(Hex)), proptest::option::weighted(0.3, 0i32..=5));
    (mask_strategy(n), 0u8..3, proptest::collection::vec(e, 0..5)).prop_map(|(mask, mode, entries)| Write_ { mask, mode, entries }).boxed()
}

fn check_write(c: &Write_, ctx: &mut Ctx) -> Check {
    let entries: Vec<Value> = c
        .entries
        .iter()
        .map(|(n, m, how, d, other, level)| {
            let d = d.bytes();
            let pre = if how & 1 == 1 { codec::encode(*m, &d, 3) } else { vec![] };
            json!([core::hex(n.as_bytes()), m, how, core::hex(&d), core::hex(&pre), crc32(&d), other.as_ref().map(|o| core::hex(&o.0)), level])
        })
        .collect();
    ctx.nontrivial_if(c.entries.iter().any(|e| e.1 != 0 && e.3.len() > 0));
    ctx.label(if c.entries.iter().all(|e| has(c.mask, e.1)) { "has-all-methods" } else { "lacks-a-method" });
    let q = json!({"op": "write", "mode": c.mode, "entries": entries});
    let mut r = q.clone();
    let only: Vec<u16> = IDS.iter().copied().chain([0]).filter(|i| has(c.mask, *i)).collect();
    r["only"] = json!(only);
    let mut want = block_on(core::run(&r));
    if c.mask >> 7 & 3 == 0 {
        want.as_object_mut().unwrap().remove("tokio");
    }
    let Some(got) = ask(c.mask, &q)? else {
        ctx.label("unavailable");
        return Ok(());
    };
    same("tokio", c.mask, &got["tokio"], &want["tokio"])?;
    same("results", c.mask, &got["results"], &want["results"])?;
    same("archive", c.mask, &got["bytes"], &want["bytes"])?;
    same("answer", c.mask, &got, &want)
}
