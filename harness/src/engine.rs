//! Case engine: seeded generation, worker processes, shrinking, replay, evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
}

/// Per-case context: classification of the case and known-finding sightings.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub known: Vec<String>,
    pub sub: u64,
    allowed_known: Vec<String>,
}

impl Ctx {
    pub fn new(allowed_known: &[String]) -> Ctx {
        Ctx { allowed_known: allowed_known.to_vec(), ..Default::default() }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// Count `n` executions made inside this case (fault positions, prefixes, ...).
    pub fn sub(&mut self, n: u64) {
        self.sub += n;
    }
    /// A deviation that is listed in KNOWN_FINDINGS.json: recorded, not a violation. Unlisted: violation.
    pub fn known(&mut self, id: &str, what: &str) -> Result<(), String> {
        if self.allowed_known.iter().any(|k| k == id) {
            self.known.push(id.to_string());
            Ok(())
        } else {
            Err(format!("{id}: {what}"))
        }
    }
}

pub type Check = Result<(), String>;

pub trait DynPart {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    /// CPU seconds one case may take before it is considered not to terminate.
    fn cpu_limit(&self) -> u64;
    /// Runs case `seed`; on failure returns (message, case json) before shrinking.
    fn run(&self, seed: [u8; 32], ctx: &mut Ctx) -> CaseOutcome;
    /// Shrinks the case of this seed.
    fn shrink(&self, seed: [u8; 32], known: &[String], budget: Duration) -> (Value, String, u64);
    fn generate(&self, seed: [u8; 32]) -> Value;
    fn replay(&self, case: &Value, ctx: &mut Ctx) -> Check;
}

pub struct CaseOutcome {
    pub failure: Option<String>,
    pub hash: u64,
    pub json: Option<Value>,
}

pub struct Part<T: Debug + 'static> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_limit: u64,
    pub strategy: BoxedStrategy<T>,
    pub check: fn(&T, &mut Ctx) -> Check,
}

pub fn part<T, S>(name: &'static str, quick: u64, thorough: u64, strategy: S, check: fn(&T, &mut Ctx) -> Check) -> Box<dyn DynPart>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
{
    Box::new(Part { name, quick, thorough, cpu_limit: 60, strategy: strategy.boxed(), check })
}

pub fn heavy_part<T, S>(name: &'static str, quick: u64, thorough: u64, strategy: S, check: fn(&T, &mut Ctx) -> Check) -> Box<dyn DynPart>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
{
    Box::new(Part { name, quick, thorough, cpu_limit: 240, strategy: strategy.boxed(), check })
}

thread_local! {
    static INDEX: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// The number of the case being generated, for parts which enumerate.
pub fn index_strategy() -> impl Strategy<Value = u64> {
    proptest::strategy::LazyJust::new(|| INDEX.with(|i| i.get()))
}

pub fn runner(seed: [u8; 32]) -> TestRunner {
    let cfg = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        if std::env::var_os("AZV_PANIC").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Runs `f`, turning a panic into Err.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn eval<T>(check: fn(&T, &mut Ctx) -> Check, case: &T, ctx: &mut Ctx) -> Check {
    crate::alloc::reset_case();
    match no_panic(|| check(case, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a, stable across runs.
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl<T> DynPart for Part<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn cpu_limit(&self) -> u64 {
        self.cpu_limit
    }
    fn run(&self, seed: [u8; 32], ctx: &mut Ctx) -> CaseOutcome {
        let tree = self.strategy.new_tree(&mut runner(seed)).expect("strategy");
        let case = tree.current();
        let bytes = serde_json::to_vec(&case).expect("serialise");
        let failure = eval(self.check, &case, ctx).err();
        let json = if failure.is_some() || bytes.len() < 3000 { serde_json::from_slice(&bytes).ok() } else { None };
        CaseOutcome { failure, hash: hash_bytes(&bytes), json }
    }
    fn generate(&self, seed: [u8; 32]) -> Value {
        let tree = self.strategy.new_tree(&mut runner(seed)).expect("strategy");
        serde_json::to_value(tree.current()).unwrap()
    }
    fn shrink(&self, seed: [u8; 32], known: &[String], budget: Duration) -> (Value, String, u64) {
        let mut tree = self.strategy.new_tree(&mut runner(seed)).expect("strategy");
        let start = Instant::now();
        let mut best = tree.current();
        let mut msg = eval(self.check, &best, &mut Ctx::new(known)).err().unwrap_or_else(|| "failure did not repeat".into());
        let mut steps = 0u64;
        if tree.simplify() {
            while start.elapsed() < budget && steps < 20_000 {
                steps += 1;
                let cand = tree.current();
                match eval(self.check, &cand, &mut Ctx::new(known)) {
                    Err(m) => {
                        best = cand;
                        msg = m;
                        if !tree.simplify() {
                            break;
                        }
                    }
                    Ok(()) => {
                        if !tree.complicate() {
                            break;
                        }
                    }
                }
            }
        }
        (serde_json::to_value(&best).unwrap(), msg, steps)
    }
    fn replay(&self, case: &Value, ctx: &mut Ctx) -> Check {
        let c: T = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay case: {e}"))?;
        eval(self.check, &c, ctx)
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: fn() -> Vec<Box<dyn DynPart>>,
}

pub fn case_seed(seed: u64, prop: &str, part: &str, index: u64) -> [u8; 32] {
    INDEX.with(|i| i.set(index));
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let h = hash_bytes(format!("{seed}/{prop}/{part}/{index}/{i}").as_bytes());
        // splitmix finaliser
        let mut z = h.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub evaluations: u64,
    pub sub: u64,
    pub nontrivial: Vec<u64>,
    pub parts: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub done: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Violation {
    pub property: String,
    pub part: String,
    pub index: u64,
    pub message: String,
    pub case: Value,
    pub shrunk: bool,
    pub shrink_steps: u64,
}

fn scale() -> f64 {
    std::env::var("AZV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn scaled(n: u64) -> u64 {
    ((n as f64 * scale()).ceil() as u64).max(1)
}

/// Worker process: runs its share of every part.
pub fn worker(p: &Property, tier: Tier, seed: u64, w: u64, nw: u64, dir: &Path, only: Option<(usize, u64)>) -> i32 {
    let known = load_known(p.id);
    let hb = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(dir.join(format!("hb{w}"))).unwrap();
    let parts = (p.parts)();
    let mut rep = WorkerReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let part_filter = std::env::var("AZV_PART").ok();
    for (pi, part) in parts.iter().enumerate() {
        if let Some(f) = &part_filter {
            if f != part.name() {
                continue;
            }
        }
        let n = scaled(part.cases(tier));
        // Spread the few cases of expensive parts over the workers.
        let mut i = (w + nw - (3 * pi as u64) % nw) % nw;
        let mut sampled = 0;
        if let Some((opi, oi)) = only {
            if opi != pi {
                continue;
            }
            i = oi;
        }
        while i < n {
            let mut rec = [0u8; 24];
            rec[..8].copy_from_slice(&(pi as u64).to_le_bytes());
            rec[8..16].copy_from_slice(&i.to_le_bytes());
            hb.write_all_at(&rec, 0).unwrap();
            let cs = case_seed(seed, p.id, part.name(), i);
            let mut ctx = Ctx::new(&known);
            let out = part.run(cs, &mut ctx);
            rep.evaluations += 1;
            rep.sub += ctx.sub;
            *rep.parts.entry(part.name().to_string()).or_default() += 1;
            if ctx.nontrivial {
                distinct.insert(out.hash);
            }
            let mut ls = std::mem::take(&mut ctx.labels);
            ls.sort();
            ls.dedup();
            for l in ls {
                *rep.labels.entry(format!("{}:{}", part.name(), l)).or_default() += 1;
            }
            for k in &ctx.known {
                *rep.known.entry(k.clone()).or_default() += 1;
            }
            if let Some(msg) = out.failure {
                rec[16] = 1;
                hb.write_all_at(&rec, 0).unwrap();
                let mut v = Violation {
                    property: p.id.into(),
                    part: part.name().into(),
                    index: i,
                    message: msg,
                    case: out.json.unwrap_or(Value::Null),
                    shrunk: false,
                    shrink_steps: 0,
                };
                let vp = dir.join(format!("viol{w}.json"));
                std::fs::write(&vp, serde_json::to_vec(&v).unwrap()).unwrap();
                let (case, m, steps) = part.shrink(cs, &known, Duration::from_secs(25));
                v.case = case;
                v.message = m;
                v.shrunk = true;
                v.shrink_steps = steps;
                let tmp = dir.join(format!("viol{w}.tmp"));
                std::fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
                std::fs::rename(&tmp, &vp).unwrap();
                return 1;
            }
            if ctx.nontrivial && sampled < 1 && w < 3 {
                if let Some(j) = out.json {
                    rep.samples.push(json!({"part": part.name(), "index": i, "case": j}));
                    sampled += 1;
                }
            }
            if only.is_some() {
                break;
            }
            i += nw;
        }
    }
    rep.nontrivial = distinct.into_iter().collect();
    rep.done = true;
    std::fs::write(dir.join(format!("rep{w}.json")), serde_json::to_vec(&rep).unwrap()).unwrap();
    0
}

#[derive(Deserialize)]
struct KnownFile {
    findings: Vec<KnownEntry>,
}
#[derive(Deserialize)]
struct KnownEntry {
    id: String,
    property: String,
    status: String,
    what: String,
}

fn known_path() -> PathBuf {
    verif_dir().join("KNOWN_FINDINGS.json")
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("AZV_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known_entries(prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(known_path()) else { return vec![] };
    let f: KnownFile = serde_json::from_str(&s).expect("KNOWN_FINDINGS.json");
    f.findings.into_iter().filter(|e| e.property == prop && e.status == "known").map(|e| (e.id, e.what)).collect()
}

pub fn load_known(prop: &str) -> Vec<String> {
    load_known_entries(prop).into_iter().map(|e| e.0).collect()
}

/// Wall-clock seconds without any progress and (almost) without CPU time after which a case counts as stuck.
const STALL: u64 = 150;

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn read_hb(dir: &Path, w: u64) -> Option<(u64, u64, u8)> {
    let b = std::fs::read(dir.join(format!("hb{w}"))).ok()?;
    if b.len() < 24 {
        return None;
    }
    Some((u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()), b[16]))
}

fn spawn_worker(p: &Property, tier: Tier, seed: u64, w: u64, nw: u64, dir: &Path, only: Option<(u64, u64)>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(p.id).arg(tier.name()).arg(seed.to_string()).arg(w.to_string()).arg(nw.to_string()).arg(dir);
    if let Some((a, b)) = only {
        c.arg(a.to_string()).arg(b.to_string());
    }
    c.stdin(std::process::Stdio::null());
    c.spawn().expect("spawn worker")
}

pub fn run_property(p: &Property, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let nw: u64 = std::env::var("AZV_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = verif_dir().join("replays").join(format!("run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("run dir");
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let scratch = PathBuf::from(format!("{base}/azv-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    std::env::set_var("AZV_SCRATCH", &scratch);
    let code = orchestrate(p, tier, seed, nw, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

enum End {
    Ok,
    Viol(Violation),
    Error(String),
}

fn orchestrate(p: &Property, tier: Tier, seed: u64, nw: u64, dir: &Path, start: Instant) -> i32 {
    let parts = (p.parts)();
    let mut children: Vec<(u64, std::process::Child, Option<i32>, (u64, u64, u8), u64, Instant)> = (0..nw)
        .map(|w| (w, spawn_worker(p, tier, seed, w, nw, dir, None), None, (u64::MAX, 0, 0), 0, Instant::now()))
        .collect();
    let mut end = End::Ok;
    'outer: loop {
        let mut running = 0;
        for (w, ch, code, last, base, since) in children.iter_mut() {
            if code.is_some() {
                continue;
            }
            if let Some(st) = ch.try_wait().expect("wait") {
                use std::os::unix::process::ExitStatusExt;
                let c = st.code().unwrap_or(1000 + st.signal().unwrap_or(0));
                *code = Some(c);
                match c {
                    0 => {}
                    1 => {
                        let v: Violation = serde_json::from_slice(&std::fs::read(dir.join(format!("viol{w}.json"))).expect("violation file")).expect("violation json");
                        end = End::Viol(v);
                        break 'outer;
                    }
                    other => {
                        end = confirm_crash(p, tier, seed, *w, dir, &parts, other);
                        break 'outer;
                    }
                }
                continue;
            }
            running += 1;
            // CPU-time watchdog on the case in progress.
            if let Some(hb) = read_hb(dir, *w) {
                let ticks = cpu_ticks(ch.id()).unwrap_or(0);
                if hb != *last {
                    *last = hb;
                    *base = ticks;
                    *since = Instant::now();
                } else {
                    let used = ticks.saturating_sub(*base) / 100;
                    let lim = parts.get(hb.0 as usize).map(|x| x.cpu_limit()).unwrap_or(60);
                    if hb.2 == 1 && used > 90 {
                        let v: Violation = serde_json::from_slice(&std::fs::read(dir.join(format!("viol{w}.json"))).expect("violation file")).expect("violation json");
                        end = End::Viol(v);
                        break 'outer;
                    } else if hb.2 == 0 && (used > lim || (used < 5 && since.elapsed().as_secs() > STALL)) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        end = confirm_crash(p, tier, seed, *w, dir, &parts, -1);
                        break 'outer;
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (_, ch, code, _, _, _) in children.iter_mut() {
        if code.is_none() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    // Gather reports.
    let mut rep = WorkerReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        if let Ok(b) = std::fs::read(dir.join(format!("rep{w}.json"))) {
            let r: WorkerReport = serde_json::from_slice(&b).expect("report");
            rep.evaluations += r.evaluations;
            rep.sub += r.sub;
            distinct.extend(r.nontrivial);
            for (k, v) in r.parts {
                *rep.parts.entry(k).or_default() += v;
            }
            for (k, v) in r.labels {
                *rep.labels.entry(k).or_default() += v;
            }
            for (k, v) in r.known {
                *rep.known.entry(k).or_default() += v;
            }
            rep.samples.extend(r.samples);
        }
    }
    let mut seen_parts: HashSet<String> = HashSet::new();
    let samples: Vec<Value> = rep
        .samples
        .into_iter()
        .filter(|s| seen_parts.insert(s["part"].as_str().unwrap_or("").to_string()))
        .take(6)
        .collect();
    let violations = matches!(end, End::Viol(_)) as u64;
    let mut cov = json!({
        "evaluations": rep.evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule,
        "samples": samples,
        "cases_per_part": rep.parts,
        "labels": rep.labels,
    });
    if rep.sub > 0 {
        cov["executions_inside_cases"] = json!(rep.sub);
    }
    if !rep.known.is_empty() {
        cov["known_findings_seen"] = json!(rep.known);
    }
    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence dir");
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");

    for (id, what) in load_known_entries(p.id) {
        if rep.known.contains_key(&id) {
            println!("KNOWN-FINDING: property={} {}: {}", p.id, id, what);
        }
    }
    match end {
        End::Ok => {
            println!(
                "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} inner={} wall={:.1}s",
                p.id,
                tier.name(),
                seed,
                rep.evaluations,
                distinct.len(),
                rep.sub,
                start.elapsed().as_secs_f64()
            );
            0
        }
        End::Viol(v) => {
            let path = write_replay(p, &v);
            println!("{}", v.message.chars().take(2000).collect::<String>());
            println!("part={} index={} shrunk={} steps={}", v.part, v.index, v.shrunk, v.shrink_steps);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        End::Error(e) => {
            println!("ERROR property={} {}", p.id, e);
            2
        }
    }
}

fn write_replay(p: &Property, v: &Violation) -> PathBuf {
    let d = verif_dir().join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let h = hash_bytes(&serde_json::to_vec(&v.case).unwrap());
    let path = d.join(format!("{}-{}-{:016x}.json", p.id, v.part, h));
    let mut f = std::fs::File::create(&path).unwrap();
    f.write_all(serde_json::to_string_pretty(v).unwrap().as_bytes()).unwrap();
    path
}

/// A worker died or stopped progressing. Re-run exactly that case alone.
fn confirm_crash(p: &Property, tier: Tier, seed: u64, w: u64, dir: &Path, parts: &[Box<dyn DynPart>], code: i32) -> End {
    let Some((pi, idx, shrinking)) = read_hb(dir, w) else {
        return End::Error(format!("worker {w} ended with {code} before its first case"));
    };
    let Some(part) = parts.get(pi as usize) else { return End::Error("bad heartbeat".into()) };
    if shrinking == 1 {
        // Died while shrinking an already established failure.
        if let Ok(b) = std::fs::read(dir.join(format!("viol{w}.json"))) {
            if let Ok(v) = serde_json::from_slice::<Violation>(&b) {
                return End::Viol(v);
            }
        }
    }
    let nd = dir.join("confirm");
    std::fs::create_dir_all(&nd).unwrap();
    let mut ch = spawn_worker(p, tier, seed, 0, 1, &nd, Some((pi, idx)));
    let lim = part.cpu_limit() * 2;
    let since = Instant::now();
    let what;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            match st.code() {
                Some(0) => {
                    return End::Error(format!("worker ended with {code} on {}#{idx} but the case passes on its own", part.name()));
                }
                Some(1) => {
                    let v: Violation = serde_json::from_slice(&std::fs::read(nd.join("viol0.json")).unwrap()).unwrap();
                    return End::Viol(v);
                }
                Some(77) => what = "allocation cap exceeded".to_string(),
                c => what = format!("process died: code {:?} signal {:?}", c, st.signal()),
            }
            break;
        }
        let ticks = cpu_ticks(ch.id()).unwrap_or(0);
        if ticks / 100 > lim {
            let _ = ch.kill();
            let _ = ch.wait();
            what = format!("does not terminate: more than {lim} s of CPU time");
            break;
        }
        if ticks / 100 < 5 && since.elapsed().as_secs() > STALL {
            let _ = ch.kill();
            let _ = ch.wait();
            what = format!("does not terminate: no progress for {STALL} s without using the CPU");
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let cs = case_seed(seed, p.id, part.name(), idx);
    End::Viol(Violation {
        property: p.id.into(),
        part: part.name().into(),
        index: idx,
        message: what,
        case: part.generate(cs),
        shrunk: false,
        shrink_steps: 0,
    })
}

pub fn replay(props: &[Property], path: &Path) -> i32 {
    let v: Violation = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay json");
    let p = props.iter().find(|p| p.id == v.property).expect("property");
    let parts = (p.parts)();
    let part = parts.iter().find(|x| x.name() == v.part).expect("part");
    let mut ctx = Ctx::new(&load_known(p.id));
    match part.replay(&v.case, &mut ctx) {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}
