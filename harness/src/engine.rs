//! A small property-based testing engine.
//!
//! Generators draw bounded integers from a [`Src`]; the sequence of draws *is* the test case.
//! Shrinking edits that sequence (deleting blocks, zeroing, halving and decrementing draws) and
//! re-runs the property, so every generator shrinks for free and every replay file is a list of
//! draws plus the human-readable input it decodes to.
//!
//! The parent process distributes case numbers over worker processes, so that an abort
//! (stack overflow, double panic, ...) in the code under test is attributed to a case instead of
//! ending the check.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

// ---------------------------------------------------------------------------------------------
// Choice source

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    rng: u64,
    forced_first: Option<u64>,
    pub record: Vec<u64>,
    stretched: bool,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64, forced_first: Option<u64>) -> Self {
        Src {
            replay: None,
            pos: 0,
            rng: seed,
            forced_first,
            record: Vec::new(),
            stretched: false,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            replay: Some(choices),
            pos: 0,
            rng: 0,
            forced_first: None,
            record: Vec::new(),
            stretched: false,
        }
    }
    /// A value in `0..n`; 0 is the simplest one.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if let Some(r) = &self.replay {
            let v = r.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v % n
        } else if let Some(f) = self.forced_first.take() {
            f % n
        } else {
            splitmix(&mut self.rng) % n
        };
        self.record.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `true` with probability `num/den`; `false` is the simple case.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())]
    }
    pub fn pick_ref<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index into a list of weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        unreachable!()
    }
    /// A length in `lo..=hi`, biased towards short; once in a while, and at most once in a case, a much longer one.
    pub fn long(&mut self, lo: usize, hi: usize) -> usize {
        if !self.stretched && self.chance(1, 600) {
            self.stretched = true;
            let top = self.pick(&[12, 40, 150, 400]);
            return lo + self.usize(top.max(hi));
        }
        self.len(lo, hi)
    }
    /// A length in `lo..=hi`, biased towards short.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        let a = self.usize(hi - lo + 1);
        let b = self.usize(hi - lo + 1);
        lo + if self.chance(1, 4) { a.max(b) } else { a.min(b) }
    }
}

// ---------------------------------------------------------------------------------------------
// Property interface

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable class of the failure (no line numbers): identifies known findings.
    pub sig: String,
    pub detail: String,
}

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[derive(Default)]
pub struct Rec {
    /// The generated input, written out.
    pub input: String,
    pub nontrivial: bool,
    /// Feature labels, counted in the evidence.
    pub labels: Vec<&'static str>,
    /// How many evaluations this case stands for (comparisons against the oracle); at least 1.
    pub evals: u64,
}

impl Rec {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Rec) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// The first `enumerate` cases force the first draw to 0, 1, 2, ... (exhaustive part).
    pub enumerate: u64,
    pub run: PropFn,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`, turning a panic into `Err((message, location))`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("<unknown>".into(), String::new()))),
    }
}

pub fn norm(msg: &str) -> String {
    // Signatures must not depend on the particular input: drop digits and quoted parts.
    let mut out = String::new();
    let mut in_quote: Option<char> = None;
    for c in msg.chars() {
        match in_quote {
            Some(q) => {
                if c == q {
                    in_quote = None;
                }
            }
            None => match c {
                '"' | '`' => {
                    in_quote = Some(c);
                    out.push('_');
                }
                c if c.is_ascii_digit() => {
                    if !out.ends_with('#') {
                        out.push('#');
                    }
                }
                c => out.push(c),
            },
        }
    }
    out.chars().take(120).collect()
}

pub fn exec(p: &Prop, src: &mut Src) -> (Rec, Option<Fail>) {
    let mut rec = Rec::default();
    let r = guarded(|| (p.run)(src, &mut rec));
    rec.evals = rec.evals.max(1);
    let f = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err((msg, loc)) => Some(Fail {
            sig: format!("panic: {}", norm(&msg)),
            detail: format!("panicked at {loc}: {msg}"),
        }),
    };
    (rec, f)
}

pub fn shrink(
    choices: Vec<u64>,
    first: Fail,
    budget: usize,
    time: Duration,
    mut test: impl FnMut(&[u64]) -> Option<(Vec<u64>, Fail)>,
) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut best = choices;
    let mut best_fail = first;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 || start.elapsed() > time {
                return (best, best_fail);
            }
            left -= 1;
            let cand: Vec<u64> = $cand;
            match test(&cand) {
                Some((rec, f))
                    if rec.len() < best.len() || (rec.len() == best.len() && rec < best) =>
                {
                    best = rec;
                    best_fail = f;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = 32.min(best.len().max(1));
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt!(c);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].fill(0);
                    attempt!(c);
                }
                i += size;
            }
        }
        // Minimise single values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for cand in [0, v / 2, v - v.min(8), v - 1] {
                    if i < best.len() && cand < best[i] {
                        let mut c = best.clone();
                        c[i] = cand;
                        attempt!(c);
                    }
                }
            }
            // Lower a value and drop the following draw (lengths followed by elements).
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt!(c);
            }
            i += 1;
        }
        if best == before {
            return (best, best_fail);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Known findings

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub input: String,
    pub choices: Vec<u64>,
    pub what: String,
}

pub fn known_findings(id: &str) -> Vec<Known> {
    let mut out = Vec::new();
    let Ok(text) = fs::read_to_string(verif_dir().join("known_findings.jsonl")) else {
        return out;
    };
    for line in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else {
            continue;
        };
        if v["property"].as_str() != Some(id) || v["sig"].as_str().is_none() {
            continue;
        }
        out.push(Known {
            property: id.to_string(),
            sig: v["sig"].as_str().unwrap().to_string(),
            input: v["input"].as_str().unwrap_or("").to_string(),
            choices: v["choices"]
                .as_array()
                .map(|a| a.iter().filter_map(Value::as_u64).collect())
                .unwrap_or_default(),
            what: v["what"].as_str().unwrap_or("").to_string(),
        });
    }
    out
}

fn is_known(known: &[Known], f: &Fail, input: &str) -> bool {
    known
        .iter()
        .any(|k| k.sig == f.sig && !k.input.is_empty() && k.input == input)
}

// ---------------------------------------------------------------------------------------------
// Worker

pub fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    let mut h = seed ^ 0xD6E8_FEB8_6659_FD93;
    for b in id.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^= case.wrapping_mul(0xA24B_AED4_963E_E407);
    splitmix(&mut h)
}

fn make_src(p: &Prop, seed: u64, case: u64) -> Src {
    let forced = (case < p.enumerate).then_some(case);
    Src::random(case_seed(seed, p.id, case), forced)
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

pub fn worker(p: &Prop, seed: u64, start: u64, step: u64, total: u64, dir: &Path, deadline: u64) {
    let tag = start % step;
    let mut status = fs::File::create(dir.join(format!("status.{tag}"))).unwrap();
    let known = known_findings(p.id);
    let began = Instant::now();
    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hits = 0u64;
    let mut failure: Option<Value> = None;
    let mut case = start;
    while case < total {
        let _ = status.seek(SeekFrom::Start(0));
        let _ = status.write_all(format!("{case:020}").as_bytes());
        let mut src = make_src(p, seed, case);
        let (rec, f) = exec(p, &mut src);
        evals += rec.evals;
        cases += 1;
        if rec.nontrivial && hashes.insert(hash(&rec.input)) && samples.len() < 4 {
            let n = hashes.len();
            if n == 1 || n == 7 || n == 60 || n == 400 {
                samples.push(clip(&rec.input, 600));
            }
        }
        for l in rec.labels {
            *labels.entry(l).or_default() += 1;
        }
        if let Some(f) = f {
            if is_known(&known, &f, &rec.input) {
                known_hits += 1;
            } else {
                let (best, bf) = shrink(
                    src.record.clone(),
                    f.clone(),
                    6000,
                    Duration::from_secs(40),
                    |c| {
                        let mut s = Src::replay(c.to_vec());
                        let (r, f) = exec(p, &mut s);
                        let f = f?;
                        if is_known(&known, &f, &r.input) {
                            return None;
                        }
                        Some((s.record, f))
                    },
                );
                let mut s = Src::replay(best.clone());
                let (rec2, f2) = exec(p, &mut s);
                let f2 = f2.unwrap_or(bf);
                failure = Some(json!({
                    "property": p.id, "case": case, "seed": seed,
                    "sig": f2.sig, "detail": clip(&f2.detail, 6000),
                    "input": rec2.input, "choices": best,
                    "unshrunk_input": clip(&rec.input, 3000), "unshrunk_sig": f.sig,
                }));
                break;
            }
        }
        case += step;
        if began.elapsed().as_secs() >= deadline {
            break;
        }
    }
    let mut hf = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hf.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hashes.{tag}.{start}")), hf).unwrap();
    let out = json!({
        "evals": evals, "cases": cases, "labels": labels, "samples": samples,
        "known_hits": known_hits, "failure": failure, "complete": case >= total,
    });
    fs::write(
        dir.join(format!("result.{tag}.{start}")),
        serde_json::to_string(&out).unwrap(),
    )
    .unwrap();
}

// ---------------------------------------------------------------------------------------------
// Parent

enum Ended {
    Pass,
    Fail(Fail, String),
    Crash(String),
    Hang,
    Error(String),
}

/// Execute one choice sequence (or one case number) in a fresh, limited process.
fn exec_isolated(p: &Prop, arg: &str, dir: &Path, cpu: u64) -> Ended {
    let exe = std::env::current_exe().unwrap();
    let errf = dir.join("iso.err");
    let out = Command::new("sh")
        .arg("-c")
        .arg(format!(
            "ulimit -t {cpu}; ulimit -v 12000000; ulimit -c 0; exec \"$0\" iso {} {arg} 2>{}",
            p.id,
            errf.display()
        ))
        .arg(&exe)
        .env("RUST_BACKTRACE", "0")
        .output();
    let Ok(out) = out else {
        return Ended::Error("cannot spawn".into());
    };
    use std::os::unix::process::ExitStatusExt;
    let err = fs::read(&errf).unwrap_or_default();
    let err = String::from_utf8_lossy(&err).into_owned();
    if let Some(sig) = out.status.signal() {
        if sig == 24 || sig == 9 {
            return Ended::Hang;
        }
        let first = err.lines().find(|l| !l.trim().is_empty()).unwrap_or("");
        if first.contains("memory allocation") {
            return Ended::Error(format!("out of memory: {first}"));
        }
        return Ended::Crash(format!("killed by signal {sig}: {}", clip(err.trim(), 300)));
    }
    match out.status.code() {
        Some(0) => Ended::Pass,
        Some(1) => {
            let v: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
            Ended::Fail(
                Fail {
                    sig: v["sig"].as_str().unwrap_or("?").into(),
                    detail: v["detail"].as_str().unwrap_or("?").into(),
                },
                v["input"].as_str().unwrap_or("").into(),
            )
        }
        c => Ended::Error(format!("exit {c:?}: {}", clip(err.trim(), 300))),
    }
}

/// Entry point of the isolated process.
pub fn iso(p: &Prop, arg: &str) -> i32 {
    let mut src = if let Some(path) = arg.strip_prefix('@') {
        let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
        Src::replay(
            v["choices"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| v.as_u64().unwrap())
                .collect(),
        )
    } else {
        let (seed, case) = arg.split_once(':').unwrap();
        make_src(p, seed.parse().unwrap(), case.parse().unwrap())
    };
    let (rec, f) = exec(p, &mut src);
    match f {
        None => 0,
        Some(f) => {
            println!(
                "{}",
                json!({"sig": f.sig, "detail": f.detail, "input": rec.input, "choices": src.record})
            );
            1
        }
    }
}

/// Draws of a case up to the point where it aborts: re-run generation only, recording to a file.
fn spawn_worker(
    p: &Prop,
    seed: u64,
    start: u64,
    step: u64,
    total: u64,
    dir: &Path,
    deadline: u64,
) -> Child {
    let exe = std::env::current_exe().unwrap();
    let err = fs::File::create(dir.join(format!("err.{}", start % step))).unwrap();
    Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(exe)
        .args([
            "worker",
            p.id,
            &seed.to_string(),
            &start.to_string(),
            &step.to_string(),
            &total.to_string(),
            dir.to_str().unwrap(),
            &deadline.to_string(),
        ])
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .expect("spawn worker")
}

fn read_status(dir: &Path, tag: u64) -> Option<u64> {
    let mut s = String::new();
    fs::File::open(dir.join(format!("status.{tag}")))
        .ok()?
        .read_to_string(&mut s)
        .ok()?;
    s.trim().parse().ok()
}

fn write_replay(p: &Prop, v: &Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let h = hash(&format!("{}{}", v["input"], v["sig"]));
    let path = dir.join(format!("{}-{:08x}.json", p.id, h as u32));
    let _ = fs::write(&path, serde_json::to_string_pretty(v).unwrap() + "\n");
    path
}

pub fn run_check(p: &Prop, tier: &str, seed: u64) -> i32 {
    let began = Instant::now();
    let total = if tier == "thorough" { p.thorough } else { p.quick };
    let total = std::env::var("MCHECK_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(total);
    let deadline: u64 = if tier == "thorough" { 3000 } else { 240 };
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let n = n.clamp(1, 8);
    let dir = std::env::temp_dir().join(format!("mcheck-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();

    let mut violations: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut extra_cases = 0u64;

    // Committed regression cases: the minimal failing cases found so far, replayed first.
    let mut regress = 0u64;
    if let Ok(text) = fs::read_to_string(verif_dir().join("regressions").join(format!("{}.jsonl", p.id))) {
        for line in text.lines().filter(|l| !l.trim().is_empty()) {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            let path = dir.join("regress.json");
            let _ = fs::write(&path, v.to_string());
            regress += 1;
            match exec_isolated(p, &format!("@{}", path.display()), &dir, 60) {
                Ended::Pass => {}
                Ended::Fail(f, input) => {
                    if !is_known(&known_findings(p.id), &f, &input) {
                        violations.push(json!({"property": p.id, "sig": f.sig, "detail": f.detail,
                            "input": input, "choices": v["choices"], "from": "regression"}));
                    }
                }
                Ended::Crash(c) => violations.push(json!({"property": p.id, "sig": "crash", "detail": c,
                    "input": v["input"], "choices": v["choices"], "from": "regression"})),
                Ended::Hang => violations.push(json!({"property": p.id, "sig": "hang",
                    "detail": "did not finish within 60 s of CPU time", "input": v["input"],
                    "choices": v["choices"], "from": "regression"})),
                Ended::Error(e) => errors.push(format!("regression case: {e}")),
            }
        }
    }

    struct W {
        child: Child,
        tag: u64,
        start: u64,
        last: Option<u64>,
        since: Instant,
        done: bool,
        restarts: u32,
    }
    let mut ws: Vec<W> = (0..n)
        .filter(|k| *k < total)
        .map(|k| W {
            child: spawn_worker(p, seed, k, n, total, &dir, deadline),
            tag: k,
            start: k,
            last: None,
            since: Instant::now(),
            done: false,
            restarts: 0,
        })
        .collect();
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(15));
        if !violations.is_empty() || !errors.is_empty() {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            break;
        }
        for w in ws.iter_mut().filter(|w| !w.done) {
            let ended = w.child.try_wait().unwrap();
            let mut bad = None;
            if let Some(st) = ended {
                if st.success() {
                    w.done = true;
                    continue;
                }
                bad = Some(format!("worker ended with {st}"));
            } else {
                let cur = read_status(&dir, w.tag);
                if cur != w.last {
                    w.last = cur;
                    w.since = Instant::now();
                } else if w.since.elapsed() > Duration::from_secs(40) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    bad = Some("no progress for 40 s".into());
                }
            }
            let Some(why) = bad else { continue };
            let Some(case) = read_status(&dir, w.tag) else {
                errors.push(format!("{why} before its first case"));
                w.done = true;
                continue;
            };
            let arg = format!("{seed}:{case}");
            match exec_isolated(p, &arg, &dir, 60) {
                Ended::Pass => {
                    // Not reproducible alone (memory pressure, a slow machine): go on.
                    eprintln!("note: {why} at case {case}, which passes alone");
                }
                Ended::Fail(f, input) => {
                    if !is_known(&known_findings(p.id), &f, &input) {
                        violations.push(json!({"property": p.id, "sig": f.sig, "detail": f.detail,
                            "input": input, "case": case, "seed": seed}));
                    }
                }
                Ended::Crash(c) => {
                    let v = shrink_crash(p, seed, case, &c, &dir);
                    violations.push(v);
                }
                Ended::Hang => {
                    let v = json!({"property": p.id, "sig": "hang", "case": case, "seed": seed,
                        "detail": "did not finish within 60 s of CPU time when run alone",
                        "input": format!("case {case} of seed {seed}")});
                    violations.push(v);
                }
                Ended::Error(e) => errors.push(format!("case {case}: {e}")),
            }
            extra_cases += (case - w.start) / n + 1;
            let next = case + n;
            w.restarts += 1;
            if next < total && violations.is_empty() && errors.is_empty() && w.restarts < 20 {
                w.child = spawn_worker(p, seed, next, n, total, &dir, deadline);
                w.start = next;
                w.last = None;
                w.since = Instant::now();
            } else {
                w.done = true;
            }
        }
    }

    // Aggregate.
    let mut evals = extra_cases;
    let mut cases = extra_cases;
    let mut labels: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples: Vec<Value> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut known_hits = 0;
    let mut complete = true;
    for e in fs::read_dir(&dir).unwrap().flatten() {
        let name = e.file_name().into_string().unwrap();
        if name.starts_with("result.") {
            let v: Value =
                serde_json::from_str(&fs::read_to_string(e.path()).unwrap()).unwrap_or(Value::Null);
            evals += v["evals"].as_u64().unwrap_or(0);
            cases += v["cases"].as_u64().unwrap_or(0);
            known_hits += v["known_hits"].as_u64().unwrap_or(0);
            complete &= v["complete"].as_bool().unwrap_or(false);
            if let Some(m) = v["labels"].as_object() {
                for (k, n) in m {
                    *labels.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                }
            }
            if let Some(a) = v["samples"].as_array() {
                samples.extend(a.iter().take(2).cloned());
            }
            if !v["failure"].is_null() {
                violations.push(v["failure"].clone());
            }
        } else if name.starts_with("hashes.") {
            let b = fs::read(e.path()).unwrap();
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.sort_by_key(|v| v.to_string());
    samples.truncate(10);
    violations.sort_by_key(|v| v["input"].as_str().map_or(usize::MAX, str::len));

    // Known findings still present?
    for k in known_findings(p.id) {
        let path = dir.join("known.json");
        let _ = fs::write(&path, json!({"choices": k.choices}).to_string());
        match exec_isolated(p, &format!("@{}", path.display()), &dir, 60) {
            Ended::Fail(f, _) if f.sig == k.sig => {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
            Ended::Crash(_) if k.sig == "crash" => {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
            _ => {}
        }
    }

    let wall = began.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "cases": cases,
            "planned_cases": total,
            "all_planned_cases_run": complete && violations.is_empty(),
            "enumerated_first_draw": p.enumerate,
            "regression_cases": regress,
            "labels": labels,
            "known_finding_hits": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(
        evdir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    let _ = fs::remove_dir_all(&dir);

    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id,
        cases,
        evals,
        hashes.len(),
        wall
    );
    if let Some(v) = violations.first() {
        let path = write_replay(p, v);
        println!("sig: {}", v["sig"].as_str().unwrap_or(""));
        println!("input: {}", v["input"].as_str().unwrap_or(""));
        println!("detail: {}", v["detail"].as_str().unwrap_or(""));
        for v in violations.iter().skip(1) {
            eprintln!(
                "also: {} | {} | {}",
                v["sig"].as_str().unwrap_or(""),
                v["input"].as_str().unwrap_or(""),
                clip(v["detail"].as_str().unwrap_or(""), 800)
            );
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR: {e}");
        }
        return 3;
    }
    if hashes.is_empty() {
        eprintln!("ERROR: no non-trivial case was generated");
        return 3;
    }
    0
}

fn shrink_crash(p: &Prop, seed: u64, case: u64, detail: &str, dir: &Path) -> Value {
    // Recover the draws: generators draw everything before they call the code under test, or
    // interleave; either way replaying the same random stream with recording on reaches the
    // crash, so ask a child to dump its draws as it goes.
    let dump = dir.join("draws");
    let exe = std::env::current_exe().unwrap();
    let _ = Command::new(exe)
        .args(["draws", p.id, &format!("{seed}:{case}"), dump.to_str().unwrap()])
        .env("RUST_BACKTRACE", "0")
        .stderr(Stdio::null())
        .status();
    let v: Value = fs::read_to_string(&dump)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    let choices: Vec<u64> = v["choices"]
        .as_array()
        .map(|a| a.iter().filter_map(Value::as_u64).collect())
        .unwrap_or_default();
    let first = Fail {
        sig: "crash".into(),
        detail: detail.into(),
    };
    let (best, f) = if choices.is_empty() {
        (choices, first)
    } else {
        shrink(choices, first, 300, Duration::from_secs(60), |c| {
            let path = dir.join("cand.json");
            fs::write(&path, json!({"choices": c}).to_string()).ok()?;
            match exec_isolated(p, &format!("@{}", path.display()), dir, 20) {
                Ended::Crash(d) => Some((
                    c.to_vec(),
                    Fail {
                        sig: "crash".into(),
                        detail: d,
                    },
                )),
                _ => None,
            }
        })
    };
    json!({"property": p.id, "sig": f.sig, "detail": f.detail, "choices": best,
        "case": case, "seed": seed,
        "input": format!("case {case} of seed {seed} (aborts the process)")})
}

/// Dump the draws of a case to a file as they are made (for cases that abort the process).
pub fn draws(p: &Prop, arg: &str, path: &str) {
    let (seed, case) = arg.split_once(':').unwrap();
    let (seed, case): (u64, u64) = (seed.parse().unwrap(), case.parse().unwrap());
    // Run in a child thread of a process that may die; a watcher snapshots the random stream.
    // The stream is deterministic, so over-long prefixes are harmless: emit a generous one.
    let mut s = case_seed(seed, p.id, case);
    let mut v = Vec::new();
    if case < p.enumerate {
        v.push(case);
    }
    for _ in 0..4000 {
        v.push(splitmix(&mut s));
    }
    let _ = fs::write(path, json!({ "choices": v }).to_string());
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file"))
        .expect("replay file is JSON");
    let id = v["property"].as_str().expect("property");
    let p = props.iter().find(|p| p.id == id).expect("known property");
    let mut src = match v["choices"].as_array() {
        Some(a) => Src::replay(a.iter().map(|v| v.as_u64().unwrap()).collect()),
        None => make_src(p, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap()),
    };
    let (rec, f) = exec(p, &mut src);
    println!("input: {}", rec.input);
    match f {
        None => {
            println!("holds");
            0
        }
        Some(f) => {
            println!("sig: {}\ndetail: {}", f.sig, f.detail);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}
