//! Property-based testing engine.
//!
//! A case is a function of a *tape*: the sequence of bounded choices it drew.
//! While exploring, choices come from a generator seeded with
//! (VERIF_SEED, property, case number); while replaying they come from a saved
//! tape. Shrinking edits the tape (removing spans, lowering values) and keeps
//! every edit that still fails, so any generator written with `Case` shrinks
//! and replays without further work.

use crate::rt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

/// A rejected case: the generator could not build the situation it wanted.
pub const DISCARD: &str = "__discard__";

pub struct Case {
    source: Source,
    pub tape: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    record: Option<std::fs::File>,
    pub thorough: bool,
    /// Keys are never degenerate (all zeros, ...).
    pub plain_keys: bool,
    /// Changes the bytes of the keys drawn, and nothing else.
    pub salt: u64,
}

enum Source {
    Gen(u64),
    Replay(Vec<u64>, usize),
}

impl Case {
    /// The same draws again, with other keys and other randomness of the library.
    pub fn again(&self, salt: u64) -> Case {
        rt::set_stream(self.tape[0] ^ rt::splitmix(salt));
        Case {
            source: Source::Replay(self.tape.clone(), 1),
            tape: self.tape[..1].to_vec(),
            labels: BTreeMap::new(),
            nontrivial: false,
            verbose: false,
            notes: Vec::new(),
            record: None,
            thorough: self.thorough,
            plain_keys: self.plain_keys,
            salt,
        }
    }

    /// Draws an integer in `[0, n)`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "empty range");
        let v = match &mut self.source {
            Source::Gen(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let x = rt::splitmix(*s);
                ((u128::from(x) * u128::from(n)) >> 64) as u64
            }
            Source::Replay(t, pos) => {
                let v = t.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(n - 1)
            }
        };
        self.tape.push(v);
        if let Some(f) = &mut self.record {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Draws an integer in `[lo, hi]`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num/den`; zero on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    /// Draws the index of a weighted alternative; zero on the tape means the
    /// first one.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    pub fn subset(&mut self, n: usize, num: u64, den: u64) -> Vec<usize> {
        (0..n).filter(|_| self.chance(num, den)).collect()
    }

    /// Counts an event of interest.
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }

    pub fn count(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            *self.labels.entry(l).or_default() += n;
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Check,
    /// Explicit scenarios run before the generated cases (regressions found by
    /// earlier runs, and enumerations of small finite domains).
    pub scenarios: &'static [(&'static str, fn(&mut Case) -> Check)],
    /// Memory a single case may hold, in bytes.
    pub budget: i64,
    pub assumptions: &'static [&'static str],
    /// Deepest stack given to the case threads.
    pub stack: usize,
}

pub const MB: i64 = 1 << 20;

pub struct Outcome {
    pub result: Check,
    pub tape: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Tape(Vec<u64>),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Which {
    Generated,
    Scenario(usize),
}

/// Runs one case on a fresh thread (hash-map keys and library randomness are
/// then functions of the tape only).
pub fn run_case(
    prop: &'static Prop,
    which: Which,
    input: Input,
    verbose: bool,
    thorough: bool,
    record: Option<PathBuf>,
) -> Outcome {
    std::thread::Builder::new()
        .stack_size(prop.stack)
        .spawn(move || {
            rt::quiet(true);
            rt::set_stream(1);
            rt::set_alloc_budget(prop.budget);
            let mut case = Case {
                plain_keys: false,
                salt: 0,
                source: match input {
                    Input::Seed(s) => Source::Gen(s),
                    Input::Tape(t) => Source::Replay(t, 0),
},
                tape: Vec::new(),
                labels: BTreeMap::new(),
                nontrivial: false,
                verbose,
                notes: Vec::new(),
                record: record.and_then(|p| std::fs::File::create(p).ok()),
                thorough,
            };
            // The library's randomness is part of the tape.
            let s = case.below(1 << 32);
            rt::set_stream(s);
            let f = match which {
                Which::Generated => prop.run,
                Which::Scenario(i) => prop.scenarios[i].1,
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
            let result = match r {
                Ok(r) => r,
                Err(_) => Err(format!(
                    "panic: {}",
                    rt::take_panic().unwrap_or_else(|| "?".into())
                )),
            };
            rt::set_alloc_budget(i64::MAX);
            let out = Outcome {
                result,
                tape: std::mem::take(&mut case.tape),
                labels: std::mem::take(&mut case.labels),
                nontrivial: case.nontrivial,
                notes: std::mem::take(&mut case.notes),
            };
            rt::clear_stream();
            out
        })
        .expect("cannot spawn a thread")
        .join()
        .expect("case thread")
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = rt::splitmix(seed ^ 0xfeed);
    for b in id.bytes() {
        h = rt::splitmix(h ^ u64::from(b));
    }
    rt::splitmix(h ^ rt::splitmix(idx))
}

fn hash_tape(t: &[u64]) -> u64 {
    // The first draw only seeds the library's randomness.
    t.iter().skip(1).fold(t.len() as u64, |h, x| rt::splitmix(h ^ *x))
}

pub const NEVER_ENDS: &str = "this case never ends (deadlock or endless loop)";
const SCENARIO: u64 = 1 << 62;
const WORKERS: usize = 8;

fn decode(prop: &'static Prop, seed: u64, code: u64) -> (Which, Input) {
    if code & SCENARIO != 0 {
        let i = (code & !SCENARIO) as usize;
        (Which::Scenario(i), Input::Seed(case_seed(seed, prop.id, code)))
    } else {
        (Which::Generated, Input::Seed(case_seed(seed, prop.id, code)))
    }
}

fn n_cases(prop: &Prop, tier: &str) -> u64 {
    let base = if tier == "thorough" { prop.thorough } else { prop.quick };
    match std::env::var("PBT_CASES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => base,
    }
}

/// Child process: explores all the cases and writes a JSON summary.
pub fn explore(prop: &'static Prop, tier: &str, seed: u64, out: &Path, state: &Path) {
    let total = n_cases(prop, tier);
    let n_scen = prop.scenarios.len() as u64;
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    struct Acc {
        labels: BTreeMap<&'static str, u64>,
        seen: HashSet<u64>,
        discards: u64,
        evaluated: u64,
        draws: u64,
        fail: Option<(u64, u64, Vec<u64>, String)>,
        samples: Vec<(u64, Vec<u64>)>,
    }
    let acc = Mutex::new(Acc {
        labels: BTreeMap::new(),
        seen: HashSet::new(),
        discards: 0,
        evaluated: 0,
        draws: 0,
        fail: None,
        samples: Vec::new(),
    });
    let file = std::fs::OpenOptions::new().write(true).open(state).expect("state file");
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (next, min_fail, acc, file) = (&next, &min_fail, &acc, &file);
            let thorough = tier == "thorough";
            s.spawn(move || {
                let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut seen = HashSet::new();
                let (mut discards, mut evaluated, mut draws) = (0, 0, 0);
                let mut samples = Vec::new();
                loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if n >= total + n_scen || n > min_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    let code = if n < n_scen { SCENARIO | n } else { n - n_scen };
                    let _ = file.write_at(&(code + 1).to_le_bytes(), (w * 8) as u64);
                    let (which, input) = decode(prop, seed, code);
                    let o = run_case(prop, which, input, false, thorough, None);
                    match o.result {
                        Err(ref m) if m == DISCARD => {
                            discards += 1;
                            continue;
                        }
                        Err(m) => {
                            min_fail.fetch_min(n, Ordering::SeqCst);
                            let mut a = acc.lock().unwrap();
                            if a.fail.as_ref().map_or(true, |f| n < f.0) {
                                a.fail = Some((n, code, o.tape, m));
                            }
                            continue;
                        }
                        Ok(()) => {}
                    }
                    evaluated += 1;
                    draws += o.tape.len() as u64;
                    for (k, v) in o.labels {
                        *labels.entry(k).or_default() += v;
                    }
                    if o.nontrivial {
                        let new = seen.insert(match which {
                            Which::Generated => hash_tape(&o.tape),
                            Which::Scenario(i) => i as u64,
                        });
                        if new && which == Which::Generated && code < 64 {
                            samples.push((code, o.tape));
                        }
                    }
                }
                let _ = file.write_at(&0u64.to_le_bytes(), (w * 8) as u64);
                let mut a = acc.lock().unwrap();
                for (k, v) in labels {
                    *a.labels.entry(k).or_default() += v;
                }
                a.seen.extend(seen);
                a.discards += discards;
                a.evaluated += evaluated;
                a.draws += draws;
                a.samples.extend(samples);
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.samples.sort();
    let samples: Vec<Value> = a
        .samples
        .iter()
        .take(3)
        .map(|(code, tape)| {
            let o = run_case(
                prop,
                Which::Generated,
                Input::Tape(tape.clone()),
                true,
                tier == "thorough",
                None,
            );
            let mut text = o.notes.join(" ; ");
            if text.len() > 3000 {
                let mut cut = 3000;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                text.push_str(" ...");
            }
            json!({"case": code, "draws": tape.len(), "what": text})
        })
        .collect();
    let v = json!({
        "evaluations": a.evaluated,
        "discarded": a.discards,
        "distinct_nontrivial": a.seen.len(),
        "draws": a.draws,
        "labels": a.labels,
        "samples": samples,
        "scenarios": prop.scenarios.iter().map(|s| s.0).collect::<Vec<_>>(),
        "fail": a.fail.map(|(_, code, tape, msg)| json!({"code": code, "tape": tape, "message": msg})),
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).expect("cannot write the summary");
}

/// Generic tape shrinker. `still_fails` returns the (possibly shorter) tape
/// consumed and the failure message when the candidate still fails.
fn shrink_tape(
    mut best: Vec<u64>,
    mut msg: String,
    mut budget: u64,
    deadline: Instant,
    still_fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
    save: &mut dyn FnMut(&[u64], &str),
) {
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if budget == 0 || Instant::now() > deadline {
            return false;
        }
        if !better(&cand, best) {
            return false;
        }
        budget -= 1;
        if let Some((t, m)) = still_fails(&cand) {
            let t = if better(&t, &cand) { t } else { cand };
            *best = t;
            *msg = m;
            save(best, msg);
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Truncation.
        let mut len = best.len() / 2;
        while len < best.len() {
            let cand = best[..len].to_vec();
            if !attempt(cand, &mut best, &mut msg) {
                len += (best.len() - len + 1) / 2;
                if best.len() - len <= 1 {
                    break;
                }
            } else {
                len /= 2;
            }
        }
        // Deletion of spans.
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i = i.min(best.len());
                if i == 0 {
                    break;
                }
                let start = i.saturating_sub(size).max(1);
                if start < i {
                    let mut cand = best[..start].to_vec();
                    cand.extend_from_slice(&best[i..]);
                    if attempt(cand, &mut best, &mut msg) {
                        i = start;
                        continue;
                    }
                }
                i -= 1;
            }
        }
        // Zeroing of spans, then lowering of values.
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].fill(0);
                    attempt(cand, &mut best, &mut msg);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(cand, &mut best, &mut msg) {
                    let (mut lo, mut hi) = (0, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(cand, &mut best, &mut msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
}

/// Child process: shrinks an assertion failure, saving every improvement.
pub fn shrink(prop: &'static Prop, which: Which, file: &Path, thorough: bool) {
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let msg = v["message"].as_str().unwrap_or("").to_string();
    let mut run = |t: &[u64]| -> Option<(Vec<u64>, String)> {
        let o = run_case(prop, which, Input::Tape(t.to_vec()), false, thorough, None);
        match o.result {
            Err(m) if m != DISCARD => Some((o.tape, m)),
            _ => None,
        }
    };
    let mut save = |t: &[u64], m: &str| {
        let tmp = file.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_vec(&json!({"tape": t, "message": m})).unwrap()).unwrap();
        std::fs::rename(&tmp, file).unwrap();
    };
    let budget = 6000;
    let deadline = Instant::now() + Duration::from_secs(60);
    shrink_tape(tape, msg, budget, deadline, &mut run, &mut save);
}

fn wait_with_timeout(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// How long a single case may keep a worker busy before it is examined alone.
fn stuck_after(tier: &str) -> Duration {
    Duration::from_secs(if tier == "thorough" { 1200 } else { 120 })
}

enum Explored {
    Ended(std::process::ExitStatus),
    OutOfTime,
    /// These cases keep their worker busy for too long.
    Stuck(Vec<u64>),
}

fn wait_exploration(mut c: std::process::Child, state: &Path, limit: Duration, stuck: Duration) -> Explored {
    let t0 = Instant::now();
    let mut since: Vec<(u64, Instant)> = vec![(0, t0); WORKERS];
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Explored::Ended(s);
        }
        let st = std::fs::read(state).unwrap_or_default();
        for (i, b) in st.chunks_exact(8).take(WORKERS).enumerate() {
            let code = u64::from_le_bytes(b.try_into().unwrap());
            if code != since[i].0 {
                since[i] = (code, Instant::now());
            }
        }
        let mut late: Vec<u64> =
            since.iter().filter(|(c, t)| *c != 0 && t.elapsed() > stuck).map(|(c, _)| c - 1).collect();
        if !late.is_empty() || t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            if late.is_empty() {
                return Explored::OutOfTime;
            }
            late.sort_unstable();
            return Explored::Stuck(late);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn read_record(rec: &Path) -> Vec<u64> {
    std::fs::read(rec)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("current exe"))
}

fn is_crash(s: std::process::ExitStatus) -> bool {
    matches!(
        s.signal(),
        Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)
    )
}

/// Parent process: the registered check. Returns the exit code.
pub fn check(prop: &'static Prop, tier: &str, seed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let work = root.join("work").join(format!("{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work directory");
    let code = check_in(prop, tier, seed, root, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn check_in(
    prop: &'static Prop,
    tier: &str,
    seed: u64,
    root: &Path,
    work: &Path,
    t0: Instant,
) -> i32 {
    let out = work.join("summary.json");
    let state = work.join("state");
    std::fs::write(&state, vec![0u8; WORKERS * 8]).unwrap();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 700 });
    let child = me()
        .args(["explore", prop.id, tier, &seed.to_string()])
        .arg(&out)
        .arg(&state)
        .spawn()
        .expect("cannot spawn the exploration process");
    let (status, stuck) = match wait_exploration(child, &state, limit, stuck_after(tier)) {
        Explored::Ended(s) => (Some(s), vec![]),
        Explored::Stuck(codes) => (None, codes),
        Explored::OutOfTime => {
            println!("INCONCLUSIVE property={} the exploration did not finish in time", prop.id);
            return 3;
        }
    };

    let which_name = |code: u64| {
        if code & SCENARIO != 0 {
            json!({"scenario": prop.scenarios[(code & !SCENARIO) as usize].0})
        } else {
            json!({"case": code})
        }
    };
    let mut failure: Option<(u64, Vec<u64>, String)> = None;
    let mut summary = json!({});

    if !stuck.is_empty() {
        // Does the case end when it runs alone?
        for code in stuck {
            let rec = work.join("record");
            let c = me()
                .args(["index", prop.id, tier, &seed.to_string(), &code.to_string()])
                .arg(&rec)
                .stderr(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .expect("case process");
            if wait_with_timeout(c, stuck_after(tier) / 2).is_none() {
                // Shorter cases that do not end within a few seconds are
                // candidates; the best one is confirmed with the full delay.
                let tape = read_record(&rec);
                let mut best = tape.clone();
                let cand_file = work.join("cand.json");
                let hangs = |t: &[u64], delay: Duration| -> bool {
                    std::fs::write(&cand_file, serde_json::to_vec(&json!({"tape": t})).unwrap()).unwrap();
                    me().args(["shrink1", prop.id, &code.to_string(), tier])
                        .arg(&cand_file)
                        .stderr(Stdio::null())
                        .stdout(Stdio::null())
                        .spawn()
                        .is_ok_and(|c| wait_with_timeout(c, delay).is_none())
                };
                shrink_tape(
                    tape.clone(),
                    String::new(),
                    200,
                    Instant::now() + Duration::from_secs(60),
                    &mut |t| hangs(t, Duration::from_secs(4)).then(|| (t.to_vec(), String::new())),
                    &mut |t, _| best = t.to_vec(),
                );
                if best != tape && !hangs(&best, stuck_after(tier) / 2) {
                    best = tape;
                }
                failure = Some((code, best, NEVER_ENDS.into()));
                break;
            }
        }
        if failure.is_none() {
            println!("INCONCLUSIVE property={} a case takes too long, but ends alone", prop.id);
            return 3;
        }
    } else if status.is_some_and(|s| s.success()) && out.exists() {
        summary = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
        if let Some(f) = summary["fail"].as_object() {
            let code = f["code"].as_u64().unwrap();
            let shr = work.join("shrink.json");
            std::fs::write(&shr, serde_json::to_vec(&summary["fail"]).unwrap()).unwrap();
            let c = me()
                .args(["shrink", prop.id, &code.to_string(), tier])
                .arg(&shr)
                .stderr(Stdio::null())
                .spawn()
                .expect("shrink process");
            let _ = wait_with_timeout(c, Duration::from_secs(90));
            let v: Value = serde_json::from_slice(&std::fs::read(&shr).unwrap()).unwrap();
            let tape = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            failure = Some((code, tape, v["message"].as_str().unwrap().to_string()));
        }
    } else if status.is_some_and(is_crash) {
        // The process died: find the case that kills it on its own.
        let st = std::fs::read(&state).unwrap();
        let mut codes: Vec<u64> = st
            .chunks(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|c| *c != 0)
            .map(|c| c - 1)
            .collect();
        codes.sort_unstable();
        for code in codes {
            let rec = work.join("record");
            let run = || {
                let c = me()
                    .args(["index", prop.id, tier, &seed.to_string(), &code.to_string()])
                    .arg(&rec)
                    .stderr(Stdio::null())
                    .stdout(Stdio::null())
                    .spawn()
                    .expect("case process");
                wait_with_timeout(c, Duration::from_secs(120))
            };
            if run().is_some_and(is_crash) && run().is_some_and(is_crash) {
                let tape = read_record(&rec);
                let mut best = tape.clone();
                let cand_file = work.join("cand.json");
                let mut try_one = |t: &[u64]| -> Option<(Vec<u64>, String)> {
                    std::fs::write(&cand_file, serde_json::to_vec(&json!({"tape": t})).unwrap()).unwrap();
                    let c = me()
                        .args(["shrink1", prop.id, &code.to_string(), tier])
                        .arg(&cand_file)
                        .stderr(Stdio::null())
                        .stdout(Stdio::null())
                        .spawn()
                        .ok()?;
                    wait_with_timeout(c, Duration::from_secs(30))
                        .filter(|s| is_crash(*s))
                        .map(|_| (t.to_vec(), String::new()))
                };
                shrink_tape(
                    tape,
                    String::new(),
                    200,
                    Instant::now() + Duration::from_secs(60),
                    &mut try_one,
                    &mut |t, _| best = t.to_vec(),
                );
                failure = Some((
                    code,
                    best,
                    "the process is killed by this case (stack overflow, abort or unbounded memory)"
                        .into(),
                ));
                break;
            }
        }
        if failure.is_none() {
            println!("ERROR property={} the exploration process died ({status:?}) and no single case reproduces it", prop.id);
            return 3;
        }
    } else {
        println!("ERROR property={} the exploration process failed ({status:?})", prop.id);
        return 3;
    }

    let mut code = 0;
    if let Some((c, tape, message)) = &failure {
        let dir = root.join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{:016x}.json", prop.id, hash_tape(tape)));
        let notes = if message.starts_with("the process is killed") || message == NEVER_ENDS {
            vec![]
        } else {
            run_case(
                prop,
                decode(prop, seed, *c).0,
                Input::Tape(tape.clone()),
                true,
                tier == "thorough",
                None,
            )
            .notes
        };
        let v = json!({
            "property": prop.id, "tier": tier, "code": c, "origin": which_name(*c), "tape": tape,
            "message": message, "steps": notes,
            "how": "bash run.sh replay <this file>",
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
        println!("failure: {message}");
        for n in v["steps"].as_array().unwrap().iter().take(60) {
            println!("  | {}", n.as_str().unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }

    let ev = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": summary["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": summary["distinct_nontrivial"].as_u64().unwrap_or(0),
            "rule": prop.rule,
            "samples": summary["samples"].as_array().cloned().unwrap_or_default(),
            "discarded": summary["discarded"].as_u64().unwrap_or(0),
            "choices_drawn": summary["draws"].as_u64().unwrap_or(0),
            "events": summary["labels"].clone(),
            "scenarios": summary["scenarios"].clone(),
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(failure.is_some()),
    });
    let evdir = root.join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(
        evdir.join(format!("{}.json", prop.id)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{} {} seed={} cases={} nontrivial={} discarded={} wall={:.1}s {}",
        prop.id,
        tier,
        seed,
        ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["discarded"],
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

/// Child process used to confirm a crash: runs a single numbered case.
pub fn run_index(prop: &'static Prop, tier: &str, seed: u64, code: u64, record: &Path) -> i32 {
    let (which, input) = decode(prop, seed, code);
    let o = run_case(prop, which, input, false, tier == "thorough", Some(record.to_path_buf()));
    i32::from(o.result.is_err())
}

pub fn which_of(code: u64) -> Which {
    if code & SCENARIO != 0 {
        Which::Scenario((code & !SCENARIO) as usize)
    } else {
        Which::Generated
    }
}
