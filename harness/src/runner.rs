//! Case runner: parent process, worker processes, shrinking, evidence.
use crate::tape::{Tape, shrink};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Out {
    Pass { nontrivial: bool, digest: u64 },
    /// (kind: kept fixed while shrinking, message)
    Fail(String, String),
    Skip(&'static str),
}

pub struct Ctx {
    pub tier: Tier,
    pub idx: u64,
    pub labels: BTreeMap<String, u64>,
    /// the case written out (for samples and replay files)
    pub detail: String,
    pub peer: Option<crate::peer::Peer>,
    pub verbose: bool,
    /// scan mode: do not stop at the first failure
    pub scan: bool,
    /// replayed as a known finding: do not apply exclusions
    pub known: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &str, n: u64) {
        if n > 0 {
            *self.labels.entry(l.to_string()).or_insert(0) += n;
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of cases for a tier
    pub cases: fn(Tier) -> u64,
    pub run: fn(u64, &mut Tape, &mut Ctx) -> Out,
    /// which builds run the cases ("release", "debug")
    pub builds: &'static [&'static str],
    /// build used as a peer process, if any
    pub peer: Option<&'static str>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness")
}

/// Runs `f`; a panic becomes Err(location: message). A panic inside the harness
/// itself is a harness error and propagates.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let (loc, msg) = PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if harness_loc(&loc) {
                std::panic::resume_unwind(p);
            }
            let loc = loc.strip_prefix("/repo/").unwrap_or(&loc).to_string();
            Err(format!("{loc}: {msg}"))
        }
    }
}

/// Location without the line's message, for use as a failure kind.
pub fn panic_kind(s: &str) -> String {
    format!("panic at {}", s.split(": ").next().unwrap_or(""))
}

pub fn run_case(p: &Prop, idx: u64, tape: &mut Tape, ctx: &mut Ctx) -> Out {
    ctx.idx = idx;
    ctx.detail.clear();
    bladeink::verif_hooks::set_fuel(None);
    bladeink::verif_hooks::set_slice_steps(None);
    bladeink::verif_hooks::set_story_seed(None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(idx, tape, ctx)));
    match r {
        Ok(o) => o,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if harness_loc(&loc) {
                eprintln!("HARNESS PANIC in {} case {idx}: {loc}: {msg}", p.id);
                eprintln!("{}", ctx.detail);
                std::process::exit(2);
            }
            let loc = loc.strip_prefix("/repo/").unwrap_or(&loc).to_string();
            Out::Fail(format!("panic at {loc}"), format!("panic: {loc}: {msg}"))
        }
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn new_ctx(p: &Prop, tier: Tier) -> Ctx {
    Ctx {
        tier,
        idx: 0,
        labels: BTreeMap::new(),
        detail: String::new(),
        peer: p.peer.map(|b| crate::peer::Peer::new(&bin(b))),
        verbose: false,
        scan: false,
        known: false,
    }
}

/// Built with the audit hook too (C14 and C19).
const AUDIT: bool = cfg!(bladeink_verif_audit);

pub fn bin(build: &str) -> String {
    std::env::var(format!("VH_BIN_{}", build.to_uppercase())).unwrap_or_else(|_| {
        let d = verif_dir();
        match build {
            "debug" => d.join("target/debug/vh").display().to_string(),
            "stream" if AUDIT => d.join("target-stream-audit/checked/vh").display().to_string(),
            "cli" | "debug" if AUDIT => unreachable!("no {build} build with the audit hook"),
            "stream" => d.join("target-stream/checked/vh").display().to_string(),
            "cli" => d.join("target-cli/release/rinklecate").display().to_string(),
            _ if AUDIT => d.join("target-audit/release/vh").display().to_string(),
            _ => d.join("target/release/vh").display().to_string(),
        }
    })
}

fn set_limits(cpu: Option<u64>) {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        if let Some(c) = cpu {
            let l = libc::rlimit { rlim_cur: c, rlim_max: c + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn fail_json(p: &Prop, idx: u64, seed: u64, tier: Tier, build: &str, tape: &[u32], kind: &str, msg: &str, detail: &str) -> Value {
    json!({"property": p.id, "case": idx, "seed": seed, "tier": format!("{tier:?}").to_lowercase(),
        "build": build, "kind": kind, "message": msg, "case_text": detail, "tape": tape})
}

/// Worker: cases i, i+n, i+2n, ...
/// (a worker that has grown past 1 GB goes on as a fresh process image: the code under test may leak)
pub fn worker(p: &Prop, build: &str, seed: u64, tier: Tier, i: u64, n: u64, total: u64, dir: &Path, do_shrink: bool, from: Option<(u64, u64)>) {
    set_limits(None);
    let part = from.map_or(0, |x| x.1);
    install_panic_hook();
    let mut ctx = new_ctx(p, tier);
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let curp = dir.join(format!("{i}.cur"));
    let mut cur = fs::File::create(&curp).unwrap();
    let mut idx = from.map_or(i, |x| x.0);
    let mut failed = false;
    let mut again = false;
    while idx < total {
        use std::os::unix::fs::FileExt;
        cur.write_all_at(format!("{idx:020}").as_bytes(), 0).unwrap();
        let mut t = Tape::random(p.id, seed, idx);
        let o = run_case(p, idx, &mut t, &mut ctx);
        evaluations += 1;
        match o {
            Out::Pass { nontrivial: nt, digest } => {
                if nt {
                    nontrivial += 1;
                    digests.insert(digest);
                    if samples.len() < 2 && !ctx.detail.is_empty() {
                        samples.push(json!({"case": idx, "text": clip(&ctx.detail, 4000)}));
                    }
                }
            }
            Out::Skip(s) => *skips.entry(s.to_string()).or_insert(0) += 1,
            Out::Fail(kind, msg) => {
                failed = true;
                let tape0 = t.rec.clone();
                let f = dir.join(format!("{i}.fail"));
                fs::write(&f, fail_json(p, idx, seed, tier, build, &tape0, &kind, &msg, &ctx.detail).to_string()).unwrap();
                cur.write_all_at(b"shrinking           ", 0).unwrap();
                if do_shrink {
                    let start = Instant::now();
                    let best = shrink(tape0, 600, &mut |c| {
                        if start.elapsed() > Duration::from_secs(60) {
                            return false;
                        }
                        let mut t = Tape::replay(c.to_vec());
                        matches!(run_case(p, idx, &mut t, &mut ctx), Out::Fail(k, _) if k == kind)
                    });
                    let mut t = Tape::replay(best.clone());
                    if let Out::Fail(k, m) = run_case(p, idx, &mut t, &mut ctx) {
                        fs::write(&f, fail_json(p, idx, seed, tier, build, &best, &k, &m, &ctx.detail).to_string()).unwrap();
                    }
                }
                break;
            }
        }
        idx += n;
        if (evaluations % 16 == 0) && rss_mb() > 1024 && idx < total {
            again = true;
            break;
        }
    }
    let _ = cur.flush();
    let out = json!({"evaluations": evaluations, "nontrivial": nontrivial, "digests": digests.iter().collect::<Vec<_>>(),
        "skips": skips, "labels": ctx.labels, "samples": samples});
    fs::write(dir.join(format!("{i}.{part}.out")), out.to_string()).unwrap();
    if again {
        use std::os::unix::process::CommandExt;
        let e = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, build, &seed.to_string(), &format!("{tier:?}").to_lowercase(), &i.to_string(), &n.to_string(), &total.to_string(), dir.to_str().unwrap(), &idx.to_string(), &(part + 1).to_string()])
            .exec();
        eprintln!("exec: {e}");
        std::process::exit(2);
    }
    std::process::exit(if failed { 1 } else { 0 });
}

pub fn rss_mb() -> u64 {
    let s = fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / (1 << 20)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

/// Runs one case (or a replay tape) in this process; exit 0/1.
pub fn one(p: &Prop, tier: Tier, idx: u64, tape: Tape, verbose: bool, known: bool) -> ! {
    install_panic_hook();
    set_limits(Some(60));
    let mut ctx = new_ctx(p, tier);
    ctx.verbose = verbose;
    ctx.known = known;
    let mut tape = tape;
    match run_case(p, idx, &mut tape, &mut ctx) {
        Out::Fail(k, m) => {
            println!("{}\nFAIL [{k}] {m}", ctx.detail);
            std::process::exit(1)
        }
        Out::Pass { nontrivial, .. } => {
            if verbose {
                println!("{}", ctx.detail);
            }
            println!("PASS nontrivial={nontrivial}");
            std::process::exit(0)
        }
        Out::Skip(s) => {
            println!("{}\nSKIP {s}", ctx.detail);
            std::process::exit(0)
        }
    }
}

fn describe_status(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(s) => match s {
            libc::SIGSEGV => "SIGSEGV (stack overflow)".into(),
            libc::SIGABRT => "SIGABRT (abort)".into(),
            libc::SIGXCPU => "SIGXCPU (no answer within the CPU limit)".into(),
            libc::SIGKILL => "SIGKILL".into(),
            _ => format!("signal {s}"),
        },
        None => format!("exit {:?}", st.code()),
    }
}

struct W {
    child: Child,
    build: String,
    i: u64,
    last: String,
    since: Instant,
    done: bool,
}

/// Parent of one check. Returns the exit code.
pub fn check(p: &Prop, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let dir = vd.join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let rdir = vd.join("replays");
    fs::create_dir_all(&rdir).unwrap();
    let edir = vd.join("evidence");
    fs::create_dir_all(&edir).unwrap();
    let total = (p.cases)(tier) / if tier == Tier::Quick { 4 } else { 1 };
    let tiers = format!("{tier:?}").to_lowercase();
    // every build runs every case; the workers are shared out between the builds
    let per = (WORKERS / p.builds.len()).max(1) as u64;
    let mut ws = vec![];
    for (bi, b) in p.builds.iter().enumerate() {
        let bd = dir.join(b);
        fs::create_dir_all(&bd).unwrap();
        for k in 0..per {
            let _ = bi;
            let child = Command::new(bin(b))
                .args(["worker", p.id, b, &seed.to_string(), &tiers, &k.to_string(), &per.to_string(), &total.to_string(), bd.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .expect("worker");
            ws.push(W { child, build: b.to_string(), i: k, last: String::new(), since: Instant::now(), done: false });
        }
    }
    let mut failure: Option<Value> = None;
    let mut error: Option<String> = None;
    'outer: loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let bd = dir.join(&w.build);
            let curs = fs::read_to_string(bd.join(format!("{}.cur", w.i))).unwrap_or_default();
            if curs != w.last {
                w.last = curs.clone();
                w.since = Instant::now();
            }
            let mut st = w.child.try_wait().unwrap();
            let mut stuck = false;
            if st.is_none() && w.since.elapsed() > Duration::from_secs(120) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                stuck = true;
                st = Some(std::process::ExitStatus::from_raw(9));
            }
            let Some(st) = st else {
                alive = true;
                continue;
            };
            w.done = true;
            let ff = bd.join(format!("{}.fail", w.i));
            if st.code() == Some(0) {
                continue;
            }
            if let Ok(s) = fs::read_to_string(&ff) {
                failure = serde_json::from_str(&s).ok();
                if failure.is_some() {
                    break 'outer;
                }
            }
            if st.code() == Some(2) {
                error = Some(format!("worker {} reported a harness error", w.i));
                break 'outer;
            }
            // died without a verdict: attribute to the current case and reproduce in isolation
            let Ok(idx) = curs.trim().parse::<u64>() else {
                error = Some(format!("worker {} ended with {} outside any case", w.i, describe_status(&st)));
                break 'outer;
            };
            let (st2, out2) = run_isolated(&bin(&w.build), &["one", p.id, &tiers, &seed.to_string(), &idx.to_string()]);
            match st2.code() {
                Some(0) | Some(2) => {
                    error = Some(format!("worker {} ended with {} in case {idx} (stuck={stuck}) but the case alone gave {}", w.i, describe_status(&st), describe_status(&st2)));
                }
                Some(1) => {
                    failure = Some(json!({"property": p.id, "case": idx, "seed": seed, "tier": tiers, "build": w.build,
                        "kind": "fail", "message": clip(&out2, 8000), "tape": Tape::rec_of(p, seed, idx)}));
                }
                _ => {
                    failure = Some(json!({"property": p.id, "case": idx, "seed": seed, "tier": tiers, "build": w.build,
                        "kind": describe_status(&st2), "message": format!("the process running this case ended with {}", describe_status(&st2)), "from_seed": true}));
                }
            }
            break 'outer;
        }
        if !alive && ws.iter().all(|w| w.done) {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    // known findings
    let (known_lines, known_err) = crate::known::replay_known(p);
    for l in &known_lines {
        println!("{l}");
    }
    // merge
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for b in p.builds {
        for k in 0..per {
            for part in 0.. {
            let f = dir.join(b).join(format!("{k}.{part}.out"));
            let Ok(s) = fs::read_to_string(&f) else { break };
            let v: Value = serde_json::from_str(&s).unwrap();
            evaluations += v["evaluations"].as_u64().unwrap();
            nontrivial += v["nontrivial"].as_u64().unwrap();
            for d in v["digests"].as_array().unwrap() {
                digests.insert(d.as_u64().unwrap());
            }
            for (k, n) in v["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for (k, n) in v["skips"].as_object().unwrap() {
                *skips.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for s in v["samples"].as_array().unwrap() {
                if samples.len() < 4 {
                    samples.push(s.clone());
                }
            }
            }
        }
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some(f) = &failure {
        let kind = f["kind"].as_str().unwrap_or("");
        let name = format!("{}-{:016x}.json", p.id, crate::tape::hash_str(&f.to_string()));
        let rp = rdir.join(name);
        fs::write(&rp, serde_json::to_string_pretty(f).unwrap()).unwrap();
        println!("[{}] case {} ({}): {}\n{}", p.id, f["case"], f["build"], kind, clip(f["message"].as_str().unwrap_or(""), 3000));
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        violations.push(json!({"replay": rp.display().to_string(), "kind": kind}));
        code = 1;
    } else if let Some(e) = known_err.or(error) {
        println!("ERROR in check {}: {e}", p.id);
        code = 2;
    }
    let ev = json!({
        "property": p.id, "tier": tiers, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "nontrivial_evaluations": nontrivial,
            "distinct_nontrivial": digests.len(),
            "rule": p.rule,
            "samples": samples,
            "labels": labels,
            "skipped": skips,
            "builds": p.builds,
            "known_findings_replayed": known_lines.len(),
        },
        "violations": violations,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
    });
    fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!("[{}] {tiers} seed {seed}: {evaluations} cases, {nontrivial} non-trivial, {} distinct, {:.1}s, exit {code}", p.id, digests.len(), t0.elapsed().as_secs_f64());
    code
}

impl Tape {
    fn rec_of(_p: &Prop, _seed: u64, _idx: u64) -> Value {
        Value::Null
    }
}

pub fn run_isolated(bin: &str, args: &[&str]) -> (std::process::ExitStatus, String) {
    let mut c = Command::new(bin);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().expect("isolated child");
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if start.elapsed() > Duration::from_secs(240) {
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    (st, h.join().unwrap_or_default())
}

/// Development aid: run cases in-process-per-worker, print every failure kind once.
pub fn scan(p: &Prop, seed: u64, tier: Tier, from: u64, to: u64, max_kinds: usize) {
    install_panic_hook();
    let mut ctx = new_ctx(p, tier);
    ctx.scan = true;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut ev = 0;
    let mut nt = 0;
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    for idx in from..to {
        let mut t = Tape::random(p.id, seed, idx);
        ev += 1;
        match run_case(p, idx, &mut t, &mut ctx) {
            Out::Pass { nontrivial, .. } => nt += nontrivial as u64,
            Out::Skip(s) => *skips.entry(s.into()).or_insert(0) += 1,
            Out::Fail(k, m) => {
                let c = kinds.entry(k.clone()).or_insert(0);
                *c += 1;
                if *c <= max_kinds as u64 {
                    let start = Instant::now();
                    let best = shrink(t.rec.clone(), 1500, &mut |c| {
                        if start.elapsed() > Duration::from_secs(15) {
                            return false;
                        }
                        let mut t = Tape::replay(c.to_vec());
                        matches!(run_case(p, idx, &mut t, &mut ctx), Out::Fail(k2, _) if k2 == k)
                    });
                    let mut t = Tape::replay(best.clone());
                    let r = run_case(p, idx, &mut t, &mut ctx);
                    let m2 = if let Out::Fail(_, m2) = r { m2 } else { m };
                    println!("=== case {idx} [{k}]\n{}\n--- {m2}\n", ctx.detail);
                }
            }
        }
    }
    println!("{ev} cases, {nt} nontrivial, skips {skips:?}");
    println!("labels {:?}", ctx.labels);
    for (k, n) in kinds {
        println!("  {n} x {k}");
    }
}
