//! `viasim`: deterministic simulation of DKIM signing and verification worlds
//! around the real viadkim crate.
//!
//!   viasim run --prop C07 --seed 1 --tier quick --runs N --secs N --root DIR
//!   viasim replay FILE
//!   viasim one --prop C07 --run-seed N
//!   viasim determinism --runs N

mod dns;
mod exec;
mod gen;
mod keys;
mod log;
mod model;
mod props;
mod report;
mod runner;
mod scene;
mod seam;
mod tape;
mod world;

use report::Replay;
use runner::{Outcome, Verdict};
use scene::Violation;
use std::{
    collections::HashSet,
    env,
    path::{Path, PathBuf},
    process::{exit, Command},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[global_allocator]
static ALLOC: seam::Counting = seam::Counting;

pub const VARIANT: &str = if cfg!(feature = "pre-rfc8301") { "pre-rfc8301" } else { "default" };

#[derive(Clone)]
struct Args(Vec<String>);

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == k)?;
        self.0.get(i + 1).map(|s| s.as_str())
    }
    fn num(&self, k: &str, default: u64) -> u64 {
        match self.get(k) {
            Some(v) => v.parse().unwrap_or_else(|_| die(&format!("bad number for {k}"))),
            None => default,
        }
    }
    fn need(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| die(&format!("missing {k}")))
    }
}

fn die(m: &str) -> ! {
    eprintln!("viasim: {m}");
    exit(2)
}

fn main() {
    exec::install_panic_hook();
    let args = Args(env::args().skip(1).collect());
    match args.0.first().map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("work") => work(&args),
        Some("replay") => replay(Path::new(args.0.get(1).unwrap_or_else(|| die("which file?")))),
        Some("settle") => settle(Path::new(args.0.get(1).unwrap_or_else(|| die("which file?")))),
        Some("one") => one(&args),
        Some("determinism") => determinism(&args),
        _ => die("usage: viasim run|replay|one|determinism"),
    }
}

fn thorough(args: &Args) -> bool {
    args.get("--tier") == Some("thorough")
}

/// Supervises the worker process, so that even an abort or a stack overflow
/// in the library ends in a verdict with a seed.
fn run(args: &Args) {
    let root = PathBuf::from(args.get("--root").unwrap_or("/verif"));
    let prop = args.need("--prop").to_string();
    let status = root.join(".build").join(format!("status-{prop}-{VARIANT}-{}", std::process::id()));
    let me = env::current_exe().unwrap();
    let mut c = Command::new(&me);
    c.arg("work").args(&args.0[1..]).arg("--status").arg(&status);
    let st = c.status().unwrap_or_else(|e| die(&format!("cannot start the worker: {e}")));
    let seeds = std::fs::read(&status).unwrap_or_default();
    let _ = std::fs::remove_file(&status);
    if let Some(code) = st.code() {
        exit(code);
    }
    // Died by a signal: find the run that does it.
    for s in seeds.chunks_exact(8) {
        let seed = u64::from_le_bytes(s.try_into().unwrap());
        if seed == 0 {
            continue;
        }
        let r = Command::new(&me)
            .args(["one", "--prop", &prop, "--run-seed", &seed.to_string()])
            .args(["--tier", args.get("--tier").unwrap_or("quick")])
            .output();
        let Ok(r) = r else { continue };
        if r.status.code().is_none() {
            let rep = Replay {
                prop: prop.clone(),
                thorough: thorough(args),
                seed,
                class: "abort".into(),
                message: format!("the process died ({}) during the run", r.status),
                tape: None,
                before: vec![],
                hash: 0,
                trace: vec![],
            };
            let path = rep.save(&root);
            println!("{} [{}] {}", prop, rep.class, rep.message);
            println!("VIOLATION property={prop} replay={}", path.display());
            exit(1);
        }
    }
    use std::os::unix::process::ExitStatusExt;
    if matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11)) {
        let seed = seeds.chunks_exact(8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).find(|s| *s != 0);
        let rep = Replay {
            prop: prop.clone(),
            thorough: thorough(args),
            seed: seed.unwrap_or(0),
            class: "abort".into(),
            message: format!("the process died ({st}); none of the runs under way does so alone"),
            tape: None,
            before: vec![],
            hash: 0,
            trace: vec![],
        };
        let path = rep.save(&root);
        println!("{} [{}] {}", prop, rep.class, rep.message);
        println!("VIOLATION property={prop} replay={}", path.display());
        exit(1);
    }
    die(&format!("the worker died ({st}) and no run reproduces it"));
}

#[derive(Default)]
struct Tally {
    first: Option<(u64, u64, Outcome)>,
    internal: Option<(u64, u64, String)>,
    rep: report::Coverage,
}

fn work(args: &Args) {
    let root = PathBuf::from(args.get("--root").unwrap_or("/verif"));
    let prop = args.need("--prop").to_string();
    if !props::IDS.contains(&prop.as_str()) {
        die("no such property");
    }
    let deep = thorough(args);
    let base = args.num("--seed", 1);
    let secs = args.num("--secs", 60);
    let runs = args.num("--runs", u64::MAX);
    let jobs = args.num("--jobs", 8).max(1);
    let status = args.get("--status").map(|p| {
        std::fs::File::create(p).unwrap_or_else(|e| die(&format!("status file: {e}")))
    });
    keys::all(); // parsed once, before any simulation

    let begin = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tally = Mutex::new(Tally::default());
    let key = props::relevant(&prop);
    std::thread::scope(|s| {
        for w in 0..jobs {
            let (next, stop, tally, prop, status) = (&next, &stop, &tally, &prop, &status);
            s.spawn(move || {
                let mut seen = HashSet::new();
                loop {
                    if stop.load(Ordering::SeqCst) || begin.elapsed().as_secs() >= secs {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let seed = runner::run_seed(base, prop, i);
                    if let Some(f) = status {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(&seed.to_le_bytes(), w * 8);
                    }
                    let o = runner::seeded(prop, deep, seed, false);
                    // A sample of runs is repeated from its tape: same seed,
                    // same execution.
                    let again = (i % 97 == 0).then(|| runner::replayed(prop, deep, &o.tape, false));
                    seen.insert(o.hash);
                    let mut t = tally.lock().unwrap();
                    if o.wall > t.rep.slowest {
                        t.rep.slowest_seed = seed;
                    }
                    t.rep.add(key, &o);
                    if let Some(a) = again {
                        t.rep.reruns += 1;
                        if (a.hash, a.sched_hash, a.events) != (o.hash, o.sched_hash, o.events) {
                            t.rep.rerun_mismatches += 1;
                        }
                    }
                    match &o.verdict {
                        Verdict::Ok => {
                            let n = o.counts.get(key).copied().unwrap_or(0);
                            if n > 0 && t.rep.sample_seeds.len() < 3 && o.events < 150 {
                                t.rep.sample_seeds.push((seed, i));
                            }
                        }
                        Verdict::Violation(_) => {
                            if t.first.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                t.first = Some((i, seed, o));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                        Verdict::Internal(m) => {
                            if t.internal.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                t.internal = Some((i, seed, m.clone()));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
    let wall = begin.elapsed();
    let t = tally.into_inner().unwrap();
    let mut rep = t.rep;
    let mut samples = vec![];
    for (seed, i) in rep.sample_seeds.clone() {
        let o = runner::seeded(&prop, deep, seed, true);
        samples.push((i, seed, o.lines));
    }
    let violations = t.first.is_some() as u64;
    if let Some(f) = args.get("--evidence") {
        let other = args.get("--include").and_then(|f| std::fs::read_to_string(f).ok());
        rep.write(Path::new(f), &prop, deep, base, wall, samples, violations, other);
    }
    eprintln!(
        "{prop} {VARIANT}: {} runs, {} judged, {} distinct, {:.1} s, slowest run {:.2} s (--run-seed {}), reruns {} ({} differ)",
        rep.runs,
        rep.relevant,
        rep.distinct.len(),
        wall.as_secs_f64(),
        rep.slowest.as_secs_f64(),
        rep.slowest_seed,
        rep.reruns,
        rep.rerun_mismatches
    );
    if let Some((i, seed, o)) = t.first {
        found(&root, &prop, deep, base, i, seed, o);
    }
    if let Some((i, seed, m)) = t.internal {
        die(&format!("{prop} run {i} (--run-seed {seed}): internal: {m}"));
    }
    if rep.runs == 0 {
        die("nothing was run");
    }
    println!("OK property={prop} variant={VARIANT} runs={} judged={}", rep.runs, rep.relevant);
    exit(0);
}

fn found(root: &Path, prop: &str, deep: bool, base: u64, i: u64, seed: u64, o: Outcome) -> ! {
    let Verdict::Violation(Violation { class, msg }) = &o.verdict else { unreachable!() };
    let mut rep = Replay {
        prop: prop.into(),
        thorough: deep,
        seed,
        class: class.clone(),
        message: msg.clone(),
        tape: None,
        before: vec![],
        hash: 0,
        trace: vec![],
    };
    let scratch = root.join(".build").join(format!("settle-{prop}-{VARIANT}-{}", std::process::id()));
    let secs = env::var("VIASIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(45);
    let budget = Duration::from_secs(secs);
    if !o.tape.is_empty() {
        rep.tape = Some(o.tape.clone());
        let mut done = false;
        if fresh(&mut rep, &scratch) {
            // The usual case: minimise here, then see that it holds elsewhere.
            let (tape, tries) = runner::shrink(o.tape.clone(), budget, |t| {
                let o = runner::replayed(prop, deep, t, false);
                (runner::class_of(&o) == Some(class)).then_some(o.tape)
            });
            let full = std::mem::replace(&mut rep.tape, Some(tape));
            done = fresh(&mut rep, &scratch);
            if !done {
                let (tape, _) = runner::shrink(full.unwrap(), budget, |t| {
                    let mut r = rep.with_tape(t.to_vec());
                    (fresh(&mut r, &scratch) && r.class == *class).then(|| r.tape.unwrap_or_default())
                });
                rep.tape = Some(tape);
                done = fresh(&mut rep, &scratch);
            }
            let n = rep.tape.as_ref().map_or(0, |t| t.len());
            println!("{prop} run {i}: {} draws, minimised to {n} in {tries} tries", o.tape.len());
        } else {
            // The run fails only after other runs: something is remembered in
            // the process. Look for the shortest history that leads there.
            let end = Instant::now() + 3 * budget;
            let mut windows: Vec<(u64, u64)> = [4, 32, 256, 2048, 16384]
                .map(|n| (i.saturating_sub(n), i))
                .into();
            windows.dedup();
            // In other threads it may have been later runs.
            windows.extend([16, 128, 1024, 8192].map(|n| (0, i + n)));
            for (from, to) in windows {
                if done || Instant::now() > end {
                    break;
                }
                rep.tape = None;
                rep.seed = runner::run_seed(base, prop, to);
                rep.before = (from..to).map(|j| runner::run_seed(base, prop, j)).collect();
                done = fresh(&mut rep, &scratch);
            }
            if done {
                let end = Instant::now() + budget;
                let mut n = (rep.before.len() / 2).max(1);
                loop {
                    let mut at = rep.before.len();
                    while at > 0 && Instant::now() < end {
                        let lo = at.saturating_sub(n);
                        let mut r = rep.with_tape(vec![]);
                        r.tape = None;
                        r.before.drain(lo..at.min(r.before.len()));
                        if fresh(&mut r, &scratch) {
                            rep = r;
                        }
                        at = lo.min(rep.before.len());
                    }
                    if n == 1 {
                        break;
                    }
                    n /= 2;
                }
                if rep.before.is_empty() {
                    let class = rep.class.clone();
                    let tape = rep.tape.clone().unwrap_or_default();
                    let (tape, _) = runner::shrink(tape, budget, |t| {
                        let mut r = rep.with_tape(t.to_vec());
                        (fresh(&mut r, &scratch) && r.class == class).then(|| r.tape.unwrap_or_default())
                    });
                    rep.tape = Some(tape);
                }
                done = fresh(&mut rep, &scratch);
                println!("{prop} run {i}: fails after {} other runs in the same process", rep.before.len());
            } else {
                rep.seed = seed;
                rep.before.clear();
                rep.tape = Some(o.tape.clone());
            }
        }
        if !done {
            rep.message.push_str(" (not reproduced by replaying: the code itself is nondeterministic)");
        }
    }
    let _ = std::fs::remove_file(&scratch);
    let path = rep.save(root);
    println!("{prop} [{}] {}", rep.class, rep.message);
    println!("VIOLATION property={prop} replay={}", path.display());
    exit(1)
}

/// Executes the replay in a new process; if it is violated there, takes over
/// what was recorded.
fn fresh(rep: &mut Replay, scratch: &Path) -> bool {
    rep.save_as(scratch);
    let r = Command::new(env::current_exe().unwrap()).arg("settle").arg(scratch).output();
    if !r.map_or(false, |r| r.status.code() == Some(1)) {
        return false;
    }
    match Replay::load(scratch) {
        Ok(r) => {
            *rep = r;
            true
        }
        Err(_) => false,
    }
}

/// Executes the runs of a replay one after another up to the first violation.
fn execute(r: &Replay, tracing: bool) -> (usize, Outcome) {
    keys::all();
    for (i, s) in r.before.iter().enumerate() {
        let o = runner::seeded(&r.prop, r.thorough, *s, tracing);
        if matches!(o.verdict, Verdict::Violation(_)) {
            return (i, o);
        }
    }
    let o = match &r.tape {
        Some(t) => runner::replayed(&r.prop, r.thorough, t, tracing),
        None => runner::seeded(&r.prop, r.thorough, r.seed, tracing),
    };
    (r.before.len(), o)
}

fn settle(p: &Path) {
    let mut r = Replay::load(p).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
    let (i, o) = execute(&r, true);
    let Verdict::Violation(v) = o.verdict else { exit(0) };
    if i < r.before.len() {
        r.seed = r.before[i];
        r.before.truncate(i);
        r.tape = None;
    }
    if r.before.is_empty() {
        r.tape = Some(o.tape);
    }
    r.class = v.class;
    r.message = v.msg;
    r.hash = o.hash;
    r.trace = o.lines;
    r.save_as(p);
    exit(1)
}

fn replay(p: &Path) {
    let r = Replay::load(p).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
    let (_, o) = execute(&r, true);
    for l in &o.lines {
        println!("{l}");
    }
    match o.verdict {
        Verdict::Violation(v) => {
            let same = r.hash == 0 || o.hash == r.hash;
            println!("{} [{}] {}", r.prop, v.class, v.msg);
            println!("trace {:016x}, recorded {:016x}: {}", o.hash, r.hash, if same { "identical" } else { "DIFFERENT" });
            println!("VIOLATION property={} replay={}", r.prop, p.display());
            exit(1)
        }
        Verdict::Ok => println!("no violation"),
        Verdict::Internal(m) => die(&m),
    }
}

fn one(args: &Args) {
    let prop = args.need("--prop");
    let seed = args.num("--run-seed", 0);
    keys::all();
    let o = runner::seeded(prop, thorough(args), seed, true);
    for l in &o.lines {
        println!("{l}");
    }
    println!("{:?}", o.counts);
    println!("draws {} hash {:016x} wall {:?}", o.tape.len(), o.hash, o.wall);
    match o.verdict {
        Verdict::Violation(v) => {
            println!("[{}] {}", v.class, v.msg);
            exit(1)
        }
        Verdict::Internal(m) => die(&m),
        Verdict::Ok => {}
    }
}

/// Every property, many seeds: two seeded executions and one replay must agree.
fn determinism(args: &Args) {
    let n = args.num("--runs", 50);
    keys::all();
    let mut total = 0;
    for p in props::IDS {
        for i in 0..n {
            let seed = runner::run_seed(args.num("--seed", 1), p, i);
            let a = runner::seeded(p, false, seed, false);
            let b = runner::seeded(p, false, seed, true);
            let c = runner::replayed(p, false, &a.tape, false);
            total += 1;
            let k = |o: &Outcome| (o.hash, o.sched_hash, o.events, o.tape.clone(), o.entropy_reads, o.clock_reads);
            if k(&a) != k(&b) || k(&a) != k(&c) {
                println!("{p} run {i} (--run-seed {seed}) differs between executions");
                exit(1)
            }
        }
    }
    println!("{total} runs executed three times each with identical traces");
}
