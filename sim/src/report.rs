//! Replay files and evidence.

use crate::{runner::Outcome, VARIANT};
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write,
    fs, io,
    path::{Path, PathBuf},
    time::Duration,
};

pub struct Replay {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub class: String,
    pub message: String,
    /// None: run from the seed (the run never ended, so its tape is unknown).
    pub tape: Option<Vec<u64>>,
    /// Seeds of runs that have to come first in the same process (empty unless
    /// the code under test remembers something from run to run).
    pub before: Vec<u64>,
    pub hash: u64,
    pub trace: Vec<String>,
}

fn one_line(s: &str) -> String {
    s.replace(['\n', '\r'], " ")
}

impl Replay {
    pub fn with_tape(&self, tape: Vec<u64>) -> Self {
        Replay {
            prop: self.prop.clone(),
            thorough: self.thorough,
            seed: self.seed,
            class: self.class.clone(),
            message: self.message.clone(),
            tape: Some(tape),
            before: self.before.clone(),
            hash: 0,
            trace: vec![],
        }
    }

    pub fn save(&self, root: &Path) -> PathBuf {
        let dir = root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:016x}.replay", self.prop, VARIANT, self.seed));
        self.save_as(&path);
        path
    }

    pub fn save_as(&self, path: &Path) {
        let mut s = String::new();
        let _ = writeln!(s, "viasim-replay 1");
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "variant {VARIANT}");
        let _ = writeln!(s, "tier {}", if self.thorough { "thorough" } else { "quick" });
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "class {}", self.class);
        let _ = writeln!(s, "message {}", one_line(&self.message));
        let _ = writeln!(s, "hash {:016x}", self.hash);
        if !self.before.is_empty() {
            let t: Vec<_> = self.before.iter().map(|d| d.to_string()).collect();
            let _ = writeln!(s, "before {}", t.join(" "));
        }
        if let Some(t) = &self.tape {
            let t: Vec<_> = t.iter().map(|d| d.to_string()).collect();
            let _ = writeln!(s, "tape {}", t.join(" "));
        }
        let _ = writeln!(s, "trace");
        for l in &self.trace {
            let _ = writeln!(s, "{}", one_line(l));
        }
        if let Err(e) = fs::write(path, s) {
            eprintln!("viasim: cannot write {}: {e}", path.display());
        }
    }

    pub fn load(p: &Path) -> io::Result<Self> {
        let s = fs::read_to_string(p)?;
        let mut r = Replay {
            prop: String::new(),
            thorough: false,
            seed: 0,
            class: String::new(),
            message: String::new(),
            tape: None,
            before: vec![],
            hash: 0,
            trace: vec![],
        };
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.into(),
                "variant" if v != VARIANT => {
                    return Err(io::Error::other(format!("needs the {v} build of viasim")));
                }
                "tier" => r.thorough = v == "thorough",
                "seed" => r.seed = v.parse().map_err(io::Error::other)?,
                "class" => r.class = v.into(),
                "message" => r.message = v.into(),
                "hash" => r.hash = u64::from_str_radix(v, 16).map_err(io::Error::other)?,
                "tape" | "before" => {
                    let t = v
                        .split_whitespace()
                        .map(|d| d.parse().map_err(io::Error::other))
                        .collect::<io::Result<Vec<u64>>>()?;
                    if k == "tape" {
                        r.tape = Some(t);
                    } else {
                        r.before = t;
                    }
                }
                "trace" => break,
                _ => {}
            }
        }
        Ok(r)
    }
}

#[derive(Default)]
pub struct Coverage {
    pub runs: u64,
    pub relevant: u64,
    pub distinct: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub contended_runs: u64,
    pub events: u64,
    pub draws: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub virtual_ms: u64,
    pub steps: u64,
    pub contended: u64,
    pub verify_sessions: u64,
    pub sign_sessions: u64,
    pub entropy_reads: u64,
    pub clock_reads: u64,
    pub reruns: u64,
    pub rerun_mismatches: u64,
    pub slowest: Duration,
    pub slowest_seed: u64,
    pub sample_seeds: Vec<(u64, u64)>,
}

/// Whether a counter of the log counts injected faults.
fn is_fault(k: &str) -> bool {
    ["fault_", "cancelled_", "transit_", "junk_", "spurious_"].iter().any(|p| k.starts_with(p))
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Coverage {
    pub fn add(&mut self, key: &str, o: &Outcome) {
        self.runs += 1;
        if o.counts.get(key).copied().unwrap_or(0) > 0 {
            self.relevant += 1;
            self.distinct.insert(o.hash);
        }
        if o.stats.contended > 0 {
            self.contended_runs += 1;
            self.schedules.insert(o.sched_hash);
        }
        self.events += o.events;
        self.draws += o.tape.len() as u64;
        for (k, v) in &o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.virtual_ms += o.stats.virtual_ms;
        self.steps += o.stats.steps;
        self.contended += o.stats.contended;
        self.verify_sessions += o.stats.verify_sessions;
        self.sign_sessions += o.stats.sign_sessions;
        self.entropy_reads += o.entropy_reads;
        self.clock_reads += o.clock_reads;
        self.slowest = self.slowest.max(o.wall);
    }

    #[allow(clippy::too_many_arguments)]
    pub fn write(
        &mut self,
        path: &Path,
        prop: &str,
        deep: bool,
        seed: u64,
        wall: Duration,
        samples: Vec<(u64, u64, Vec<String>)>,
        violations: u64,
        other: Option<String>,
    ) {
        let w = wall.as_secs_f64().max(0.001);
        let key = crate::props::relevant(prop);
        let mut faults = String::new();
        let mut probes = String::new();
        for (k, v) in &self.counts {
            let out = if is_fault(k) { &mut faults } else { &mut probes };
            if !out.is_empty() {
                out.push_str(", ");
            }
            let _ = write!(out, "{}: {v}", js(k));
        }
        let mut sm = String::new();
        for (i, seed, lines) in samples {
            if !sm.is_empty() {
                sm.push_str(",\n    ");
            }
            let n = lines.len();
            let mut t: Vec<String> = lines.into_iter().take(60).map(|l| js(&l.chars().take(300).collect::<String>())).collect();
            if n > 60 {
                t.push(js(&format!("... {} more events", n - 60)));
            }
            let _ = write!(sm, "{{\"run\": {i}, \"run_seed\": {}, \"trace\": [{}]}}", js(&seed.to_string()), t.join(", "));
        }
        let s = format!(
            r#"{{
  "property": {prop},
  "tier": {tier},
  "seed": {seed},
  "level": "exploration",
  "coverage": {{
    "evaluations": {runs},
    "distinct_nontrivial": {distinct},
    "rule": {rule},
    "samples": [{sm}],
    "build_variant": {variant},
    "runs_judged_nontrivial": {relevant},
    "runs_per_hour": {rph},
    "seeds_per_hour": {rph},
    "simulated_seconds": {simsec},
    "simulated_seconds_per_wall_second": {simrate},
    "scheduler_steps": {steps},
    "scheduler_steps_with_a_choice": {contended},
    "runs_with_scheduling_choices": {cruns},
    "distinct_interleavings": {scheds},
    "distinct_interleavings_measure": "distinct hashes of the sequence of scheduled task numbers, over runs in which at least one step had more than one runnable task",
    "choices_drawn": {draws},
    "events_logged": {events},
    "verification_sessions": {vs},
    "signing_sessions": {ss},
    "faults_fired": {{{faults}}},
    "probes": {{{probes}}},
    "wall_clock_reads_answered": {clock},
    "entropy_reads_answered": {ent},
    "determinism_reruns": {reruns},
    "determinism_mismatches": {mism},
    "other_build_variants": [{other}],
    "real_components": ["viadkim (whole crate, built from /repo's working tree)", "RustCrypto rsa/sha1/sha2, ed25519-dalek, base64ct", "tokio current-thread runtime and timers (paused clock)"],
    "stub_components": ["DNS (SimDns behind the LookupTxt trait)", "wall clock (clock_gettime)", "OS entropy (getrandom)", "task scheduler (exec::Sim)", "mail composition, transit and delivery", "heap accounting (global allocator wrapper)"]
  }},
  "assumptions": [{assume}],
  "wall_s": {w:.2},
  "violations": {violations}
}}
"#,
            prop = js(prop),
            tier = js(if deep { "thorough" } else { "quick" }),
            runs = self.runs,
            distinct = self.distinct.len(),
            rule = js(&format!(
                "one evaluation is one simulated run: a world, its mail, schedule and faults drawn from one seed; it is non-trivial when its oracle judged something the property is about (log counter {key:?} fired), and distinct when the hash of its full event log differs"
            )),
            variant = js(VARIANT),
            relevant = self.relevant,
            rph = (self.runs as f64 / w * 3600.0) as u64,
            simsec = self.virtual_ms / 1000,
            simrate = (self.virtual_ms as f64 / 1000.0 / w) as u64,
            steps = self.steps,
            contended = self.contended,
            cruns = self.contended_runs,
            scheds = self.schedules.len(),
            draws = self.draws,
            events = self.events,
            vs = self.verify_sessions,
            ss = self.sign_sessions,
            clock = self.clock_reads,
            ent = self.entropy_reads,
            reruns = self.reruns,
            mism = self.rerun_mismatches,
            other = other.map_or(String::new(), |o| o.trim().replace('\n', "\n    ")),
            assume = [
                "RSA, Ed25519, SHA-1 and SHA-256 primitives of the dependencies are trusted",
                "simulated peers and the reference model (model.rs) implement RFC 6376, 8301 and 8463 as the crate documents them",
            ]
            .map(js)
            .join(", "),
        );
        if let Some(d) = path.parent() {
            let _ = fs::create_dir_all(d);
        }
        if let Err(e) = fs::write(path, s) {
            eprintln!("viasim: cannot write {}: {e}", path.display());
        }
    }
}
