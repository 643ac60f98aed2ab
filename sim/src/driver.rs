//! Drives simulated runs: one process per run, several at a time, each judged from its shared record.
use crate::codec::{Codec, Dec};
use crate::plan::Plan;
use crate::prng::derive;
use crate::shared::{self, Rec, FAULT_NAMES};
use crate::{exec, gen, sched, seam, shrink};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

extern "C" {
    fn personality(p: u64) -> i32;
}

const CPU_LIMIT: u64 = 20;
const WALL_LIMIT: u64 = 120;

/// the build this program is, see `Plan::flavour`
const FLAVOUR: u8 = if cfg!(feature = "f32") {
    2
} else if cfg!(feature = "plain") {
    3
} else if cfg!(debug_assertions) {
    1
} else {
    0
};
const DIRS: [&str; 4] = ["shipped/shipped", "checked/checked", "single/shipped", "plain/plain"];

fn binary(flavour: u8) -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap_or_default();
    let top = me.ancestors().nth(3).unwrap_or(std::path::Path::new("/"));
    top.join(DIRS[flavour as usize % 4]).join("p2tsim")
}

const REC_FD: i64 = 100;
const PLAN_FD: i64 = 101;

/// go on as another build of this program, with the same plan and record
fn other_build(rec: i32, plan: &Plan) -> ! {
    use std::os::unix::process::CommandExt;
    let mut v = vec![];
    plan.enc(&mut v);
    let fd = shared::memfd();
    let b: &[u8] = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8) };
    let mut done = 0;
    while done < b.len() {
        let k = unsafe { seam::raw(1, fd as i64, b[done..].as_ptr() as i64, (b.len() - done) as i64, 0, 0, 0) };
        if k <= 0 {
            shared::fatal("cannot write the plan");
        }
        done += k as usize;
    }
    unsafe {
        seam::raw(33, rec as i64, REC_FD, 0, 0, 0, 0);
        seam::raw(33, fd as i64, PLAN_FD, 0, 0, 0, 0);
    }
    let trace = exec::TRACE.load(std::sync::atomic::Ordering::Relaxed);
    let e = std::process::Command::new(binary(plan.flavour))
        .arg("child")
        .arg(if trace { "1" } else { "0" })
        .arg((v.len() * 8).to_string())
        .exec();
    shared::fatal(&format!("{}: {e}", binary(plan.flavour).display()));
}

fn child(trace: bool, len: usize) -> ! {
    let rec = shared::map_rec(REC_FD as i32);
    shared::use_rec(rec);
    exec::TRACE.store(trace, std::sync::atomic::Ordering::Relaxed);
    let mut v = vec![0i64; len / 8];
    let got = unsafe { seam::raw(17, PLAN_FD, v.as_mut_ptr() as i64, len as i64, 0, 0, 0) };
    unsafe {
        seam::raw(3, REC_FD, 0, 0, 0, 0, 0);
        seam::raw(3, PLAN_FD, 0, 0, 0, 0, 0);
    }
    match Plan::dec(&mut Dec(v.iter())) {
        Some(p) if got == len as i64 && p.flavour == FLAVOUR => exec::run(p),
        _ => shared::fatal("the plan did not arrive"),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    /// the input fails on its own in a way this property does not speak about
    Unusable(String),
    Broken(String),
    Harness(String),
}

pub struct Slot {
    rec: *mut Rec,
    fd: i32,
    pid: i32,
    index: u64,
    start: Instant,
}

impl Slot {
    pub fn new() -> Slot {
        let (rec, fd) = shared::alloc_rec();
        Slot { rec, fd, pid: 0, index: 0, start: Instant::now() }
    }
    pub fn rec(&self) -> &Rec {
        unsafe { &*self.rec }
    }
    fn launch(&mut self, index: u64, prop: u32, cpu: u64, make: impl FnOnce() -> Plan) {
        unsafe {
            let n = std::mem::offset_of!(Rec, msg);
            std::ptr::write_bytes(self.rec as *mut u8, 0, n);
            (*self.rec).mask = 1 << prop;
        }
        self.index = index;
        self.start = Instant::now();
        let pid = unsafe { seam::fork() };
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            unsafe {
                seam::raw(157, 1, 9, 0, 0, 0, 0); // die with the driver
                seam::setrlimit(0, &[cpu, cpu + 1]);
                seam::setrlimit(9, &[5 << 30, 5 << 30]);
                seam::setrlimit(4, &[0, 0]);
            }
            shared::use_rec(self.rec);
            let plan = make();
            shared::count(shared::C_FLAVOUR + plan.flavour.min(3) as usize);
            if plan.flavour != FLAVOUR {
                other_build(self.fd, &plan);
            }
            exec::run(plan);
        }
        self.pid = pid;
    }
    fn verdict(&self, st: i32) -> Verdict {
        let r = self.rec();
        let m = shared::msg(r);
        let sig = st & 0x7f;
        if sig == 0 && (st >> 8) & 0xff == 0 {
            return match r.verdict {
                1 => Verdict::Held,
                2 => Verdict::Broken(m),
                4 => Verdict::Unusable(m),
                3 => Verdict::Harness(m),
                _ => Verdict::Harness("the run ended without a verdict".into()),
            };
        }
        if r.ref_bad != 0 {
            return Verdict::Unusable("died, as its input does on its own".into());
        }
        match sig {
            0 => Verdict::Harness(format!("exit code {}", (st >> 8) & 0xff)),
            1 | 2 | 15 => Verdict::Harness(format!("ended from outside, by signal {sig}")),
            24 | 9 => Verdict::Broken("the run does not finish: it used up its processor time".into()),
            _ => Verdict::Broken(format!("the process died of signal {sig} ({})", signame(sig))),
        }
    }
}
fn signame(s: i32) -> &'static str {
    match s {
        4 => "illegal instruction",
        6 => "abort",
        7 => "bus error",
        8 => "arithmetic",
        11 => "invalid memory reference",
        _ => "?",
    }
}

/// one run, waited for
pub fn once(slot: &mut Slot, prop: u32, p: &Plan, cpu: u64) -> Verdict {
    slot.launch(0, prop, cpu, || p.clone());
    let mut st = 0;
    loop {
        let k = unsafe { seam::waitpid(slot.pid, &mut st, 1) };
        if k == slot.pid {
            return slot.verdict(st);
        }
        if slot.start.elapsed() > Duration::from_secs(WALL_LIMIT) {
            unsafe {
                seam::kill(slot.pid, 9);
                seam::waitpid(slot.pid, &mut st, 0);
            }
            return slot.verdict(st);
        }
        std::thread::sleep(Duration::from_micros(if slot.start.elapsed().as_millis() < 50 { 200 } else { 5000 }));
    }
}

/// the same run, with its schedule written out
pub fn with_schedule(p: &Plan, r: &Rec) -> Plan {
    let mut q = p.clone();
    if (r.ndev as usize) < shared::DEVS {
        q.sched.explicit = Some(r.devs[..r.ndev as usize].to_vec());
    }
    q
}

pub fn replay_text(prop: u32, p: &Plan, msg: &str, r: &Rec, seed: u64, index: u64) -> String {
    let mut o = String::new();
    let e = |o: &mut String, s: String| {
        o.push_str(&s);
        o.push('\n');
    };
    e(&mut o, format!("# p2tsim replay: property C{prop:02}"));
    e(&mut o, format!("# violation: {}", msg.replace('\n', " ")));
    e(&mut o, format!("# found with VERIF_SEED={seed}, run {index}; minimised"));
    for (i, x) in p.inputs.iter().enumerate() {
        e(&mut o, format!("# input {i}: {x:?}"));
    }
    for (i, c) in p.contents.iter().enumerate() {
        e(&mut o, format!("# content {i}: {:?}", String::from_utf8_lossy(&p.content(i as u16)).chars().take(400).collect::<String>()));
        e(&mut o, format!("#   made as {c:?}"));
    }
    if !p.files.is_empty() {
        e(&mut o, format!("# files hold contents {:?}", p.files));
    }
    for (t, ops) in p.tasks.iter().enumerate() {
        e(&mut o, format!("# task {t}:"));
        for op in ops {
            e(&mut o, format!("#   {op:?}"));
        }
    }
    if !p.rounds.is_empty() {
        e(&mut o, format!("# all of it {} times, everything being dropped in between, with the inputs moved by {:?}", p.rounds.len() + 1, p.rounds));
    }
    if let Some(d) = &p.sched.explicit {
        e(&mut o, format!("# build: {}", ["as shipped", "with debug assertions", "single precision", "not optimised"][p.flavour as usize % 4]));
        e(&mut o, format!("# schedule: each task runs on, lowest first, except for {} switches (task, its yield point, to):", d.len()));
        e(&mut o, format!("#   {:?}", d.iter().take(200).collect::<Vec<_>>()));
    } else {
        e(&mut o, format!("# schedule: drawn from seed {}", p.sched.seed));
    }
    let mut v = vec![];
    p.enc(&mut v);
    e(&mut o, format!("property: {prop}"));
    e(&mut o, format!("expect: {:016x} {}", r.sched_hash, msg.replace('\n', " ")));
    e(&mut o, format!("plan: {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    o
}

pub fn decode_plan(line: &str) -> Option<Plan> {
    let v: Option<Vec<i64>> = line.split_whitespace().map(|x| x.parse().ok()).collect();
    Plan::dec(&mut Dec(v?.iter()))
}

fn root() -> std::path::PathBuf {
    std::env::var("P2T_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let (Some(prop), Some(expect), Some(plan)) = (get("property:"), get("expect:"), get("plan:")) else {
        eprintln!("{file}: not a replay file");
        return 2;
    };
    let (Ok(prop), Some(plan)) = (prop.parse::<u32>(), decode_plan(&plan)) else {
        eprintln!("{file}: not a replay file");
        return 2;
    };
    exec::TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut s = Slot::new();
    match once(&mut s, prop, &plan, 3 * CPU_LIMIT) {
        Verdict::Broken(m) => {
            let got = format!("{:016x} {}", s.rec().sched_hash, m.replace('\n', " "));
            println!("{m}");
            println!("{}", if got == expect { "reproduced exactly" } else { "reproduced, differing in detail from the recording" });
            println!("VIOLATION property=C{prop:02} replay={file}");
            1
        }
        v => {
            println!("not reproduced: {v:?}");
            0
        }
    }
}

/// runs of the quick tier, sized to about half a minute on 8 cores
fn quick_runs(prop: u32) -> u64 {
    match prop {
        6 | 7 => 32_000,
        9..=12 => 48_000,
        17 => 6_000,
        15 => 24_000,
        _ => 30_000,
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    held: u64,
    unusable: u64,
    harness: u64,
    count: Vec<u64>,
    sim_ns: u128,
    steps: u64,
    scheds: HashSet<u64>,
    outcomes: HashSet<u64>,
    nontrivial: HashSet<(u64, u64)>,
    notes: Vec<String>,
    slowest_ms: u64,
    dev_total: u64,
    /// of the outcomes of all runs together
    sum: u64,
}

impl Totals {
    fn add(&mut self, r: &Rec) {
        if self.count.is_empty() {
            self.count = vec![0; shared::NCOUNT];
        }
        for (a, b) in self.count.iter_mut().zip(r.count.iter()) {
            *a += b;
        }
        self.sim_ns += r.sim_ns as u128;
        self.steps += r.steps;
        self.dev_total += r.ndev as u64;
        self.scheds.insert(r.sched_hash);
        self.outcomes.insert(r.outcome_hash);
        self.sum = self.sum.wrapping_add(crate::prng::mix(r.outcome_hash));
        let work = r.count[shared::C_TRI] + r.count[shared::C_LOAD];
        let faults: u64 = FAULT_NAMES.iter().map(|f| r.count[f.0]).sum();
        if work > 0 && (r.count[shared::C_SWITCH] + faults + r.count[shared::C_CB] + r.count[shared::C_LOAD]) > 0 {
            self.nontrivial.insert((r.sched_hash, r.outcome_hash));
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn brief(p: &Plan) -> String {
    let mut s = format!("{} inputs of {:?} points", p.inputs.len(), p.inputs.iter().map(|i| i.len()).collect::<Vec<_>>());
    for (t, ops) in p.tasks.iter().enumerate() {
        let d = format!("{ops:?}");
        s.push_str(&format!("; task {t}: {}", d.chars().take(500).collect::<String>()));
    }
    s.push_str(&format!("; preemption per kind {:?}/65536, stalls {}/65536", p.sched.p, p.sched.p_stall));
    s.chars().take(2500).collect()
}

fn run_seed(seed: u64, prop: u32, i: u64) -> u64 {
    derive(derive(seed, 0xC0DE + prop as u64), i)
}

fn check(prop: u32, tier: &str, seed: u64, runs: u64, jobs: usize, wall: u64) -> i32 {
    let begin = Instant::now();
    let big = tier == "thorough";
    let mut slots: Vec<Slot> = (0..jobs).map(|_| Slot::new()).collect();
    let mut busy = vec![false; jobs];
    let mut tot = Totals::default();
    let mut next = 0u64;
    let mut found: Option<(u64, String)> = None;
    let audit = 48u64.min(runs);
    let mut first: BTreeMap<u64, (u64, u64, u64, u32)> = BTreeMap::new();
    let mut retried: HashSet<u64> = HashSet::new();
    let mut again: Vec<u64> = vec![];
    loop {
        let stop = found.is_some() || begin.elapsed() > Duration::from_secs(wall);
        for k in 0..jobs {
            if !busy[k] {
                let cpu;
                let i = if let Some(i) = again.pop() {
                    cpu = 3 * CPU_LIMIT;
                    i
                } else if next < runs && !stop {
                    cpu = CPU_LIMIT;
                    next += 1;
                    next - 1
                } else {
                    continue;
                };
                slots[k].launch(i, prop, cpu, || gen::plan(prop, run_seed(seed, prop, i), big));
                busy[k] = true;
            }
        }
        if !busy.iter().any(|b| *b) {
            break;
        }
        let mut idle = true;
        for k in 0..jobs {
            if !busy[k] {
                continue;
            }
            let mut st = 0;
            let w = unsafe { seam::waitpid(slots[k].pid, &mut st, 1) };
            if w != slots[k].pid {
                if slots[k].start.elapsed() > Duration::from_secs(WALL_LIMIT) {
                    unsafe { seam::kill(slots[k].pid, 9) };
                }
                continue;
            }
            idle = false;
            busy[k] = false;
            let i = slots[k].index;
            let v = slots[k].verdict(st);
            // out of time or killed: once more, with more time, before it counts
            if (st & 0x7f == 24 || st & 0x7f == 9) && slots[k].rec().ref_bad == 0 && retried.insert(i) {
                again.push(i);
                continue;
            }
            tot.runs += 1;
            let took = slots[k].start.elapsed().as_millis() as u64;
            if took > 5000 && std::env::var_os("P2T_SLOW").is_some() {
                eprintln!("note: run {} took {took} ms", slots[k].index);
            }
            tot.slowest_ms = tot.slowest_ms.max(took);
            let r = slots[k].rec();
            tot.add(r);
            if i < audit {
                first.insert(i, (r.sched_hash, r.outcome_hash, r.steps, r.verdict));
            }
            match v {
                Verdict::Held => tot.held += 1,
                Verdict::Unusable(_) => tot.unusable += 1,
                Verdict::Harness(m) => {
                    tot.harness += 1;
                    if tot.notes.len() < 5 {
                        tot.notes.push(format!("run {i}: {m}"));
                    }
                }
                Verdict::Broken(m) => {
                    if found.as_ref().map_or(true, |f| i < f.0) {
                        found = Some((i, m));
                    }
                }
            }
        }
        if idle {
            std::thread::sleep(Duration::from_micros(150));
        }
    }
    let search = begin.elapsed().as_secs_f64();
    let mut code = 0;
    let mut line = None;
    let mut samples = vec![];
    let mut slot = Slot::new();
    if let Some((i, m)) = &found {
        let p = gen::plan(prop, run_seed(seed, prop, *i), big);
        let (p, m) = shrink::shrink(prop, p, m.clone(), &mut slot);
        // the file records what a replay of it will show
        let m = match once(&mut slot, prop, &p, CPU_LIMIT) {
            Verdict::Broken(x) => x,
            _ => m,
        };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("C{prop:02}-{seed}-{i}.replay"));
        let text = replay_text(prop, &p, &m, slot.rec(), seed, *i);
        if let Err(e) = std::fs::write(&path, text) {
            eprintln!("{}: {e}", path.display());
        }
        println!("run {i} of seed {seed}: {m}");
        line = Some(format!("VIOLATION property=C{prop:02} replay={}", path.display()));
        samples.push(format!("violating run {i}: {m}"));
        code = 1;
    }
    // the same seeds once more: the same executions?
    let mut mismatch = vec![];
    let mut audited = 0;
    if found.is_none() {
        for (i, want) in &first {
            let p = gen::plan(prop, run_seed(seed, prop, *i), big);
            once(&mut slot, prop, &p, CPU_LIMIT);
            let r = slot.rec();
            audited += 1;
            if (r.sched_hash, r.outcome_hash, r.steps, r.verdict) != *want {
                mismatch.push(*i);
            }
        }
    }
    for i in 0..3u64.min(tot.runs) {
        samples.push(format!("run {i}: {}", brief(&gen::plan(prop, run_seed(seed, prop, i), big))));
    }
    let ev = evidence(prop, tier, seed, &tot, search, begin.elapsed().as_secs_f64(), code, &samples, audited, &mismatch);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("C{prop:02}.json")), ev) {
        eprintln!("evidence: {e}");
    }
    println!(
        "C{prop:02}: {} runs, {} held, {} unusable, {} harness failures, {} distinct schedules, {:.1} s ({:.0} runs/h), slowest run {} ms, audit mismatches {:?}, outcomes {:016x}",
        tot.runs,
        tot.held,
        tot.unusable,
        tot.harness,
        tot.scheds.len(),
        search,
        tot.runs as f64 / search * 3600.0,
        tot.slowest_ms,
        mismatch,
        tot.sum
    );
    for n in &tot.notes {
        println!("note: {n}");
    }
    if let Some(l) = line {
        println!("{l}");
    } else if tot.harness * 2 > tot.runs {
        eprintln!("more than half of the runs could not be simulated");
        code = 2;
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: u32, tier: &str, seed: u64, t: &Totals, search: f64, wall: f64, violations: i32, samples: &[String], audited: usize, mismatch: &[u64],
) -> String {
    let zero = vec![0u64; shared::NCOUNT];
    let c = if t.count.is_empty() { &zero } else { &t.count };
    let mut f = vec![];
    for (k, n) in FAULT_NAMES {
        f.push(format!("{}: {}", js(n), c[k]));
    }
    let mut y = vec![];
    for (k, n) in sched::KIND_NAMES.iter().enumerate() {
        y.push(format!("{}: [{}, {}]", js(n), c[shared::C_YIELD + k], c[shared::C_PREEMPT + k]));
    }
    let names = [
        (shared::C_OPS, "client operations"),
        (shared::C_ROUND, "rounds of work after which everything was dropped"),
        (shared::C_TRI, "triangulations compared with the same input run alone"),
        (shared::C_TRI_OBS, "of these observed"),
        (shared::C_TRI_NESTED, "of these nested in a callback"),
        (shared::C_STORM, "long series of small runs on one thread"),
        (shared::C_CROWD, "runs with more than eight tasks"),
        (shared::C_EXOTIC, "histories with data of other kinds"),
        (shared::C_CB, "callbacks judged"),
        (shared::C_NESTED_OPS, "operations made inside callbacks"),
        (shared::C_POINTS, "points triangulated"),
        (shared::C_REF, "inputs run alone in a process of their own"),
        (shared::C_MESH, "meshes checked"),
        (shared::C_DIGEST, "state digests compared"),
        (shared::C_PEEK, "callbacks that read everything"),
        (shared::C_LOAD, "loads"),
        (shared::C_LOAD_OK, "loads that succeeded"),
        (shared::C_LOAD_ERR, "loads that failed"),
        (shared::C_MUST_FAIL, "loads that had to fail"),
        (shared::C_CHANGED_MID, "loads whose file changed under them"),
        (shared::C_SNOOP, "loaded inputs read back"),
        (shared::C_WRITER, "files rewritten by a writer task"),
        (shared::C_FORK, "clones"),
        (shared::C_SENT, "values sent between tasks"),
        (shared::C_CONSUME, "uses of results"),
        (shared::C_SHARED, "uses of shared results"),
        (shared::C_DATA, "client data tracked"),
        (shared::C_PROBE, "lookups of kept identifiers"),
        (shared::C_PROBE_FOUND, "answered with something of the run"),
        (shared::C_PROBE_ABSENT, "answered absent"),
        (shared::C_PROBE_PANIC, "answered with a panic"),
        (shared::C_SWITCH, "task switches"),
        (shared::C_CLOCK, "clock readings by the library"),
        (shared::C_BLOCK, "waits of the library on another task"),
        (shared::C_LIBTHREAD, "threads started by the library"),
    ];
    let w: Vec<String> = names.iter().map(|(k, n)| format!("{}: {}", js(n), c[*k])).collect();
    let s: Vec<String> = samples.iter().map(|x| js(x)).collect();
    let notes: Vec<String> = t.notes.iter().map(|x| js(x)).collect();
    let note = if t.runs > 0 && t.unusable * 2 > t.runs {
        "most inputs already fail on their own in this tree (see C13): little was explored"
    } else {
        ""
    };
    format!(
        r#"{{
 "property": "C{prop:02}", "tier": {tier}, "seed": {seed}, "level": "exploration", "wall_s": {wall:.2}, "violations": {violations},
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {dn},
  "rule": {rule},
  "samples": [{samples}],
  "simulated_runs_per_hour": {rph:.0},
  "seeds_per_hour": {rph:.0},
  "simulated_seconds": {sim:.0},
  "scheduling_steps": {steps},
  "distinct_interleavings": {di},
  "distinct_interleavings_measure": "hash of the sequence of (task, yield point, successor) over all switches of a run",
  "distinct_outcomes": {dout},
  "scheduling_choices_taken": {dev},
  "runs_per_build": {{"as shipped (release, unchecked accesses verified)": {fl0}, "with the library's debug assertions and overflow checks": {fl1}, "single precision (feature f32)": {fl2}, "without optimisation": {fl3}}},
  "runs_held": {held}, "runs_unusable": {unus}, "runs_not_simulated": {harn},
  "faults_injected": {{{faults}}},
  "yield_points_met_and_preempted": {{{yields}}},
  "work": {{{work}}},
  "real_components": ["poly2tri-rs, compiled from /repo as it is (all modules)", "std::fs, std::io, std::sync and the panic machinery of std", "the threads of the client"],
  "stubbed_components": ["kernel file system (open, read, stat, lseek, close): simulated disk", "thread scheduling and futex waits: seeded scheduler", "clocks and sleeping: simulated time", "getrandom: seeded", "placement and initial contents of heap memory: seeded arena", "client code: points, data, observers, consumers, file writers"],
  "determinism_audit": {{"runs_repeated": {audited}, "runs_that_differed": {mm:?}}},
  "slowest_run_ms": {slow},
  "note": {note}, "harness_notes": [{notes}]
 }},
 "assumptions": ["client code between yield points is atomic", "the run of an input alone in a fresh process is the reference for its outcome"]
}}
"#,
        tier = js(tier),
        runs = t.runs,
        dn = t.nontrivial.len(),
        rule = js("one evaluation is one simulated run, fully determined by its seed: inputs, operations of every task, faults and schedule are drawn from it; it counts as distinct and non-trivial when it did at least one triangulation or load, was disturbed or observed (task switch, fault or callback), and no other run of this check had the same switches and the same outcomes"),
        samples = s.join(", "),
        rph = t.runs as f64 / search.max(0.001) * 3600.0,
        sim = t.sim_ns as f64 / 1e9,
        steps = t.steps,
        di = t.scheds.len(),
        dout = t.outcomes.len(),
        dev = t.dev_total,
        fl0 = c[shared::C_FLAVOUR],
        fl1 = c[shared::C_FLAVOUR + 1],
        fl2 = c[shared::C_FLAVOUR + 2],
        fl3 = c[shared::C_FLAVOUR + 3],
        held = t.held,
        unus = t.unusable,
        harn = t.harness,
        faults = f.join(", "),
        yields = y.join(", "),
        work = w.join(", "),
        mm = mismatch,
        slow = t.slowest_ms,
        note = js(note),
        notes = notes.join(", "),
    )
}

fn no_aslr() {
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 && p & 0x40000 == 0 && std::env::var_os("P2T_PERSONALITY").is_none() && personality(p as u64 | 0x40000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("P2T_PERSONALITY", "1").exec();
            eprintln!("exec: {e}");
        }
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s.as_str()) == Some("child") {
        child(a.get(1).map(|s| s.as_str()) == Some("1"), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0));
    }
    no_aslr();
    for f in 0..4 {
        if binary(f).exists() {
            gen::HAVE.fetch_or(1 << f, std::sync::atomic::Ordering::Relaxed);
        }
    }
    let env = |k: &str| std::env::var(k).ok();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").or(env("VERIF_TIER")).filter(|t| t == "thorough").unwrap_or("quick".into());
    let prop = |s: &String| s.trim_start_matches('C').parse::<u32>().ok().filter(|p| (1..=17).contains(p));
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let Some(p) = a.get(1).and_then(prop) else {
                eprintln!("which property?");
                return 2;
            };
            let big = tier == "thorough";
            let runs = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(if big { quick_runs(p) * 60 } else { quick_runs(p) });
            let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
            let jobs = opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(cores.clamp(1, 8));
            let wall = opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(if big { 720 } else { 300 });
            check(p, &tier, seed, runs, jobs, wall)
        }
        Some("replay") => replay(a.get(1).map(|s| s.as_str()).unwrap_or("")),
        Some("inputs") => {
            // the inputs of one run, as files that PlainFileLoader reads
            let (Some(p), Some(i)) = (a.get(1).and_then(prop), a.get(2).and_then(|s| s.parse::<u64>().ok())) else { return 2 };
            for x in gen::plan(p, run_seed(seed, p, i), tier == "thorough").inputs {
                println!("{}", String::from_utf8_lossy(&crate::plan::render_plain(&x)));
            }
            0
        }
        Some("run") => {
            // one run by index, with its trace
            let (Some(p), Some(i)) = (a.get(1).and_then(prop), a.get(2).and_then(|s| s.parse::<u64>().ok())) else { return 2 };
            if opt("--trace").is_some() {
                exec::TRACE.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            let plan = gen::plan(p, run_seed(seed, p, i), tier == "thorough");
            let mut s = Slot::new();
            println!("{}", brief(&plan));
            let v = once(&mut s, p, &plan, CPU_LIMIT);
            let r = s.rec();
            println!("{v:?} sched {:016x} outcome {:016x} steps {} devs {}", r.sched_hash, r.outcome_hash, r.steps, r.ndev);
            let q = with_schedule(&plan, r);
            let v = once(&mut s, p, &q, CPU_LIMIT);
            let r = s.rec();
            println!("{v:?} sched {:016x} outcome {:016x} steps {} devs {}", r.sched_hash, r.outcome_hash, r.steps, r.ndev);
            0
        }
        _ => {
            eprintln!("p2tsim check Cnn | replay FILE | run Cnn INDEX");
            2
        }
    }
}
