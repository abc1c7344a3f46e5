//! cbsim: deterministic simulation of systems that speak cbored.
//!
//! `check`   seeded search over schedules and faults for one property
//! `replay`  re-execute a recorded violation exactly
//! `worker`, `exec`, `hashes`  internal subprocesses

mod alloc;
mod api;
mod ctx;
mod entry;
mod refcbor;
mod rng;
mod scen;
mod seam;
mod paths;
mod zoo;

use ctx::{Ctx, Viol};
use rng::{mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[global_allocator]
static A: alloc::Acct = alloc::Acct;

const STACK: usize = 8 << 20; // the usual main-thread stack
const HANG_CPU_S: u64 = 20;
const EXIT_HANG: i32 = 78;
/// seconds during which every thread of a run may wait for another one
const STUCK_S: u32 = 10;
const EXIT_STUCK: i32 = 79;

thread_local! {
    pub(crate) static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub ctx: Ctx,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn execute(f: scen::Scen, src: Src, verbose: bool) -> Outcome {
    let mut c = Ctx::new(src, verbose);
    IN_RUN.store(true, Relaxed);
    seam::simulated(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    seam::simulated(false);
    IN_RUN.store(false, Relaxed);
    alloc::off();
    match r {
        Ok(Ok(())) => Outcome { viol: None, harness: None, ctx: c },
        Ok(Err(v)) => Outcome { viol: Some(v), harness: None, ctx: c },
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic raised in the simulator's own code is a harness error;
            // derive-generated code carries zoo.rs locations
            let own = loc.starts_with("src/") && !loc.starts_with("src/zoo.rs") && !loc.starts_with("src/paths.rs");
            if own {
                Outcome { viol: None, harness: Some(format!("panic in the simulator at {}: {}", loc, msg)), ctx: c }
            } else {
                let short = loc.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(loc);
                Outcome {
                    viol: Some(Viol { class: format!("panic@{}", short), msg: format!("panicked at {}: {}", short, msg) }),
                    harness: None,
                    ctx: c,
                }
            }
        }
    }
}

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

// ------------------------------------------------------------ small json ---

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jget<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{}\":", key);
    let at = s.find(&k)? + k.len();
    Some(s[at..].trim_start())
}
fn jstr(s: &str, key: &str) -> Option<String> {
    let v = jget(s, key)?;
    let v = v.strip_prefix('"')?;
    let mut o = String::new();
    let mut it = v.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}
fn jtape(s: &str) -> Option<Vec<u64>> {
    jnums(s, "tape")
}
fn jnums(s: &str, key: &str) -> Option<Vec<u64>> {
    let v = jget(s, key)?;
    let v = v.strip_prefix('[')?;
    let end = v.find(']')?;
    v[..end].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}

// ---------------------------------------------------------------- worker ---

static RUN_NO: AtomicU64 = AtomicU64::new(0);
pub(crate) static IN_RUN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// whether every thread of this process but the calling one sleeps
pub(crate) fn all_asleep() -> bool {
    let me = match std::fs::read_link("/proc/thread-self") {
        Ok(p) => p.file_name().map(|f| f.to_os_string()),
        Err(_) => return false,
    };
    let rd = match std::fs::read_dir("/proc/self/task") {
        Ok(rd) => rd,
        Err(_) => return false,
    };
    let mut n = 0;
    for e in rd.flatten() {
        if Some(e.file_name()) == me {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        if s.rsplit_once(") ").map_or(true, |x| !x.1.starts_with('S')) {
            return false;
        }
        n += 1;
    }
    n > 0
}

extern "C" {
    fn _exit(c: i32) -> !;
}
fn cpu_s() -> u64 {
    let mut t = seam::Ts { s: 0, n: 0 };
    unsafe { seam::real_clock(2, &mut t) };
    t.s as u64
}
/// ends the process when one simulated run burns far more processor time than
/// any run may, or when its threads wait for each other for ever
fn watchdog() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        // it has its memory before anybody else starts
        let _ = tx.send(all_asleep());
        let mut last = (u64::MAX, 0u64);
        let mut asleep = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let r = RUN_NO.load(Relaxed);
            let c = cpu_s();
            asleep = if r == last.0 && IN_RUN.load(Relaxed) && all_asleep() { asleep + 1 } else { 0 };
            if asleep >= STUCK_S * 2 {
                eprintln!("SIM-STUCK");
                unsafe { _exit(EXIT_STUCK) }
            }
            if r != last.0 {
                last = (r, c);
            } else if c - last.1 >= HANG_CPU_S {
                eprintln!("SIM-HANG");
                unsafe { _exit(EXIT_HANG) }
            }
        }
    });
    let _ = rx.recv();
}

#[derive(Default)]
struct Stats {
    runs: u64,
    quiet_runs: u64,
    steps: u64,
    ops: u64,
    sim_us: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sched: HashSet<u64>,
    pairs: HashSet<u32>,
    nontrivial: HashSet<u64>,
    timed_out: u64,
}

impl Stats {
    fn add(&mut self, c: &Ctx) {
        self.runs += 1;
        self.steps += c.steps;
        self.ops += c.ops;
        self.sim_us += c.now;
        if c.faults.is_empty() {
            self.quiet_runs += 1;
        }
        for (k, v) in &c.faults {
            *self.faults.entry(k.to_string()).or_default() += v;
            *self.fault_runs.entry(k.to_string()).or_default() += 1;
        }
        for (k, v) in &c.probes {
            *self.probes.entry(k.to_string()).or_default() += v;
        }
        self.sched.insert(c.sched);
        self.pairs.extend(c.pairs.iter());
        if !c.faults.is_empty() && c.ops > 0 {
            self.nontrivial.insert(c.full);
        }
    }
    fn write(&self, path: &str) -> std::io::Result<()> {
        let mut o = String::new();
        o.push_str(&format!(
            "n {} {} {} {} {} {}\n",
            self.runs, self.quiet_runs, self.steps, self.ops, self.sim_us, self.timed_out
        ));
        for (k, v) in &self.faults {
            o.push_str(&format!("f {} {} {}\n", k, v, self.fault_runs[k]));
        }
        for (k, v) in &self.probes {
            o.push_str(&format!("p {} {}\n", k, v));
        }
        for x in &self.sched {
            o.push_str(&format!("s {:x}\n", x));
        }
        for x in &self.nontrivial {
            o.push_str(&format!("t {:x}\n", x));
        }
        for x in &self.pairs {
            o.push_str(&format!("e {:x}\n", x));
        }
        std::fs::write(path, o)
    }
    fn read(&mut self, path: &str) -> Option<()> {
        let s = std::fs::read_to_string(path).ok()?;
        for l in s.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match p[0] {
                "n" => {
                    let v: Vec<u64> = p[1..].iter().filter_map(|x| x.parse().ok()).collect();
                    self.runs += v[0];
                    self.quiet_runs += v[1];
                    self.steps += v[2];
                    self.ops += v[3];
                    self.sim_us += v[4];
                    self.timed_out += v[5];
                }
                "f" => {
                    *self.faults.entry(p[1].into()).or_default() += p[2].parse::<u64>().ok()?;
                    *self.fault_runs.entry(p[1].into()).or_default() += p[3].parse::<u64>().ok()?;
                }
                "p" => *self.probes.entry(p[1].into()).or_default() += p[2].parse::<u64>().ok()?,
                "s" => {
                    self.sched.insert(u64::from_str_radix(p[1], 16).ok()?);
                }
                "t" => {
                    self.nontrivial.insert(u64::from_str_radix(p[1], 16).ok()?);
                }
                "e" => {
                    self.pairs.insert(u32::from_str_radix(p[1], 16).ok()?);
                }
                _ => (),
            }
        }
        Some(())
    }
}

struct Args {
    m: BTreeMap<String, String>,
    pos: Vec<String>,
}
impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut pos = Vec::new();
        let mut it = std::env::args().skip(2);
        while let Some(a) = it.next() {
            match a.strip_prefix("--") {
                Some(k) => {
                    m.insert(k.to_string(), it.next().unwrap_or_default());
                }
                None => pos.push(a),
            }
        }
        Args { m, pos }
    }
    fn s(&self, k: &str) -> String {
        self.m.get(k).cloned().unwrap_or_default()
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.m.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// Violations listed as open findings: `property class` pairs.
fn known(root: &str) -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in s.lines() {
            // open: property=<id> class=<class> :: text
            if let Some(r) = l.strip_prefix("open: ") {
                let mut it = r.splitn(2, " :: ");
                let head = it.next().unwrap_or("");
                let text = it.next().unwrap_or("").to_string();
                let mut p = String::new();
                let mut c = String::new();
                for w in head.split(' ') {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = x.into()
                    }
                    if let Some(x) = w.strip_prefix("class=") {
                        c = x.into()
                    }
                }
                v.push((p, c, text));
            }
        }
    }
    v
}

fn worker(a: &Args) -> i32 {
    let prop = a.s("prop");
    let f = scen::find(&prop).expect("property").f;
    let seed = a.n("seed", 1);
    let (first, stride, count) = (a.n("first", 0), a.n("stride", 1), a.n("count", 1));
    let deadline = Instant::now() + std::time::Duration::from_millis(a.n("ms", 1 << 40));
    let dir = a.s("dir");
    let wid = a.s("wid");
    let skip: HashSet<String> = known(&a.s("root")).into_iter().filter(|k| k.0 == prop).map(|k| k.1).collect();
    watchdog();
    let mut st = Stats::default();
    let cur = std::fs::File::create(format!("{}/cur.{}", dir, wid)).expect("cur");
    use std::os::unix::fs::FileExt;
    let mut k = 0;
    let mut lost = 0;
    let mut seen = HashSet::new();
    while k < count {
        let mut found = None;
        let idx = first + k * stride;
        k += 1;
        if Instant::now() > deadline {
            st.timed_out += 1;
            break;
        }
        RUN_NO.store(idx, Relaxed);
        let _ = cur.write_at(&idx.to_le_bytes(), 0);
        let o = execute(f, Src::seeded(run_seed(seed, &prop, idx)), false);
        if let Some(h) = o.harness {
            eprintln!("harness error in run {}: {}", idx, h);
            return 2;
        }
        st.add(&o.ctx);
        if let Some(v) = o.viol {
            if skip.contains(&v.class) {
                if seen.insert(v.class.clone()) {
                    let _ = std::fs::write(format!("{}/known.{}.{}", dir, wid, seen.len()), &v.class);
                }
                continue;
            }
            found = Some((idx, v, o.ctx.s.tape[..].to_vec()));
        }
        let (idx, v, tape) = match found {
            Some(f) => f,
            None => continue,
        };
        RUN_NO.store(u64::MAX - 1, Relaxed);
        // the first to find something reports; the others need not minimise
        let claim = format!("{}/claimed", dir);
        if std::fs::OpenOptions::new().write(true).create_new(true).open(&claim).is_err() {
            break;
        }
        let whole = tape.clone();
        let first_v = v.clone();
        let (tape, v) = minimise(tape, v, |t| {
            RUN_NO.fetch_sub(1, Relaxed);
            let o = execute(f, Src::replay(t.to_vec()), false);
            o.viol.map(|v| (v, o.ctx.s.used()))
        });
        let exe = std::env::current_exe().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
        let file = format!("{}/found.json", dir);
        let mut hist = Vec::new();
        let (mut tape, mut v) = (tape, v);
        // what this process did before may be what makes the run fail: a
        // replay starts from a fresh process
        if !fresh(&exe, &prop, seed, &tape, &[], &dir).map_or(false, |x| x.class == v.class) {
            RUN_NO.fetch_sub(1, Relaxed);
            let before: Vec<u64> = (0..k - 1).map(|j| first + j * stride).collect();
            match settle(&exe, &prop, seed, whole, first_v, &before, &dir, if lost == 0 { 150 } else { 40 }) {
                Some((t, h, x)) => {
                    tape = t;
                    hist = h;
                    v = x
                }
                None => {
                    // nothing that can be shown; perhaps another run shows it
                    eprintln!("run {} ({}) does not fail again from a fresh process", idx, v.class);
                    lost += 1;
                    if lost == 3 {
                        break;
                    }
                    let _ = std::fs::remove_file(&claim);
                    continue;
                }
            }
        }
        write_replay(&file, PROFILE, &exe, &prop, seed, idx, &tape, &hist, &v);
        return if st.write(&format!("{}/stats.{}", dir, wid)).is_err() { 2 } else { 1 };
    }
    if st.write(&format!("{}/stats.{}", dir, wid)).is_err() || lost > 0 {
        return 2;
    }
    0
}

const PROFILE: &str = if cfg!(debug_assertions) { "release" } else { "ship" };

/// the same simulator built with another profile
fn twin(exe: &str, profile: &str) -> Option<String> {
    let p = std::path::Path::new(exe);
    let t = p.parent()?.parent()?.join(profile).join(p.file_name()?);
    if t.exists() {
        Some(t.to_string_lossy().to_string())
    } else {
        None
    }
}
fn for_profile(exe: &str, replay: &str) -> String {
    match jstr(replay, "build") {
        Some(b) if b != PROFILE => twin(exe, &b).unwrap_or(exe.to_string()),
        _ => exe.to_string(),
    }
}

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// what the tape does in a fresh process that first executes the runs `hist`
fn fresh(exe: &str, prop: &str, seed: u64, tape: &[u64], hist: &[u64], dir: &str) -> Option<Viol> {
    let tmp = format!("{}/try.{}.json", dir, std::process::id());
    std::fs::write(&tmp, format!("{{\"seed\": {}, \"history\": [{}], \"tape\": [{}]}}", seed, nums(hist), nums(tape))).ok()?;
    let (v, _) = sub_exec(exe, prop, &["--tape", &tmp]);
    let _ = std::fs::remove_file(&tmp);
    v
}

/// A failure that the shrunk tape alone does not reproduce: shrink through fresh
/// processes, and when the whole tape alone does not fail either, find the
/// earlier runs of the process that it needs.
#[allow(clippy::too_many_arguments)]
fn settle(exe: &str, prop: &str, seed: u64, tape: Vec<u64>, v: Viol, before: &[u64], dir: &str, secs: u64) -> Option<(Vec<u64>, Vec<u64>, Viol)> {
    let t0 = Instant::now();
    let mut hist: Vec<u64> = Vec::new();
    let mut got = fresh(exe, prop, seed, &tape, &hist, dir);
    let mut n = 1;
    while got.is_none() && n / 4 < before.len() && t0.elapsed().as_secs() < secs {
        hist = before[before.len() - n.min(before.len())..].to_vec();
        RUN_NO.fetch_sub(1, Relaxed);
        got = fresh(exe, prop, seed, &tape, &hist, dir);
        n *= 4;
    }
    let v = got.map(|x| if x.class == v.class { v } else { x })?;
    // drop the earlier runs that are not needed
    let t1 = Instant::now();
    let mut size = (hist.len() + 1) / 2;
    while size > 0 && t1.elapsed().as_secs() < 60 {
        let mut at = 0;
        while at < hist.len() && t1.elapsed().as_secs() < 60 {
            let e = (at + size).min(hist.len());
            let mut h = hist.clone();
            h.drain(at..e);
            if fresh(exe, prop, seed, &tape, &h, dir).map_or(false, |x| x.class == v.class) {
                hist = h
            } else {
                at = e
            }
        }
        size = if size == 1 { 0 } else { (size + 1) / 2 };
    }
    let h = hist.clone();
    let (tape, v) = minimise(tape, v, |t| fresh(exe, prop, seed, t, &h, dir).map(|v| (v, t.len())));
    Some((tape, hist, v))
}

/// the replay file; the trace in it comes from a fresh process
#[allow(clippy::too_many_arguments)]
fn write_replay(path: &str, profile: &str, exe: &str, prop: &str, seed: u64, idx: u64, tape: &[u64], hist: &[u64], v: &Viol) {
    let put = |trace: &[String], faults: &[String]| {
        let mut o = String::from("{\n");
        o.push_str(&format!("\"build\": {},\n", js(profile)));
        o.push_str(&format!("\"property\": {},\n\"class\": {},\n\"message\": {},\n", js(prop), js(&v.class), js(&v.msg)));
        o.push_str(&format!("\"seed\": {},\n\"run\": {},\n\"draws\": {},\n", seed, idx, tape.len()));
        if !hist.is_empty() {
            o.push_str(&format!("\"history\": [{}],\n", nums(hist)));
        }
        o.push_str(&format!("\"tape\": [{}],\n\"faults\": {{{}}},\n", nums(tape), faults.join(", ")));
        let n = trace.len();
        let keep: Vec<String> = if n > 400 {
            let mut k = trace[..100].to_vec();
            k.push(format!("... {} lines ...", n - 400));
            k.extend_from_slice(&trace[n - 300..]);
            k
        } else {
            trace.to_vec()
        };
        o.push_str(&format!("\"trace\": [\n{}\n]\n}}\n", keep.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n")));
        let _ = std::fs::write(path, o);
    };
    put(&[], &[]);
    if v.class == "hang" || v.class == "stuck" {
        return;
    }
    if let Ok(o) = std::process::Command::new(exe).args(["exec", "--prop", prop, "--tape", path, "--v", "1"]).output() {
        let text = String::from_utf8_lossy(&o.stderr).to_string();
        let mut trace = Vec::new();
        let mut faults = Vec::new();
        for l in text.lines() {
            match l.strip_prefix("fault-count ").and_then(|x| x.rsplit_once(' ')) {
                Some((k, n)) => faults.push(format!("{}: {}", js(k), n)),
                None => trace.push(l.to_string()),
            }
        }
        put(&trace, &faults);
    }
}

/// shrink a tape while the same violation class persists
fn minimise(mut tape: Vec<u64>, mut v: Viol, mut run: impl FnMut(&[u64]) -> Option<(Viol, usize)>) -> (Vec<u64>, Viol) {
    let t0 = Instant::now();
    let mut left = 4000u32;
    let class = v.class.clone();
    let mut try_one = |t: &[u64], left: &mut u32| -> Option<(Viol, usize)> {
        if *left == 0 || t0.elapsed().as_secs() > 40 {
            return None;
        }
        *left -= 1;
        run(t).filter(|(x, _)| x.class == class)
    };
    if let Some((x, used)) = try_one(&tape, &mut left) {
        v = x;
        tape.truncate(used);
    } else {
        return (tape, v);
    }
    loop {
        let before = tape.clone();
        // cut the tail
        let mut cut = tape.len() / 2;
        while cut > 0 {
            if cut <= tape.len() {
                let t = tape[..tape.len() - cut].to_vec();
                if let Some((x, u)) = try_one(&t, &mut left) {
                    tape = t;
                    tape.truncate(u);
                    v = x;
                    continue;
                }
            }
            cut /= 2;
        }
        // delete chunks
        let mut size = (tape.len() / 2).max(1).min(4096);
        loop {
            let mut at = 0;
            while at < tape.len() {
                let e = (at + size).min(tape.len());
                let mut t = tape.clone();
                t.drain(at..e);
                match try_one(&t, &mut left) {
                    Some((x, u)) => {
                        tape = t;
                        tape.truncate(u);
                        v = x
                    }
                    None => at += size,
                }
                if left == 0 {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = 64;
        loop {
            let mut at = 0;
            while at < tape.len() {
                let e = (at + size).min(tape.len());
                if tape[at..e].iter().any(|x| *x != 0) {
                    let mut t = tape.clone();
                    for x in &mut t[at..e] {
                        *x = 0
                    }
                    if let Some((x, u)) = try_one(&t, &mut left) {
                        tape = t;
                        tape.truncate(u);
                        v = x
                    }
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 4;
        }
        for i in 0..tape.len() {
            while i < tape.len() && tape[i] > 0 {
                let mut t = tape.clone();
                t[i] /= 2;
                match try_one(&t, &mut left) {
                    Some((x, u)) => {
                        tape = t;
                        tape.truncate(u);
                        v = x
                    }
                    None => break,
                }
            }
        }
        if tape == before || left == 0 || t0.elapsed().as_secs() > 40 {
            break;
        }
    }
    (tape, v)
}

/// run one tape in a child process: Ok(Some(class,msg)) violation, Ok(None) clean
fn sub_exec(exe: &str, prop: &str, args: &[&str]) -> (Option<Viol>, bool) {
    let out = std::process::Command::new(exe).arg("exec").arg("--prop").arg(prop).args(args).output();
    match out {
        Err(_) => (None, true),
        Ok(o) => death(&o.status, &o.stdout),
    }
}

fn death(st: &std::process::ExitStatus, stdout: &[u8]) -> (Option<Viol>, bool) {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        if sig == 9 {
            return (None, true); // killed from outside: no verdict
        }
        return (Some(Viol { class: format!("abort-signal-{}", sig), msg: format!("the process died with signal {} (abort or stack overflow)", sig) }), false);
    }
    match st.code() {
        Some(0) => (None, false),
        Some(1) => {
            let s = String::from_utf8_lossy(stdout);
            let mut it = s.splitn(2, '\n');
            let class = it.next().unwrap_or("").to_string();
            let msg = it.next().unwrap_or("").to_string();
            (Some(Viol { class, msg }), false)
        }
        Some(alloc::EXIT_OOM) => (Some(Viol { class: "memory-exhausted".into(), msg: "one allocation request exceeded 1 GiB".into() }), false),
        Some(EXIT_HANG) => (Some(Viol { class: "hang".into(), msg: format!("one run used more than {} s of processor time", HANG_CPU_S) }), false),
        Some(EXIT_STUCK) => (Some(Viol { class: "stuck".into(), msg: "every thread of the run waits for ever: a lock that is never released".into() }), false),
        _ => (None, true),
    }
}

fn exec_cmd(a: &Args) -> i32 {
    let prop = a.s("prop");
    let f = match scen::find(&prop) {
        Some(p) => p.f,
        None => return 2,
    };
    watchdog();
    // earlier runs of the same process, when the failure needs them
    let earlier = |s: &str| {
        let seed = jget(s, "seed").and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(1);
        for idx in jnums(s, "history").unwrap_or_default() {
            RUN_NO.store(idx, Relaxed);
            execute(f, Src::seeded(run_seed(seed, &prop, idx)), false);
        }
        RUN_NO.store(u64::MAX, Relaxed);
    };
    let src = if a.m.contains_key("tape") {
        let s = std::fs::read_to_string(a.s("tape")).unwrap_or_default();
        match jtape(&s) {
            Some(t) => {
                scen::c11::CONFIRM.store(true, std::sync::atomic::Ordering::Relaxed);
                earlier(&s);
                Src::replay(t)
            }
            None => return 2,
        }
    } else {
        if a.m.contains_key("hist") {
            earlier(&std::fs::read_to_string(a.s("hist")).unwrap_or_default());
        }
        let mut s = Src::seeded(run_seed(a.n("seed", 1), &prop, a.n("run", 0)));
        if a.m.contains_key("spill") {
            s.spill = std::fs::File::create(a.s("spill")).ok();
        }
        s
    };
    let verbose = a.m.contains_key("v");
    let o = execute(f, src, verbose);
    if let Some(h) = o.harness {
        eprintln!("{}", h);
        return 2;
    }
    if verbose {
        for l in o.ctx.log.unwrap_or_default() {
            eprintln!("{}", l);
        }
        if a.m.contains_key("tape") {
            for (k, n) in &o.ctx.faults {
                eprintln!("fault-count {} {}", k, n);
            }
        }
    }
    match o.viol {
        None => 0,
        Some(v) => {
            println!("{}\n{}", v.class, v.msg);
            1
        }
    }
}

fn hashes(a: &Args) -> i32 {
    let prop = a.s("prop");
    let f = match scen::find(&prop) {
        Some(p) => p.f,
        None => return 2,
    };
    for i in a.s("runs").split(',') {
        let idx: u64 = match i.parse() {
            Ok(v) => v,
            Err(_) => continue,
        };
        RUN_NO.store(idx, Relaxed);
        let o = execute(f, Src::seeded(run_seed(a.n("seed", 1), &prop, idx)), false);
        println!("{} {:x} {:x} {} {} {}", idx, o.ctx.full, o.ctx.sched, o.ctx.steps, o.ctx.ops, o.ctx.s.used());
    }
    0
}

// ------------------------------------------------------------- supervisor ---

fn check(a: &Args) -> i32 {
    let prop = a.s("prop");
    let p = match scen::find(&prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let tier = a.s("tier");
    let quick = tier != "thorough";
    let seed = a.n("seed", 1);
    let root = a.s("root");
    let jobs = a.n("jobs", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).clamp(1, 32);
    let total = a.n("runs", if quick { p.quick } else { p.quick * 30 });
    let ms = a.n("ms", if quick { 150_000 } else { 700_000 });
    let exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    // every fourth worker of a thorough check simulates the shipped-arithmetic build
    let ship = if quick { None } else { twin(&exe, "ship") };
    let exe_of = |w: u64| if w % 4 == 3 { ship.clone().unwrap_or(exe.clone()) } else { exe.clone() };
    let t0 = Instant::now();
    println!("cbsim check property={} tier={} seed={} runs={} workers={}", prop, tier, seed, total, jobs);
    let dir = format!("{}/evidence/work.{}.{}", root, prop, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let mut kids = Vec::new();
    for w in 0..jobs {
        let count = total / jobs + if w < total % jobs { 1 } else { 0 };
        let c = std::process::Command::new(exe_of(w))
            .args(["worker", "--prop", &prop, "--seed", &seed.to_string(), "--first", &w.to_string()])
            .args(["--stride", &jobs.to_string(), "--count", &count.to_string(), "--ms", &ms.to_string()])
            .args(["--dir", &dir, "--wid", &w.to_string(), "--root", &root])
            .spawn();
        match c {
            Ok(c) => kids.push((w, c)),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }
    let mut st = Stats::default();
    let mut found: Option<String> = None; // replay file
    let mut harness = false;
    let mut stop_at: Option<Instant> = None;
    while !kids.is_empty() {
        let mut still = Vec::new();
        for (w, mut k) in kids {
            match k.try_wait() {
                Ok(None) => {
                    if stop_at.map(|t| Instant::now() > t).unwrap_or(false) {
                        let _ = k.kill();
                        let _ = k.wait();
                        continue;
                    }
                    still.push((w, k))
                }
                Ok(Some(s)) => match s.code() {
                    Some(0) => {
                        if st.read(&format!("{}/stats.{}", dir, w)).is_none() {
                            harness = true
                        }
                    }
                    Some(1) => {
                        st.read(&format!("{}/stats.{}", dir, w));
                        found = Some(format!("{}/found.json", dir));
                        stop_at = Some(Instant::now());
                    }
                    Some(2) => harness = true,
                    _ => {
                        // the process died inside a run
                        let (v, _) = death(&s, b"");
                        if let (Some(v), None) = (v, &found) {
                            stop_at = Some(Instant::now());
                            let idx = std::fs::read(format!("{}/cur.{}", dir, w))
                                .ok()
                                .and_then(|b| b.try_into().ok())
                                .map(u64::from_le_bytes)
                                .unwrap_or(0);
                            if v.class == "hang" && std::path::Path::new(&format!("{}/claimed", dir)).exists() {
                                // died while minimising
                            }
                            let before: Vec<u64> = (0..).map(|j| w + j * jobs).take_while(|i| *i < idx).collect();
                            match diagnose(&exe_of(w), &prop, seed, idx, &before, v, &dir) {
                                Some(path) => found = Some(path),
                                None => harness = true,
                            }
                        } else {
                            harness = true
                        }
                    }
                },
                Err(_) => harness = true,
            }
        }
        kids = still;
        if found.is_some() && stop_at.is_none() {
            stop_at = Some(Instant::now());
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    // determinism: re-execute a sample of runs in two fresh processes and compare
    let mut det = 0u64;
    let mut det_bad = 0u64;
    if found.is_none() && !harness {
        let list: Vec<String> = (0..24u64).map(|i| (mix(seed ^ i) % total.max(1)).to_string()).collect();
        let run = || {
            std::process::Command::new(&exe)
                .args(["hashes", "--prop", &prop, "--seed", &seed.to_string(), "--runs", &list.join(",")])
                .output()
                .map(|o| o.stdout)
                .unwrap_or_default()
        };
        let (a, b) = (run(), run());
        det = list.len() as u64;
        if a != b || a.is_empty() {
            det_bad = 1;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut seen: HashSet<String> = HashSet::new();
    for k in known(&root).into_iter().filter(|k| k.0 == prop) {
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with("known.") {
                    if let Ok(s) = std::fs::read_to_string(e.path()) {
                        if s == k.1 && seen.insert(s) {
                            println!("KNOWN-FINDING: property={} {}", prop, k.2);
                        }
                    }
                }
            }
        }
    }
    let mut violations = 0;
    if let Some(f) = &found {
        match std::fs::read_to_string(f) {
            Ok(s) => {
                let class = jstr(&s, "class").unwrap_or_default();
                // confirm in a fresh process before reporting
                let (v, err) = sub_exec(&for_profile(&exe, &s), &prop, &["--tape", f]);
                // too much work is the same thing whether the bound or the watchdog notices
                let slow = |c: &str| c == "work" || c == "hang";
                let same = v.as_ref().map(|v| v.class == class || (slow(&v.class) && slow(&class))).unwrap_or(false);
                let safe: String = class.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
                let path = format!("{}/evidence/replays/{}-{}.json", root, prop, safe);
                let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
                let _ = std::fs::write(&path, &s);
                if same {
                    println!("class: {}", class);
                    println!("what: {}", jstr(&s, "message").unwrap_or_default());
                    println!("replay with: ./check.sh --replay {}", path);
                    println!("VIOLATION property={} replay={}", prop, path);
                    violations = 1;
                    code = 1;
                } else {
                    eprintln!("a violation ({}) did not replay in a fresh process: {:?} {}", class, v, err);
                    code = 2;
                }
            }
            Err(_) => code = 2,
        }
    } else if harness || det_bad > 0 || st.runs == 0 {
        eprintln!("harness error (harness={} nondeterminism={} runs={})", harness, det_bad, st.runs);
        code = 2;
    }
    // samples: the beginning of two runs, written out
    let mut samples = Vec::new();
    for idx in [0u64, 1] {
        let path = format!("{}/sample", dir);
        let o = std::process::Command::new(&exe)
            .args(["exec", "--prop", &prop, "--seed", &seed.to_string(), "--run", &idx.to_string(), "--v", "1"])
            .output();
        let _ = path;
        if let Ok(o) = o {
            let s = String::from_utf8_lossy(&o.stderr).to_string();
            let lines: Vec<&str> = s.lines().take(14).collect();
            samples.push(format!("run {}: {}", idx, lines.join(" | ")));
        }
    }
    let per_h = st.runs as f64 / wall.max(0.001) * 3600.0;
    let fm = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\
         \"fault_free_runs\": {},\n\"runs_per_hour_one_seed_each\": {},\n\
         \"simulated_time_s\": {:.3},\n\"scheduler_steps\": {},\n\"library_operations_checked\": {},\n\
         \"faults_injected\": {{{}}},\n\"runs_with_fault\": {{{}}},\n\"probes\": {{{}}},\n\
         \"distinct_schedules\": {},\n\"distinct_event_pairs\": {},\n\"distinctness_measure\": {},\n\
         \"determinism_sample_runs\": {},\n\"determinism_mismatches\": {},\n\"workers_stopped_by_wall_cap\": {},\n\
         \"real_components\": {},\n\"stub_components\": {},\n\"build_profile\": {},\n\"samples\": [{}]\n}},\n\
         \"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        js(&prop),
        js(if quick { "quick" } else { "thorough" }),
        seed,
        st.runs,
        st.nontrivial.len(),
        js(p.rule),
        st.quiet_runs,
        per_h as u64,
        st.sim_us as f64 / 1e6,
        st.steps,
        st.ops,
        fm(&st.faults),
        fm(&st.fault_runs),
        fm(&st.probes),
        st.sched.len(),
        st.pairs.len(),
        js("distinct_schedules: distinct hashes of the full (event kind, actor) order of a run; distinct_event_pairs: distinct adjacent event pairs"),
        det,
        det_bad,
        st.timed_out,
        js("the whole cbored library (reader, writer, validator, state machine, decode/encode, tagged types, derive-generated code), built from /repo's working tree"),
        js("clocks, randomness, scheduler, byte pipes, disk and its crash semantics, peers and application actors; reference CBOR model as oracle"),
        js(match (&ship, quick) {
            (Some(_), _) => "three quarters of the runs optimised with overflow checks and debug assertions, one quarter with shipped release arithmetic",
            _ => "optimised with overflow checks and debug assertions",
        }),
        samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        js("sampled schedules and faults: a clean batch is evidence, not proof"),
        wall,
        violations,
    );
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "property={} runs={} ops={} schedules={} faults={} sim_s={:.1} wall_s={:.1} exit={}",
        prop,
        st.runs,
        st.ops,
        st.sched.len(),
        st.faults.values().sum::<u64>(),
        st.sim_us as f64 / 1e6,
        wall,
        code
    );
    code
}

/// a run killed its process: recover its tape and minimise it in child processes
fn diagnose(exe: &str, prop: &str, seed: u64, idx: u64, before: &[u64], v: Viol, dir: &str) -> Option<String> {
    let spill = format!("{}/spill", dir);
    let hfile = format!("{}/hist.json", dir);
    let again = |h: &[u64]| {
        let _ = std::fs::write(&hfile, format!("{{\"seed\": {}, \"history\": [{}]}}", seed, nums(h)));
        sub_exec(exe, prop, &["--seed", &seed.to_string(), "--run", &idx.to_string(), "--spill", &spill, "--hist", &hfile]).0
    };
    let mut hist = Vec::new();
    let mut got = again(&hist);
    let t0 = Instant::now();
    let mut n = 1;
    while got.is_none() && n / 4 < before.len() && t0.elapsed().as_secs() < 150 {
        hist = before[before.len() - n.min(before.len())..].to_vec();
        got = again(&hist);
        n *= 4;
    }
    let v = got.unwrap_or(v);
    let raw = std::fs::read(&spill).ok()?;
    let tape: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let path = format!("{}/found.json", dir);
    let slow = v.class == "hang" || v.class == "stuck";
    let mut budget = 250;
    let (tape, v) = if slow {
        (tape, v)
    } else {
        minimise(tape, v, |t| {
            if budget == 0 {
                return None;
            }
            budget -= 1;
            fresh(exe, prop, seed, t, &hist, dir).map(|v| (v, t.len()))
        })
    };
    let profile = if exe.contains("/ship/") { "ship" } else { "release" };
    write_replay(&path, profile, exe, prop, seed, idx, &tape, &hist, &v);
    Some(path)
}

/// one connection of a C20 run, the draws of which come in on the standard input
fn alone(a: &Args) -> i32 {
    use std::io::Read;
    let mut raw = Vec::new();
    if std::io::stdin().read_to_end(&mut raw).is_err() || raw.is_empty() {
        return 2;
    }
    watchdog();
    let tape = raw[1..].chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    scen::c20::ONLY.store(a.n("script", 0) as i64, Relaxed);
    let o = execute(scen::find("C20").expect("property").f, Src::replay(tape), false);
    if o.harness.is_some() {
        return 2;
    }
    0
}

fn replay(a: &Args) -> i32 {
    let path = match a.pos.first() {
        Some(p) => p.clone(),
        None => return 2,
    };
    let s = match std::fs::read_to_string(&path) {
        Ok(s) => s,
        Err(_) => return 2,
    };
    let (prop, class) = match (jstr(&s, "property"), jstr(&s, "class")) {
        (Some(p), Some(c)) => (p, c),
        _ => return 2,
    };
    let exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    if let Some(t) = jget(&s, "trace") {
        println!("recorded trace:\n{}", t.trim_end().trim_end_matches('}'));
    }
    match sub_exec(&for_profile(&exe, &s), &prop, &["--tape", &path]) {
        (Some(v), _) => {
            println!("class: {}\nwhat: {}", v.class, v.msg.trim_end());
            if v.class != class {
                println!("note: the file records class {}", class);
            }
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        (None, false) => {
            println!("the recorded schedule runs clean: property={} class={} does not reproduce on this tree", prop, class);
            0
        }
        (None, true) => 2,
    }
}

/// addresses must not depend on chance: what the code under test does may depend
/// on them
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    const ADDR_NO_RANDOMIZE: i32 = 0x0040000;
    let now = unsafe { personality(0xffff_ffff) };
    if now < 0 || now & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("CBSIM_FIXED").is_some() {
        return;
    }
    if unsafe { personality((now | ADDR_NO_RANDOMIZE) as u64) } < 0 {
        return;
    }
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("CBSIM_FIXED", "1").exec();
    }
}

fn main() {
    fixed_addresses();
    install_hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let a = Args::parse();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match cmd.as_str() {
            "check" => check(&a),
            "worker" => worker(&a),
            "exec" => exec_cmd(&a),
            "hashes" => hashes(&a),
            "replay" => replay(&a),
            "alone" => alone(&a),
            "list" => {
                for p in scen::ALL {
                    println!("{}", p.id);
                }
                0
            }
            _ => {
                eprintln!("usage: cbsim check|replay|worker|exec|hashes|list");
                2
            }
        })
        .unwrap();
    let code = h.join().unwrap_or(2);
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
