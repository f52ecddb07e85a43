//! `check <property> <tier> <evidence file> <out dir>`: explores, replays, reports.
//! `work ...`: the exploration itself, in a child process.
//! `replay <file>`: re-executes a counterexample natively; exit 1 when it violates.
use crate::engine::{self, Sig, Stats, SLOT_WORDS};
use crate::world::{self, Cex, NatEnd};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const FUEL: u64 = 40_000_000;
const THREADS: usize = 8;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

/// Slots shared between the exploring child and the watching parent.
fn slots(path: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let n = (THREADS * SLOT_WORDS * 8) as u64;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slot file");
    f.set_len(n).expect("slot file");
    let p = unsafe { mmap(std::ptr::null_mut(), n as usize, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p.cast()
}

/// One exploration: a property over one bounded family of inputs.
pub trait Case: Clone + Send + Sync + 'static {
    /// Executes it in the symbolic world.
    fn sym(&self);
    /// Executes it in the native world.
    fn native(&self);
    /// `key value` lines from which `load` makes the same case.
    fn dump(&self) -> String;
    fn load(fields: &BTreeMap<String, String>) -> Self;
    fn title(&self) -> String;
    /// A readable account of a counterexample.
    fn explain(&self, cex: &Cex) -> String;
}

pub struct Plan<C> {
    pub prop: String,
    pub jobs: Vec<C>,
    /// The bounds, in words.
    pub families: Vec<String>,
    pub functions: Vec<String>,
    pub assumptions: Vec<String>,
}

fn write_replay<C: Case>(job: &C, cex: &Cex) -> String {
    let mut s = job.dump();
    let join = |v: &[i64]| v.iter().map(i64::to_string).collect::<Vec<_>>().join(" ");
    if let Some(l) = cex.label {
        let _ = writeln!(s, "label {l}");
    }
    let _ = writeln!(s, "vals {}", join(&cex.vals));
    let _ = writeln!(
        s,
        "flips {}",
        join(&cex.flips.iter().map(|b| i64::from(*b)).collect::<Vec<_>>())
    );
    let _ = writeln!(s, "msg {}", cex.msg.replace('\n', " "));
    s
}

fn read_replay<C: Case>(text: &str) -> (C, Cex) {
    let mut f: BTreeMap<String, String> = BTreeMap::new();
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        f.insert(k.to_string(), v.to_string());
    }
    let nums = |k: &str| -> Vec<i64> {
        f.get(k).map_or(vec![], |v| v.split_whitespace().map(|x| x.parse().unwrap()).collect())
    };
    (
        C::load(&f),
        Cex {
            msg: f.get("msg").cloned().unwrap_or_default(),
            vals: nums("vals"),
            flips: nums("flips").iter().map(|x| *x != 0).collect(),
            label: f.get("label").map(|l| l.parse().unwrap()),
        },
    )
}

fn replay<C: Case>(path: &str) -> i32 {
    limit_memory(6 << 30);
    let (job, cex) = read_replay::<C>(&std::fs::read_to_string(path).expect("replay file"));
    println!("{}", job.explain(&cex));
    match world::native(cex.vals, cex.flips, cex.label, || job.native()) {
        NatEnd::Held => {
            println!("native run: the property holds");
            0
        }
        NatEnd::Discarded => {
            println!("native run: outside the assumptions");
            0
        }
        NatEnd::Violated(m) => {
            println!("native run: VIOLATED: {m}");
            1
        }
    }
}

#[derive(Default)]
struct Totals {
    stats: Stats,
    reached: BTreeMap<String, u64>,
    valid: u64,
    samples: Vec<String>,
    jobs: usize,
    skipped: usize,
    cex: Option<(usize, Cex)>,
    error: Option<String>,
}

fn work<C: Case>(p: &Plan<C>, slot_file: &Path, soft: Duration, hard: Duration, seed: u64) -> Totals {
    let t0 = Instant::now();
    let base = slots(slot_file) as usize;
    let next = AtomicUsize::new(0);
    let all = Mutex::new(Totals::default());
    std::thread::scope(|s| {
        for w in 0..THREADS {
            let (next, all) = (&next, &all);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    engine::set_slot((base as *mut u64).wrapping_add(w * SLOT_WORDS));
                    engine::stop_at(Some(t0 + hard));
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= p.jobs.len() {
                            break;
                        }
                        {
                            let mut a = all.lock().unwrap();
                            if a.cex.is_some() || a.error.is_some() {
                                break;
                            }
                            if t0.elapsed() > soft {
                                a.skipped += 1;
                                continue;
                            }
                        }
                        let job = p.jobs[i].clone();
                        engine::slot_head(Some(i), None);
                        let nat = job.clone();
                        let tj = Instant::now();
                        let (r, st) = engine::session(FUEL, seed, || {
                            world::run(|| job.sym(), Rc::new(move || nat.native()))
                        });
                        if std::env::var("SYMX_TIMES").is_ok() {
                            eprintln!("{:7.2}s {:8} paths {}", tj.elapsed().as_secs_f64(), st.paths, job.title());
                        }
                        let (reached, valid, samples) = world::take_tallies();
                        let mut a = all.lock().unwrap();
                        a.stats.add(&st);
                        for (k, v) in reached {
                            *a.reached.entry(k.to_string()).or_default() += v;
                        }
                        a.valid += valid;
                        for s in samples {
                            if a.samples.len() < 12 {
                                a.samples.push(format!("{}: {s}", job.title()));
                            }
                        }
                        match r {
                            Ok(()) => a.jobs += 1,
                            Err(Sig::Deadline) => a.skipped += 1,
                            Err(Sig::Violated) => {
                                a.cex.get_or_insert((i, world::take_cex().unwrap()));
                            }
                            Err(s) => {
                                a.error.get_or_insert(format!("{}: {s:?}", job.title()));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    all.into_inner().unwrap()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs a counterexample natively in a process of its own. True when it violates there.
fn confirm(file: &Path) -> (bool, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .arg("replay")
        .arg(file)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("replay process");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let mut out = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            return match st.code() {
                Some(0) => (false, out),
                Some(1) => (true, out),
                c => (true, format!("{out}the native run crashed ({c:?})")),
            };
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            return (true, "the native run does not end (20 s)".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn evidence<C>(p: &Plan<C>, tier: &str, seed: u64, t: &Totals, wall: f64, violations: usize) -> String {
    let st = &t.stats;
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let reached: Vec<_> = t.reached.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let mut samples = t.samples.clone();
    if samples.is_empty() {
        samples.push(format!("{} paths, none sampled", st.paths));
    }
    format!(
        concat!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{",
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},",
            "\"samples\":[{}],\"obligations\":{},\"discharged\":{},",
            "\"solver_queries\":{},\"solver_seconds\":{:.3},\"paths_outside_assumptions\":{},",
            "\"most_comparisons_on_a_path\":{},\"comparison_fuel\":{},",
            "\"jobs_completed\":{},\"jobs_not_explored\":{},\"exhaustive\":{},",
            "\"reached\":{{{}}},\"bounds\":[{}],\"functions_encoded\":[{}],",
            "\"rule\":\"a state is a completed symbolic path of the compiled code, a transition a branch outcome z3 decided feasible\"}},",
            "\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n"
        ),
        esc(&p.prop),
        esc(tier),
        seed,
        st.paths,
        st.branches,
        t.valid,
        list(&samples),
        st.obligations,
        st.obligations - violations as u64,
        st.queries,
        st.solver_ns as f64 / 1e9,
        st.discarded,
        st.max_ticks,
        FUEL,
        t.jobs,
        t.skipped,
        t.skipped == 0 && violations == 0,
        reached.join(","),
        list(&p.families),
        list(&p.functions),
        list(&p.assumptions),
        wall,
        violations
    )
}

pub fn main<C: Case>(plan: fn(&str, bool) -> Plan<C>) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("replay") => replay::<C>(&a[2]),
        Some("work") => child(&args(&a, plan)),
        Some("check") => check(&args(&a, plan), &a),
        _ => {
            eprintln!("usage: check|work|replay ...");
            2
        }
    };
    std::process::exit(code);
}

struct Args<C> {
    plan: Plan<C>,
    tier: String,
    evidence: PathBuf,
    out: PathBuf,
    seed: u64,
}

fn args<C>(a: &[String], plan: fn(&str, bool) -> Plan<C>) -> Args<C> {
    let tier = a[3].clone();
    Args {
        plan: plan(&a[2], tier == "thorough"),
        tier,
        evidence: PathBuf::from(&a[4]),
        out: PathBuf::from(&a[5]),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    }
}

fn replay_path<C>(a: &Args<C>) -> PathBuf {
    a.out.join(format!("{}.replay", a.plan.prop))
}

/// Explores; leaves evidence, and a replay file when there is a counterexample.
/// Exit: 0 held, 10 counterexample written, 2 no answer.
fn child<C: Case>(a: &Args<C>) -> i32 {
    limit_memory(28 << 30);
    let t0 = Instant::now();
    let (soft, hard) = if a.tier == "thorough" { (5400, 6600) } else { (420, 600) };
    let t = work(
        &a.plan,
        &a.out.join(format!("{}.slots", a.plan.prop)),
        Duration::from_secs(soft),
        Duration::from_secs(hard),
        a.seed,
    );
    let v = usize::from(t.cex.is_some());
    let wall = t0.elapsed().as_secs_f64();
    std::fs::write(&a.evidence, evidence(&a.plan, &a.tier, a.seed, &t, wall, v)).expect("evidence");
    println!(
        "{}: {} jobs, {} not explored, {} paths, {} outside, {} branches, {} queries ({:.1} s solver), {} obligations, {} replayed natively, {:.1} s",
        a.plan.prop, t.jobs, t.skipped, t.stats.paths, t.stats.discarded, t.stats.branches,
        t.stats.queries, t.stats.solver_ns as f64 / 1e9, t.stats.obligations, t.valid, wall
    );
    println!("  reached: {:?}", t.reached);
    if let Some((i, cex)) = &t.cex {
        std::fs::write(replay_path(a), write_replay(&a.plan.jobs[*i], cex)).expect("replay file");
        return 10;
    }
    if let Some(e) = t.error {
        println!("no answer: {e}");
        return 2;
    }
    if t.jobs == 0 || t.reached.values().sum::<u64>() == 0 {
        println!("no answer: nothing was reached");
        return 2;
    }
    0
}

fn check<C: Case>(a: &Args<C>, argv: &[String]) -> i32 {
    std::fs::create_dir_all(&a.out).expect("out dir");
    let slot_file = a.out.join(format!("{}.slots", a.plan.prop));
    let _ = std::fs::remove_file(&slot_file);
    let _ = std::fs::remove_file(&a.evidence);
    let file = replay_path(a);
    let _ = std::fs::remove_file(&file);
    let base = slots(&slot_file);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("work")
        .args(&argv[2..])
        .spawn()
        .expect("exploration process");
    let read = |w: usize, i: usize| unsafe { base.add(w * SLOT_WORDS + i).read_volatile() };
    let mut last = [(0u64, Instant::now()); THREADS];
    let mut stuck = None;
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s.code();
        }
        for (w, l) in last.iter_mut().enumerate() {
            let p = read(w, 0);
            if p != l.0 {
                *l = (p, Instant::now());
            } else if p > 0 && l.1.elapsed() > Duration::from_secs(45) {
                stuck = Some(w);
            }
        }
        // a thread that makes no progress is only suspicious when it has a job at hand
        if let Some(w) = stuck {
            let all_idle = (0..THREADS).all(|w| last[w].1.elapsed() > Duration::from_secs(45));
            if all_idle {
                let _ = c.kill();
                let _ = c.wait();
                println!("worker {w} makes no progress");
                break None;
            }
            stuck = None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let report = |text: &str| {
        println!("{text}");
        println!("VIOLATION property={} replay={}", a.plan.prop, file.display());
        1
    };
    match status {
        Some(0) => 0,
        Some(10) => {
            let (job, cex) = read_replay::<C>(&std::fs::read_to_string(&file).unwrap());
            let (bad, text) = confirm(&file);
            if bad {
                report(&format!("{}\n{text}", job.explain(&cex)))
            } else {
                println!("the counterexample does not reproduce natively: {}\n{text}", job.explain(&cex));
                2
            }
        }
        Some(2) => 2,
        s => {
            // crashed or stuck: the last known place of each worker is a candidate
            println!("the exploration ended abnormally ({s:?})");
            for w in 0..THREADS {
                let j = read(w, 1);
                if j == 0 || j as usize > a.plan.jobs.len() {
                    continue;
                }
                let n = read(w, 3) as usize;
                let vals = (0..n).map(|i| read(w, 4 + i) as i64).collect();
                let m = read(w, 4 + n) as usize;
                let flips = (0..m).map(|i| read(w, 5 + n + i) != 0).collect();
                let label = read(w, 2).checked_sub(1).map(|l| l as usize);
                let cex = Cex { msg: "crash or endless loop".into(), vals, flips, label };
                let job = &a.plan.jobs[j as usize - 1];
                std::fs::write(&file, write_replay(job, &cex)).unwrap();
                let (bad, text) = confirm(&file);
                if bad {
                    let t = Totals { jobs: 1, ..Totals::default() };
                    let e = evidence(&a.plan, &a.tier, a.seed, &t, 0.0, 0);
                    let _ = std::fs::write(&a.evidence, e);
                    return report(&format!("{}\n{text}", job.explain(&cex)));
                }
            }
            2
        }
    }
}
