//! Runs one property: many generated cases over several worker processes, shrinking of the
//! first failure, evidence, replay files, and the lines the check prints.

use crate::src::Src;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Pass,
    /// Fails in the way of a listed known finding
    Known(&'static str),
    Fail(String),
}

#[derive(Default)]
pub struct Obs {
    desc: String,
    nontrivial: bool,
    labels: Vec<&'static str>,
}

thread_local! {
    static DESCRIBE: Cell<bool> = Cell::new(false);
}

impl Obs {
    /// Must be called with the whole case before the library is used
    pub fn case(&mut self, desc: String) {
        if DESCRIBE.with(|d| d.get()) {
            emit(&format!("{}\n", desc));
            std::process::exit(0);
        }
        if self.desc.is_empty() {
            self.desc = desc;
        } else {
            self.desc.push_str(" || ");
            self.desc.push_str(&desc);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, yes: bool, l: &'static str) {
        if yes {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
}

pub type CheckFn = fn(&mut Src, &mut Obs) -> Verdict;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// longest choice sequence
    pub len: usize,
    pub f: CheckFn,
    /// Cases that are always run first
    pub fixed: fn() -> Vec<Vec<u32>>,
}

pub const fn prop(id: &'static str, rule: &'static str, quick: usize, thorough: usize, len: usize, f: CheckFn) -> Prop {
    Prop { id, rule, quick, thorough, len, f, fixed: none }
}
fn none() -> Vec<Vec<u32>> {
    vec![]
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
    fn setrlimit(resource: i32, r: *const [u64; 2]) -> i32;
}

static mut OUT: i32 = 1;

/// The library prints; keep that away from the output of the check
pub fn silence() {
    unsafe {
        let saved = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        dup2(null.as_raw_fd(), 1);
        OUT = saved;
    }
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn emit(s: &str) {
    let mut f = unsafe { std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(OUT)) };
    let _ = f.write_all(s.as_bytes());
}

/// Run something and read what it wrote to the standard error output
pub fn stderr_of<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Seek, SeekFrom};
    thread_local!(static TO: std::fs::File = unsafe { std::fs::File::from_raw_fd(memfd_create(c"stderr".as_ptr(), 0)) });
    TO.with(|to| {
        use std::os::fd::AsRawFd;
        let mut to = to;
        let _ = to.set_len(0);
        let _ = to.seek(SeekFrom::Start(0));
        let saved = unsafe { dup(2) };
        unsafe { dup2(to.as_raw_fd(), 2) };
        let r = f();
        unsafe {
            dup2(saved, 2);
            close(saved);
        }
        let mut text = vec![];
        let _ = to.seek(SeekFrom::Start(0));
        let _ = to.read_to_end(&mut text);
        (r, String::from_utf8_lossy(&text).into_owned())
    })
}

fn limit(cpu_s: u64, mem: u64) {
    unsafe {
        if cpu_s > 0 {
            setrlimit(0, &[cpu_s, cpu_s + 2]);
        }
        setrlimit(9, &[mem, mem]);
        setrlimit(4, &[0, 0]);
    }
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn seed_bytes(id: &str, seed: u64, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = hash(id) ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (shard + 1).wrapping_mul(0xD1B54A32D192ED03);
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn run_one(p: &Prop, choices: &[u32]) -> (Verdict, Obs) {
    let mut obs = Obs::default();
    let mut src = Src::new(choices);
    let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(&mut src, &mut obs))) {
        Ok(v) => v,
        Err(e) => {
            let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Verdict::Fail(format!("panic: {}", t.unwrap_or_default()))
        }
    };
    obs.label_if(src.ran_out(), "ended with the simplest choices");
    (v, obs)
}

/// Big stacks, because grammars and their inputs recurse
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(70))
}

fn words(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn unwords(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Acc {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    samples: Vec<String>,
    next_sample: u64,
    counting: bool,
}

/// One process that runs a share of the cases. Progress goes to files in `dir`.
pub fn worker(p: &'static Prop, seed: u64, shard: u64, cases: usize, dir: &str) -> i32 {
    limit(0, 3 << 30);
    let dir = PathBuf::from(dir);
    on_big_stack(move || {
        let current = dir.join(format!("current-{}", shard));
        let file = Rc::new(RefCell::new(std::fs::File::create(&current).expect("current file")));
        let acc = Rc::new(RefCell::new(Acc {
            evaluations: 0,
            hashes: HashSet::new(),
            labels: BTreeMap::new(),
            known: BTreeMap::new(),
            samples: vec![],
            next_sample: 1,
            counting: true,
        }));
        let body = {
            let acc = acc.clone();
            let file = file.clone();
            move |choices: &[u32]| -> Result<(), String> {
                {
                    use std::os::unix::fs::FileExt;
                    let mut bytes = Vec::with_capacity(choices.len() * 4 + 4);
                    bytes.extend_from_slice(&(choices.len() as u32).to_le_bytes());
                    for c in choices {
                        bytes.extend_from_slice(&c.to_le_bytes());
                    }
                    let _ = file.borrow().write_at(&bytes, 0);
                }
                let (v, obs) = run_one(p, choices);
                let mut a = acc.borrow_mut();
                if a.counting {
                    a.evaluations += 1;
                    for l in &obs.labels {
                        *a.labels.entry(l).or_insert(0) += 1;
                    }
                    if obs.nontrivial {
                        a.hashes.insert(hash(&obs.desc));
                        if a.evaluations >= a.next_sample && a.samples.len() < 4 && obs.desc.len() < 1500 {
                            a.samples.push(obs.desc.clone());
                            a.next_sample = a.evaluations * 3 + 20;
                        }
                    }
                }
                match v {
                    Verdict::Pass => Ok(()),
                    Verdict::Known(k) => {
                        let e = a.known.entry(k).or_insert((0, obs.desc.clone()));
                        e.0 += 1;
                        if obs.desc.len() < e.1.len() {
                            e.1 = obs.desc;
                        }
                        Ok(())
                    }
                    Verdict::Fail(m) => {
                        a.counting = false;
                        Err(m)
                    }
                }
            }
        };
        let mut failure: Option<(String, Vec<u32>)> = None;
        if shard == 0 {
            for f in (p.fixed)() {
                if let Err(m) = body(&f) {
                    failure = Some((m, f));
                    break;
                }
            }
        }
        if failure.is_none() {
            let config = Config {
                cases: cases as u32,
                failure_persistence: None,
                max_shrink_iters: 60_000,
                max_shrink_time: 25_000,
                max_global_rejects: 0,
                ..Config::default()
            };
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(p.id, seed, shard));
            let mut runner = TestRunner::new_with_rng(config, rng);
            let len = p.len;
            // Short, medium and long choice sequences: the choices left out are the simplest ones
            let strategy = (0usize..4).prop_flat_map(move |k| {
                let hi = [len / 8, len / 3, len, len][k].max(4);
                let lo = [0, 0, 0, len / 2][k].min(hi - 1);
                proptest::collection::vec(proptest::num::u32::ANY, lo..hi)
            });
            match runner.run(&strategy, |v| body(&v).map_err(TestCaseError::fail)) {
                Ok(()) => {}
                Err(TestError::Fail(reason, v)) => {
                    let mut v = v;
                    let mut reason = reason.message().to_string();
                    // proptest can't drop the tail or clear blocks: finish the job
                    polish(&mut v, &mut reason, &body);
                    failure = Some((reason, v));
                }
                Err(TestError::Abort(r)) => {
                    let _ = std::fs::write(dir.join(format!("abort-{}", shard)), r.message());
                    return 3;
                }
            }
        }
        let a = acc.borrow();
        let mut out = String::new();
        out.push_str(&format!("evaluations {}\n", a.evaluations));
        for (l, n) in &a.labels {
            out.push_str(&format!("label {} {}\n", n, l));
        }
        for (k, (n, d)) in &a.known {
            out.push_str(&format!("known {} {} {}\n", n, k, d.replace('\n', " ")));
        }
        for s in &a.samples {
            out.push_str(&format!("sample {}\n", s.replace('\n', " ")));
        }
        let mut bytes = Vec::with_capacity(a.hashes.len() * 8);
        for h in &a.hashes {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(dir.join(format!("hashes-{}", shard)), bytes).expect("hashes");
        if let Some((m, v)) = failure {
            out.push_str(&format!("fail {}\n", words(&v)));
            out.push_str(&format!("reason {}\n", m.replace('\n', "\\n")));
        }
        out.push_str("done\n");
        std::fs::write(dir.join(format!("result-{}", shard)), out).expect("result");
        0
    })
}

fn polish(v: &mut Vec<u32>, reason: &mut String, body: &dyn Fn(&[u32]) -> Result<(), String>) {
    let start = Instant::now();
    let mut again = true;
    while again && start.elapsed() < Duration::from_secs(10) {
        again = false;
        while v.last() == Some(&0) {
            v.pop();
        }
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < v.len() && start.elapsed() < Duration::from_secs(10) {
                let end = (i + size).min(v.len());
                // remove the block, or else set it to the simplest choices
                let mut w = v.clone();
                w.drain(i..end);
                if let Err(m) = body(&w) {
                    *v = w;
                    *reason = m;
                    again = true;
                    continue;
                }
                if v[i..end].iter().any(|x| *x != 0) {
                    let mut w = v.clone();
                    w[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Err(m) = body(&w) {
                        *v = w;
                        *reason = m;
                        again = true;
                    }
                }
                i += size;
            }
        }
    }
}

pub enum Once {
    Pass(String),
    Fail(String, String),
    Died(String),
}

/// Run one case in a process of its own
fn once(p: &Prop, choices: &[u32], dir: &Path) -> Once {
    let f = dir.join("once");
    let _ = std::fs::write(&f, words(choices));
    let exe = std::env::current_exe().unwrap();
    let out = Command::new(&exe).args(["once", p.id]).arg(&f).stderr(Stdio::null()).output();
    match out {
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            match o.status.code() {
                Some(0) => Once::Pass(text),
                Some(1) => {
                    let (a, b) = text.split_once('\n').unwrap_or((&text, ""));
                    Once::Fail(a.to_string(), b.to_string())
                }
                _ => Once::Died(format!("{}", o.status)),
            }
        }
        Err(e) => Once::Pass(format!("could not run: {}", e)),
    }
}

pub fn once_main(p: &'static Prop, file: &str, describe: bool) -> i32 {
    limit(30, 3 << 30);
    let choices = unwords(&std::fs::read_to_string(file).unwrap_or_default());
    on_big_stack(move || {
        DESCRIBE.with(|d| d.set(describe));
        let (v, obs) = run_one(p, &choices);
        match v {
            Verdict::Fail(m) => {
                emit(&format!("{}\n{}\n", m.replace('\n', "\\n"), obs.desc));
                1
            }
            v => {
                emit(&format!("{:?}\n{}\n", v, obs.desc));
                0
            }
        }
    })
}

fn describe(p: &Prop, choices: &[u32], dir: &Path) -> String {
    let f = dir.join("describe");
    let _ = std::fs::write(&f, words(choices));
    let exe = std::env::current_exe().unwrap();
    match Command::new(&exe).args(["describe", p.id]).arg(&f).stderr(Stdio::null()).output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).trim_end().to_string(),
        Err(_) => String::new(),
    }
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let mut s = String::new();
    std::fs::File::open(format!("/proc/{}/stat", pid)).ok()?.read_to_string(&mut s).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn read_current(dir: &Path, shard: u64) -> Option<Vec<u32>> {
    let b = std::fs::read(dir.join(format!("current-{}", shard))).ok()?;
    let n = u32::from_le_bytes(b.get(0..4)?.try_into().ok()?) as usize;
    (0..n).map(|i| Some(u32::from_le_bytes(b.get(4 + i * 4..8 + i * 4)?.try_into().ok()?))).collect()
}

/// Smaller cases that make the process die as well
fn shrink_death(p: &Prop, v: &mut Vec<u32>, dir: &Path) {
    let start = Instant::now();
    let dies = |w: &[u32]| matches!(once(p, w, dir), Once::Died(_));
    let mut size = v.len() / 2;
    while size > 0 && start.elapsed() < Duration::from_secs(60) {
        let mut i = 0;
        while i < v.len() && start.elapsed() < Duration::from_secs(60) {
            let end = (i + size).min(v.len());
            let mut w = v.clone();
            w.drain(i..end);
            if dies(&w) {
                *v = w;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
}

enum Again {
    Passed,
    Failed(Vec<u32>, String),
    Died(Vec<u32>),
}

/// Run all cases of one worker once more
fn again_n(p: &Prop, seed: u64, shard: u64, n: usize, dir: &Path) -> Again {
    let dir = dir.join(format!("again-{}", shard));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap();
    let _ = Command::new(&exe)
        .args(["worker", p.id, &seed.to_string(), &shard.to_string(), &n.to_string()])
        .arg(&dir)
        .stderr(Stdio::null())
        .status();
    let text = std::fs::read_to_string(dir.join(format!("result-{}", shard))).unwrap_or_default();
    if !text.ends_with("done\n") {
        return Again::Died(read_current(&dir, shard).unwrap_or_default());
    }
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k));
    match (get("fail "), get("reason ")) {
        (v, Some(m)) => Again::Failed(unwords(v.unwrap_or("")), m.to_string()),
        _ => Again::Passed,
    }
}
fn again(p: &Prop, seed: u64, shard: u64, total: usize, dir: &Path) -> Again {
    let share = 20_000usize.min(total.div_ceil(8)).max(1);
    again_n(p, seed, shard, share.min(total - shard as usize * share), dir)
}

pub fn check(p: &'static Prop, tier: &str, seed: u64, root: &Path, cases: Option<usize>) -> i32 {
    let t0 = Instant::now();
    let total = cases.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let dir = std::env::temp_dir().join(format!("adx-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let code = check_in(p, tier, seed, root, total, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(p: &'static Prop, tier: &str, seed: u64, root: &Path, total: usize, dir: &Path, t0: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let parallel = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, 8);
    // The split into shards doesn't depend on the machine
    let share = 20_000usize.min(total.div_ceil(8)).max(1);
    let shards = total.div_ceil(share) as u64;
    let mut running: Vec<(u64, std::process::Child, Vec<u8>, f64)> = vec![];
    let mut next = 0;
    let mut dead: Vec<(u64, String)> = vec![];
    let mut failures: Vec<(u64, Vec<u32>, String)> = vec![];
    let mut evaluations = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut stop = false;
    while (next < shards && !stop) || !running.is_empty() {
        while next < shards && !stop && running.len() < parallel {
            let n = share.min(total - next as usize * share);
            let c = Command::new(&exe)
                .args(["worker", p.id, &seed.to_string(), &next.to_string(), &n.to_string()])
                .arg(dir)
                .stderr(Stdio::null())
                .spawn();
            match c {
                Ok(c) => running.push((next, c, vec![], 0.0)),
                Err(e) => {
                    errors.push(format!("cannot start a worker: {}", e));
                    stop = true;
                }
            }
            next += 1;
        }
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < running.len() {
            let (shard, child, last, since) = &mut running[i];
            match child.try_wait() {
                Ok(Some(status)) => {
                    let shard = *shard;
                    match std::fs::read_to_string(dir.join(format!("result-{}", shard))) {
                        Ok(text) if text.ends_with("done\n") => {
                            let mut fail = None;
                            for line in text.lines() {
                                let (kind, rest) = line.split_once(' ').unwrap_or((line, ""));
                                match kind {
                                    "evaluations" => evaluations += rest.parse::<u64>().unwrap_or(0),
                                    "label" => {
                                        let (n, l) = rest.split_once(' ').unwrap();
                                        *labels.entry(l.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                                    }
                                    "known" => {
                                        let mut f = rest.splitn(3, ' ');
                                        let n: u64 = f.next().unwrap().parse().unwrap_or(0);
                                        let k = f.next().unwrap().to_string();
                                        let d = f.next().unwrap_or("").to_string();
                                        let e = known.entry(k).or_insert((0, d.clone()));
                                        e.0 += n;
                                        if d.len() < e.1.len() {
                                            e.1 = d;
                                        }
                                    }
                                    "sample" => {
                                        if samples.len() < 12 {
                                            samples.push(rest.to_string());
                                        }
                                    }
                                    "fail" => fail = Some(unwords(rest)),
                                    "reason" => failures.push((shard, fail.take().unwrap_or_default(), rest.to_string())),
                                    _ => {}
                                }
                            }
                            if let Ok(b) = std::fs::read(dir.join(format!("hashes-{}", shard))) {
                                for c in b.chunks_exact(8) {
                                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                                }
                            }
                        }
                        _ => dead.push((shard, status.to_string())),
                    }
                    stop |= !failures.is_empty() || !dead.is_empty();
                    running.remove(i);
                }
                Ok(None) => {
                    // A worker that burns processor time without starting another case is stuck
                    let now = std::fs::read(dir.join(format!("current-{}", shard))).unwrap_or_default();
                    let cpu = cpu_seconds(child.id()).unwrap_or(0.0);
                    if &now != last {
                        *last = now;
                        *since = cpu;
                    } else if cpu - *since > 30.0 {
                        let _ = child.kill();
                    }
                    i += 1;
                }
                Err(e) => {
                    errors.push(format!("wait: {}", e));
                    running.remove(i);
                }
            }
        }
    }
    // A worker that died: find out whether its last case makes any process die
    for (shard, how) in &dead {
        // One is enough, and each of them can take minutes
        if !failures.is_empty() {
            break;
        }
        if let Some(mut v) = read_current(dir, *shard) {
            match once(p, &v, dir) {
                Once::Died(_) => {
                    shrink_death(p, &mut v, dir);
                    let how = match once(p, &v, dir) {
                        Once::Died(h) => h,
                        _ => how.clone(),
                    };
                    failures.push((*shard, v, format!("the process does not survive this case ({}): unbounded recursion, work or memory", how)));
                }
                Once::Fail(m, _) => failures.push((*shard, v, m)),
                Once::Pass(_) => match again(p, seed, *shard, total, dir) {
                    Again::Passed => {}
                    Again::Failed(v, m) => failures.push((*shard, v, m)),
                    Again::Died(v2) if v2 == v => failures.push((*shard, v, format!("the process does not survive this case after the ones before it ({})", how))),
                    Again::Died(_) => errors.push(format!("worker {} ended ({}), each time elsewhere", shard, how)),
                },
            }
        } else {
            errors.push(format!("worker {} ended ({})", shard, how));
        }
    }
    failures.sort_by_key(|f| (f.1.len(), f.0));
    let listed = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut code = 0;
    for (k, (n, d)) in &known {
        let head = format!("finding: property={} key={}", p.id, k);
        match listed.lines().find(|l| l.starts_with(&head)) {
            Some(l) => {
                let what = l[head.len()..].trim();
                emit(&format!("KNOWN-FINDING: property={} {} {} ({} cases, for example {})\n", p.id, k, what, n, d));
            }
            None => failures.push((0, vec![], format!("fails as {} but that is not a listed finding: {}", k, d))),
        }
    }
    // Prefer a failure that repeats in a process of its own. One that doesn't needs the cases
    // before it, so its replay is the worker's whole history.
    let alone = failures.iter().take(4).position(|f| !matches!(once(p, &f.1, dir), Once::Pass(_)));
    if let Some((shard, v, m)) = failures.get(alone.unwrap_or(0)) {
        let history = if alone.is_none() { format!("history {} {} {}\n", seed, shard, share.min(total - *shard as usize * share)) } else { String::new() };
        let what = describe(p, v, dir);
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{:016x}.replay", p.id, hash(&words(v))));
        let body = format!("property {}\nseed {}\n{}choices {}\ncase {}\nfailure {}\n", p.id, seed, history, words(v), what.replace('\n', "\\n"), m);
        let _ = std::fs::write(&path, body);
        if !history.is_empty() {
            emit("this case fails only after others in the same process: the replay runs all of them\n");
        }
        emit(&format!("case: {}\nfailure: {}\n", what, m));
        emit(&format!("VIOLATION property={} replay={}\n", p.id, path.display()));
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            emit(&format!("ERROR {}: {}\n", p.id, e));
        }
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", esc(p.id), esc(tier), seed));
    j.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evaluations, hashes.len(), esc(p.rule)));
    j.push_str("  \"classes\": {");
    j.push_str(&labels.iter().map(|(l, n)| format!("{}: {}", esc(l), n)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n  \"known_findings\": {");
    j.push_str(&known.iter().map(|(l, (n, _))| format!("{}: {}", esc(l), n)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n  \"samples\": [");
    j.push_str(&samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   "));
    j.push_str(&format!("]\n }},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, if code == 1 { 1 } else { 0 }));
    if std::fs::write(ev.join(format!("{}.json", p.id)), j).is_err() {
        emit(&format!("ERROR {}: cannot write evidence\n", p.id));
        code = 2;
    }
    if code == 0 {
        emit(&format!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s\n", p.id, evaluations, hashes.len(), wall));
    }
    code
}

pub fn replay(props: &'static [Prop], file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            emit(&format!("cannot read {}: {}\n", file, e));
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property ");
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            emit(&format!("unknown property {}\n", id));
            return 2;
        }
    };
    let v = unwords(&get("choices "));
    let dir = std::env::temp_dir().join(format!("adx-replay-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let what = describe(p, &v, &dir);
    let history: Vec<u64> = get("history ").split(' ').filter_map(|x| x.parse().ok()).collect();
    let code = match once(p, &v, &dir) {
        Once::Pass(_) if history.len() == 3 => match again_n(p, history[0], history[1], history[2] as usize, &dir) {
            Again::Passed => {
                emit("holds\n");
                0
            }
            Again::Failed(v, m) => {
                emit(&format!("case: {}\nfailure: {}\nVIOLATION property={} replay={}\n", describe(p, &v, &dir), m, p.id, file));
                1
            }
            Again::Died(v) => {
                emit(&format!("case: {}\nfailure: the process ended\nVIOLATION property={} replay={}\n", describe(p, &v, &dir), p.id, file));
                1
            }
        },
        Once::Pass(_) => {
            emit(&format!("case: {}\nholds\n", what));
            0
        }
        Once::Fail(m, _) => {
            emit(&format!("case: {}\nfailure: {}\nVIOLATION property={} replay={}\n", what, m, p.id, file));
            1
        }
        Once::Died(h) => {
            emit(&format!("case: {}\nfailure: the process ended ({})\nVIOLATION property={} replay={}\n", what, h, p.id, file));
            1
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
