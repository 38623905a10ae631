//! The property engine: generates the cases of a property, evaluates each in a worker
//! subprocess (so that a crash of the code under test is attributed to the case that caused
//! it), shrinks the first failing case and writes evidence.
use crate::{case::Case, rng::Rng, rng::fnv};
use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Read, Write},
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
        mpsc,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// held; `nontrivial` by the property's rule; tags are counted into the evidence
    Pass { nontrivial: bool, tags: Vec<String> },
    /// the oracle could not decide this case
    Skip(String),
    /// violated
    Fail(String),
}

pub fn pass(nontrivial: bool, tags: &[&str]) -> Outcome {
    Outcome::Pass {
        nontrivial,
        tags: tags.iter().map(|s| s.to_string()).collect(),
    }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return $crate::engine::Outcome::Fail(format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::engine::Outcome::Fail(format!($($a)*)); } };
}

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn generate(&self, r: &mut Rng, idx: u64, tier: Tier) -> Case;
    fn run(&self, c: &Case) -> Outcome;
    /// parameters that shrinking must leave alone
    fn keep(&self) -> &'static [&'static str] {
        &[]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// property specific shrinking candidates, tried before the generic ones
    fn shrinks(&self, _c: &Case) -> Vec<Case> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

const MARK: &str = "\u{1}@@";
/// far beyond what any case takes (small ones take milliseconds)
const CASE_LIMIT: Duration = Duration::from_secs(150);
/// address space of a worker; no case needs a tenth of it
const MEMORY_LIMIT: u64 = 8 << 30;
const RUN_LIMIT: Duration = Duration::from_secs(690);

/// a scratch directory of this process, removed by the master
pub fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("SPLRCHECK_SCRATCH").unwrap_or("/tmp/splrcheck".into()))
        .join(format!("w{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, bool)>> = const { std::cell::RefCell::new(None) };
}

/// runs `f`; a panic inside it is an `Err` with the message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, own) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if own {
                std::panic::panic_any(format!("harness: {m}"));
            }
            Err(m)
        }
    }
}

enum Verdict {
    Done(Outcome),
    HarnessError(String),
}

fn evaluate(p: &dyn Prop, c: &Case) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(c))) {
        Ok(o) => Verdict::Done(o),
        Err(_) => {
            let (m, own) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic".into(), true));
            if own {
                Verdict::HarnessError(m)
            } else {
                Verdict::Done(Outcome::Fail(format!("panicked: {m}")))
            }
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        use std::io::Write;
        let _ = writeln!(std::io::stderr(), "panic: {msg} at {loc}");
        // sources of this crate are given relative to it, those of splr absolutely
        let own = loc.starts_with("src/");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((format!("{msg} at {loc}"), own)));
    }));
}

/// the loop of a worker process
pub fn worker(p: &dyn Prop, seed: u64, tier: Tier) {
    unsafe extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    // RLIMIT_AS: endless growth ends in an abort of this process
    unsafe {
        setrlimit(9, &[MEMORY_LIMIT, MEMORY_LIMIT]);
    }
    install_panic_hook();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            break;
        }
        let mut it = line.trim_end().splitn(2, ' ');
        let cmd = it.next().unwrap_or("");
        let arg = it.next().unwrap_or("");
        let case = match cmd {
            "RUN" => {
                let idx: u64 = arg.parse().unwrap();
                p.generate(&mut Rng::for_case(seed, p.id(), idx), idx, tier)
            }
            "CASE" => Case::decode(&unescape(arg)),
            _ => continue,
        };
        let v = evaluate(p, &case);
        let h = fnv(case.encode().as_bytes());
        let msg = match v {
            Verdict::Done(Outcome::Pass { nontrivial, tags }) => {
                format!("P\t{}\t{h:x}\t{}", nontrivial as u8, tags.join(","))
            }
            Verdict::Done(Outcome::Skip(s)) => format!("S\t0\t{h:x}\t{}", escape(&s)),
            Verdict::Done(Outcome::Fail(s)) => format!("F\t0\t{h:x}\t{}", escape(&s)),
            Verdict::HarnessError(s) => format!("H\t0\t{h:x}\t{}", escape(&s)),
        };
        println!("\n{MARK}{msg}");
        let _ = std::io::stdout().flush();
    }
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    err: PathBuf,
}

impl Worker {
    fn spawn(id: &str, n: usize, scratch: &Path) -> Worker {
        let err = scratch.join(format!("stderr{n}"));
        let ef = std::fs::File::create(&err).expect("stderr file");
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id])
            .env("SPLRCHECK_SCRATCH", scratch)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(ef)
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut rd = BufReader::new(out);
            let mut buf = Vec::new();
            loop {
                buf.clear();
                match rd.read_until(b'\n', &mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        let s = String::from_utf8_lossy(&buf);
                        if let Some(m) = s.strip_prefix(MARK)
                            && tx.send(m.trim_end_matches('\n').to_string()).is_err()
                        {
                            break;
                        }
                    }
                }
            }
        });
        Worker {
            child,
            stdin,
            rx,
            err,
        }
    }
    fn ask(&mut self, cmd: &str, limit: Duration) -> Reply {
        if writeln!(self.stdin, "{cmd}").is_err() || self.stdin.flush().is_err() {
            return self.died();
        }
        match self.rx.recv_timeout(limit) {
            Ok(m) => {
                let f: Vec<&str> = m.splitn(4, '\t').collect();
                let h = u64::from_str_radix(f[2], 16).unwrap_or(0);
                match f[0] {
                    "P" => Reply::Pass(
                        f[1] == "1",
                        h,
                        f[3].split(',')
                            .filter(|s| !s.is_empty())
                            .map(|s| s.to_string())
                            .collect(),
                    ),
                    "S" => Reply::Skip(unescape(f[3])),
                    "F" => Reply::Fail(unescape(f[3])),
                    _ => Reply::Error(unescape(f[3])),
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                Reply::Hang
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => self.died(),
        }
    }
    fn died(&mut self) -> Reply {
        use std::os::unix::process::ExitStatusExt;
        let st = self.child.wait().expect("wait");
        let mut e = String::new();
        if let Ok(f) = std::fs::File::open(&self.err) {
            let mut v = Vec::new();
            let _ = f.take(1 << 20).read_to_end(&mut v);
            e = String::from_utf8_lossy(&v).into_owned();
        }
        let lines: Vec<&str> = e.lines().collect();
        let tail = lines[lines.len().saturating_sub(8)..].join(" | ");
        if st.signal() == Some(9) {
            return Reply::Error(format!("out of memory or killed: {tail}"));
        }
        Reply::Crash(format!(
            "the process died ({}): {tail}",
            match st.signal() {
                Some(s) => format!("signal {s}"),
                None => format!("exit {:?}", st.code()),
            }
        ))
    }
}

#[derive(Debug)]
enum Reply {
    Pass(bool, u64, Vec<String>),
    Skip(String),
    Fail(String),
    Error(String),
    Crash(String),
    Hang,
}

struct Known {
    property: String,
    pattern: String,
    what: String,
}

fn known_findings(root: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            // known: property=<id> match=<substring, _ for blank> <what>
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=");
                let m = it.next().unwrap_or("").trim_start_matches("match=");
                v.push(Known {
                    property: p.into(),
                    pattern: m.replace('_', " "),
                    what: it.next().unwrap_or("").into(),
                });
            }
        }
    }
    v
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    samples: Vec<(u64, usize)>,
    fails: Vec<(u64, String)>,
    known: BTreeMap<usize, u64>,
    errors: Vec<(u64, String)>,
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}

/// runs a whole check; the return value is the exit code
pub fn check(p: &dyn Prop, seed: u64, tier: Tier) -> i32 {
    let start = Instant::now();
    let root = root();
    let base = PathBuf::from(format!("/tmp/splrcheck-{}-{}", p.id(), std::process::id()));
    std::fs::create_dir_all(&base).expect("scratch");
    let known = known_findings(&root);
    let total = std::env::var("SPLRCHECK_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(p.cases(tier));
    let limit = match tier {
        Tier::Quick => RUN_LIMIT,
        Tier::Thorough => Duration::from_secs(
            std::env::var("SPLRCHECK_BUDGET")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(3000),
        ),
    };
    let jobs = std::env::var("SPLRCHECK_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(std::thread::available_parallelism().map_or(4, |n| n.get()))
        .min(total.max(1) as usize);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let tally = Arc::new(Mutex::new(Tally::default()));
    std::thread::scope(|sc| {
        for w in 0..jobs {
            let (next, stop, tally, base, known) =
                (next.clone(), stop.clone(), tally.clone(), &base, &known);
            sc.spawn(move || {
                let mut wk = Worker::spawn(p.id(), w, base);
                while !stop.load(Ordering::SeqCst) && start.elapsed() < limit {
                    let idx = next.fetch_add(1, Ordering::SeqCst);
                    if idx >= total {
                        break;
                    }
                    let rep = wk.ask(&format!("RUN {idx}"), CASE_LIMIT);
                    let dead = matches!(rep, Reply::Crash(_) | Reply::Hang)
                        || matches!(&rep, Reply::Error(s) if s.starts_with("out of memory"));
                    let mut t = tally.lock().unwrap();
                    t.evaluations += 1;
                    match rep {
                        Reply::Pass(nt, h, tags) => {
                            if nt && t.nontrivial.insert(h) && t.samples.len() < 400 {
                                t.samples.push((idx, 0));
                            }
                            for g in tags {
                                *t.tags.entry(g).or_insert(0) += 1;
                            }
                        }
                        Reply::Skip(s) => *t.skips.entry(s).or_insert(0) += 1,
                        Reply::Fail(m) | Reply::Crash(m) => {
                            if let Some(k) = known
                                .iter()
                                .position(|k| k.property == p.id() && m.contains(&k.pattern))
                            {
                                *t.known.entry(k).or_insert(0) += 1;
                            } else {
                                t.fails.push((idx, m));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Reply::Error(m) => t.errors.push((idx, m)),
                        Reply::Hang => {
                            let c = p.generate(&mut Rng::for_case(seed, p.id(), idx), idx, tier);
                            if c.is_small() {
                                t.fails.push((idx, format!("no answer within {CASE_LIMIT:?}")));
                                stop.store(true, Ordering::SeqCst);
                            } else {
                                // a large one may be slow
                                *t.skips.entry("no answer in time".into()).or_insert(0) += 1;
                            }
                        }
                    }
                    drop(t);
                    if dead {
                        wk = Worker::spawn(p.id(), w, base);
                    }
                }
                let _ = wk.child.kill();
                let _ = wk.child.wait();
            });
        }
    });
    let mut t = std::mem::take(&mut *tally.lock().unwrap());
    t.fails.sort();
    for k in known.iter().filter(|k| k.property == p.id()) {
        println!("KNOWN-FINDING: property={} {}", p.id(), k.what);
    }
    let mut code = 0;
    if let Some((idx, m)) = t.fails.first().cloned() {
        let case = p.generate(&mut Rng::for_case(seed, p.id(), idx), idx, tier);
        let (small, msg, evals) = if m.starts_with("no answer") {
            (case, m.clone(), 0)
        } else {
            shrink(p, case, m.clone(), &base, start)
        };
        let dir = root.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let text = format!(
            "# property {}\n# seed {seed} case {idx}\n# {}\n{}",
            p.id(),
            escape(&msg),
            small.encode()
        );
        let path = dir.join(format!("{}-{:08x}.case", p.id(), fnv(small.encode().as_bytes()) as u32));
        std::fs::write(&path, text).expect("replay file");
        println!("case {idx} fails: {m}");
        println!("shrunk in {evals} evaluations to: {msg}");
        for l in small.encode().lines().take(40) {
            println!("    {}", &l[..l.len().min(300)]);
        }
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        code = 1;
    } else if !t.errors.is_empty() {
        for (i, e) in t.errors.iter().take(5) {
            println!("ERROR: case {i}: {e}");
        }
        code = 2;
    }
    // evidence
    t.samples.sort();
    let mut pool: Vec<(u64, Case)> = t
        .samples
        .iter()
        .take(60)
        .map(|(i, _)| (*i, p.generate(&mut Rng::for_case(seed, p.id(), *i), *i, tier)))
        .collect();
    pool.sort_by_key(|(_, c)| c.encode().len());
    let mut samples: Vec<String> = Vec::new();
    for k in [0, 1, pool.len() / 2, pool.len().saturating_sub(1)] {
        if let Some((i, c)) = pool.get(k) {
            let e = c.encode();
            let cut: String = e.chars().take(1500).collect();
            let s = format!(
                "case {i}: {}{}",
                cut.trim_end().replace('\n', "; "),
                if e.len() > cut.len() { " ... (truncated)" } else { "" }
            );
            if !samples.contains(&s) {
                samples.push(s);
            }
        }
    }
    let not_run = total.saturating_sub(t.evaluations);
    let map = |m: &BTreeMap<String, u64>| {
        format!(
            "{{{}}}",
            m.iter()
                .map(|(k, v)| format!("{}: {v}", json_str(k)))
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    let list = |v: &[String]| {
        format!(
            "[{}]",
            v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        )
    };
    let assumptions: Vec<String> = p.assumptions().iter().map(|s| s.to_string()).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"classes\": {},\n    \"undecided\": {},\n    \"cases_not_run\": {not_run},\n    \"known_finding_hits\": {},\n    \"samples\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(p.id()),
        json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(p.level()),
        t.evaluations,
        t.nontrivial.len(),
        json_str(p.rule()),
        map(&t.tags),
        map(&t.skips),
        t.known.values().sum::<u64>(),
        list(&samples),
        list(&assumptions),
        start.elapsed().as_secs_f64(),
        (code == 1) as u8,
    );
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id())), ev).expect("evidence");
    println!(
        "{} {:?} seed={seed}: {} cases, {} distinct non-trivial, {} undecided, {:.1}s",
        p.id(),
        tier,
        t.evaluations,
        t.nontrivial.len(),
        t.skips.values().sum::<u64>(),
        start.elapsed().as_secs_f64()
    );
    println!("  classes: {}", map(&t.tags));
    if not_run > 0 && code == 0 {
        println!("  note: {not_run} cases were not run within the time limit");
    }
    let _ = std::fs::remove_dir_all(&base);
    code
}

fn fails(rep: &Reply) -> Option<String> {
    match rep {
        Reply::Fail(m) | Reply::Crash(m) => Some(m.clone()),
        _ => None,
    }
}

/// greedy shrinking, bounded by evaluations and by time (only the size of the replay file
/// depends on the bounds)
fn shrink(p: &dyn Prop, case: Case, msg: String, base: &Path, start: Instant) -> (Case, String, usize) {
    let mut best = case;
    let mut best_msg = msg;
    let mut evals = 0;
    let began = Instant::now();
    let mut wk = Worker::spawn(p.id(), 1000, base);
    'outer: loop {
        let mut cands = p.shrinks(&best);
        cands.extend(best.shrinks(p.keep()));
        for c in cands {
            if evals >= 3000
                || began.elapsed() > Duration::from_secs(60)
                || start.elapsed() > Duration::from_secs(800)
            {
                break 'outer;
            }
            evals += 1;
            let rep = wk.ask(&format!("CASE {}", escape(&c.encode())), Duration::from_secs(10));
            let dead = matches!(rep, Reply::Crash(_) | Reply::Hang | Reply::Error(_));
            let f = fails(&rep);
            if dead {
                let _ = wk.child.kill();
                let _ = wk.child.wait();
                wk = Worker::spawn(p.id(), 1000 + evals, base);
            }
            if let Some(m) = f {
                best = c;
                best_msg = m;
                continue 'outer;
            }
        }
        break;
    }
    let _ = wk.child.kill();
    let _ = wk.child.wait();
    (best, best_msg, evals)
}

/// re-evaluates a replay file in this process
pub fn replay(p: &dyn Prop, path: &str) -> i32 {
    install_panic_hook();
    let s = std::fs::read_to_string(path).expect("replay file");
    let body: String = s
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| format!("{l}\n"))
        .collect();
    match evaluate(p, &Case::decode(&body)) {
        Verdict::Done(Outcome::Fail(m)) => {
            println!("{m}\nVIOLATION property={} replay={path}", p.id());
            1
        }
        Verdict::Done(o) => {
            println!("{o:?}");
            0
        }
        Verdict::HarnessError(m) => {
            println!("ERROR: {m}");
            2
        }
    }
}
