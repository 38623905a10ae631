//! C22 (feature sets), C26 (stochastic local search) and the completion part of C25, all by
//! driver processes built from /verif/variant with the features in question.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, scratch},
    ensure, fail, gen_cnf,
    oracle::drat,
    rng::Rng,
    util::*,
};
use std::{
    cell::RefCell,
    collections::HashMap,
    io::{BufRead, BufReader, Write},
    os::unix::process::ExitStatusExt,
    path::PathBuf,
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    sync::OnceLock,
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C22), Box::new(C26)]
}

struct Driver {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

pub enum Reply {
    Line(String),
    /// it panicked or died
    Dead(String),
    /// it took too long
    Late,
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("SPLR_VARIANTS").expect("SPLR_VARIANTS"))
}

/// the feature sets that were built, by name
fn names() -> &'static [String] {
    static NAMES: OnceLock<Vec<String>> = OnceLock::new();
    NAMES.get_or_init(|| {
        let tool = crate::engine::root().join("tools/variants.sh");
        let out = Command::new("bash")
            .arg(tool)
            .arg("list")
            .output()
            .expect("variants.sh");
        String::from_utf8_lossy(&out.stdout)
            .lines()
            .map(|s| s.to_string())
            .collect()
    })
}

thread_local! {
    static DRIVERS: RefCell<HashMap<String, Driver>> = RefCell::new(HashMap::new());
}

/// sends a request to the driver built with feature set `name`
pub fn ask(name: &str, request: &str) -> Reply {
    DRIVERS.with(|d| {
        let mut d = d.borrow_mut();
        let drv = d.entry(name.to_string()).or_insert_with(|| {
            let mut child = Command::new(dir().join(format!("{name}.d/release/variant")))
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("driver");
            Driver {
                stdin: child.stdin.take().unwrap(),
                stdout: BufReader::new(child.stdout.take().unwrap()),
                child,
            }
        });
        let mut line = String::new();
        let sent = writeln!(drv.stdin, "{request}").and_then(|_| drv.stdin.flush());
        // without quiet_mode nothing else is printed; be lenient to other lines
        loop {
            line.clear();
            if sent.is_err() || drv.stdout.read_line(&mut line).unwrap_or(0) == 0 {
                let mut drv = d.remove(name).unwrap();
                let st = drv.child.wait().expect("wait");
                return match st.signal() {
                    Some(14) => Reply::Late,
                    Some(9) => panic!("the driver was killed"),
                    Some(s) => Reply::Dead(format!("the process died of signal {s}")),
                    None => Reply::Dead(format!("the process exited with {:?}", st.code())),
                };
            }
            if let Some(l) = line.strip_prefix("\u{1}") {
                let l = l.trim_end().to_string();
                return match l.strip_prefix("panic ") {
                    Some(m) => Reply::Dead(format!("panicked: {m}")),
                    None => Reply::Line(l),
                };
            }
        }
    })
}

pub fn text(cls: &[Vec<i32>]) -> String {
    let mut s = String::new();
    for c in cls {
        for l in c {
            s.push_str(&format!("{l} "));
        }
        s.push_str("0 ");
    }
    s
}

pub fn parse(s: &str) -> Vec<Vec<i32>> {
    let mut out = Vec::new();
    let mut c = Vec::new();
    for w in s.split_whitespace() {
        match w.parse::<i32>().expect("literal") {
            0 => out.push(std::mem::take(&mut c)),
            l => c.push(l),
        }
    }
    out
}

pub struct C22;
impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "A formula (the families of C01, three sizes, a third with drawn search settings) solved by a driver built with one of the feature sets of tools/variants.sh (each default feature left out, each optional one added, both reward schemes, minimal and maximal sets; more in the thorough tier), with and without certification; a feature set that does not compile fails every case. Models are evaluated, UNSAT is compared with the reference solver and proofs are checked. Non-trivial: at least one conflict or one eliminated variable."
    }
    fn keep(&self) -> &'static [&'static str] {
        &["variant"]
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(50000, 1500000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        let n = names().len() as u64;
        let k = idx / n;
        let scale = match k % 20 {
            0 if t == Tier::Thorough => 3,
            0..=6 => 2,
            7..=13 => 1,
            _ => 0,
        };
        let f = gen_cnf::formula(r, scale);
        let mut c = formula_case(&f);
        if r.chance(1, 3) {
            gen_config(r, &mut c);
        }
        c.set("variant", (idx % n) as i64);
        if r.chance(2, 3) {
            c.set("proof", 1);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let nv = gen_cnf::max_var(&c.cls);
        let name = &names()[c.get("variant") as usize % names().len()];
        if let Ok(e) = std::fs::read_to_string(dir().join(format!("{name}.failed"))) {
            fail!(
                "the feature set '{name}' does not compile: {}",
                e.replace('\n', " ")
            );
        }
        let scr = scratch();
        let pf = scr.join("proof.drat");
        let proof = c.get("proof") != 0 && name != "with-no_IO";
        let _ = std::fs::remove_file(&pf);
        let settings: Vec<String> =
            c.p.iter()
                .filter(|(k, _)| k.starts_with("k_"))
                .map(|(k, v)| format!("{k}={v}"))
                .collect();
        let req = format!(
            "solve {} {} {} ; {}",
            if proof { "proof.drat" } else { "-" },
            scr.display(),
            settings.join(","),
            text(&c.cls)
        );
        let line = match ask(name, &req) {
            Reply::Line(l) => l,
            Reply::Late => return Outcome::Skip("not solved in time".into()),
            Reply::Dead(m) => fail!("with feature set '{name}' {m}"),
        };
        let mut parts = line.split(" ;");
        let head: Vec<&str> = parts.next().unwrap_or("").split(' ').collect();
        let body = parts.next().unwrap_or("").trim();
        assert!(head.len() == 4, "answer of the driver: {line}");
        let nontrivial = head[1] != "0" || head[2] != "0";
        let mut tags = vec![name.clone(), head[0].to_string()];
        if head[3] != "0" {
            tags.push("reduced".into());
        }
        match head[0] {
            "sat" => {
                let m: Vec<i32> = body
                    .split_whitespace()
                    .map(|x| x.parse().expect("literal"))
                    .collect();
                if let Err(e) = check_model(nv, &c.cls, &m) {
                    fail!("with feature set '{name}' {e}");
                }
            }
            "unsat" => {
                let early = head[1] == "0" && head[2] == "0" && !pf.exists();
                if proof && !early {
                    let text = std::fs::read(&pf).unwrap_or_default();
                    let st = drat::parse(&text).and_then(|s| drat::check(nv, &c.cls, &s));
                    match st {
                        Err(e) => fail!("with feature set '{name}' {e}"),
                        Ok(_) => tags.push("proof".into()),
                    }
                } else {
                    match reference(nv, &c.cls) {
                        Some(true) => fail!(
                            "with feature set '{name}' UNSAT reported for a satisfiable formula"
                        ),
                        None => return Outcome::Skip("reference solver gave up".into()),
                        _ => (),
                    }
                }
            }
            _ => fail!("with feature set '{name}' solve() gave {body}"),
        }
        finish(nontrivial, tags)
    }
}

pub struct C26;
impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A database loaded with a formula, a total assignment (random, or near a model), and a limit; stochastic_local_search runs on it in a driver built with its feature. The two numbers reported are compared with the falsified clauses counted by the harness in the assignment given and in the one left behind. Non-trivial: the given assignment falsifies a clause and the limit allows a flip."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(500000, 8000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(r, [0, 1, 1, 2][idx as usize % 4]);
        let mut c = formula_case(&f);
        let l = *r.pick(&[1i64, 2, 3, 5, 10, 40, 200]);
        c.set("limit", l);
        let nv = c.nv();
        let mut bits: Vec<i64> = (0..nv).map(|_| r.below(2) as i64).collect();
        if r.chance(1, 3)
            && let crate::oracle::refsat::Answer::Sat(m) =
                crate::oracle::refsat::solve(nv, &c.cls, 200)
        {
            for (v, b) in bits.iter_mut().enumerate() {
                *b = m[v + 1] as i64;
            }
            for _ in 0..r.below(4) {
                if nv > 0 {
                    bits[r.below(nv)] ^= 1;
                }
            }
        }
        c.ops = bits.into_iter().map(|b| vec![0, b]).collect();
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let nv = gen_cnf::max_var(&c.cls);
        let given: Vec<bool> = (0..nv)
            .map(|v| c.ops.get(v).and_then(|o| o.get(1)).is_some_and(|b| b & 1 == 1))
            .collect();
        let bits: String = given.iter().map(|b| if *b { '1' } else { '0' }).collect();
        let limit = c.get("limit").max(1);
        let line = match ask(
            "with-stochastic_local_search",
            &format!("sls {limit} {bits} ; {}", text(&c.cls)),
        ) {
            Reply::Line(l) => l,
            Reply::Late => fail!("the local search does not end within its limit of steps"),
            Reply::Dead(m) => fail!("{m}"),
        };
        if line.starts_with("unsat at loading") {
            return finish(false, vec!["unsat at loading".into()]);
        }
        let mut parts = line.split(" ;");
        let head: Vec<&str> = parts.next().unwrap_or("").split(' ').collect();
        let db = parse(parts.next().unwrap_or(""));
        assert!(head.len() >= 5 && head[0] == "sls", "answer of the driver: {line}");
        let after = head.get(5).copied().unwrap_or("");
        let (x, y): (usize, usize) = (head[1].parse().unwrap(), head[2].parse().unwrap());
        ensure!(head[3] == "1", "the assignment left behind is not total: {after}");
        ensure!(head[4] == "1", "the clauses of the database were changed");
        let after: Vec<bool> = after.bytes().map(|b| b == b'1').collect();
        let count = |a: &[bool]| {
            db.iter()
                .filter(|c| c.iter().all(|l| a[l.unsigned_abs() as usize - 1] != (*l > 0)))
                .count()
        };
        let (wx, wy) = (count(&given), count(&after));
        ensure!(
            x == wx,
            "{x} falsified clauses reported for the given assignment; they are {wx}"
        );
        ensure!(
            y == wy,
            "{y} falsified clauses reported for the final assignment; they are {wy}"
        );
        if x == 0 {
            ensure!(given == after, "a satisfying assignment was changed");
        }
        if limit == 1 {
            ensure!(given == after, "a search of a single step flipped a variable");
        }
        let mut tags = vec![];
        tags.push(match y.cmp(&x) {
            std::cmp::Ordering::Less => "better",
            std::cmp::Ordering::Equal => "as good",
            std::cmp::Ordering::Greater => "worse",
        }
        .to_string());
        if y == 0 && x > 0 {
            tags.push("solved".into());
        }
        finish(x > 0 && limit > 1, tags)
    }
}

/// C25, second part: the clauses after completing the network of binary clauses. `ops` are the
/// learnt binary clauses, an empty one completes.
pub fn completion(c: &Case) -> Outcome {
    let learnt: Vec<Vec<i32>> = c
        .ops
        .iter()
        .map(|o| o.iter().skip(1).map(|l| *l as i32).collect())
        .collect();
    let nv = gen_cnf::max_var(&c.cls);
    for l in &learnt {
        // only clauses the case may hold as learnt
        if l.iter().any(|x| *x == 0 || x.unsigned_abs() as usize > nv)
            || !(l.is_empty() || l.len() == 2 && l[0].abs() != l[1].abs())
        {
            return finish(false, vec![]);
        }
    }
    let line = match ask(
        "with-bi_clause_completion",
        &format!("complete ; {} ; {}", text(&c.cls), text(&learnt)),
    ) {
        Reply::Line(l) => l,
        Reply::Late => fail!("the completion of binary clauses does not end"),
        Reply::Dead(m) => fail!("completion of binary clauses: {m}"),
    };
    if line.starts_with("unsat at loading") {
        return finish(false, vec!["unsat at loading".into()]);
    }
    let body = line.split(" ;").nth(1).unwrap_or("");
    let mut all = c.cls.clone();
    all.extend(learnt.iter().filter(|l| !l.is_empty()).cloned());
    let have: std::collections::HashSet<Vec<i32>> = all.iter().map(|c| sorted(c)).collect();
    let mut new = 0;
    for state in body.split('|').filter(|s| !s.trim().is_empty()) {
        for d in parse(state) {
            if have.contains(&sorted(&d)) {
                continue;
            }
            // clauses shortened by assigned literals are consequences as well
            new += (d.len() == 2) as usize;
            if implies(nv, &all, &d) == Some(false) {
                fail!("after completion the database holds {d:?} which does not follow");
            }
        }
    }
    finish(
        new > 0,
        vec![
            "completion".into(),
            if new > 0 { "clauses added" } else { "nothing to add" }.into(),
        ],
    )
}
