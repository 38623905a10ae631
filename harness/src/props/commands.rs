//! C10 (the splr command) and C11 (model checking by ValidateIF and dmcr).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, guarded, scratch},
    ensure, fail, gen_cnf,
    oracle::{drat, refsat},
    rng::Rng,
    util::*,
};
use splr::{Config, SatSolverIF, Solver, SolverError, ValidateIF, types::*};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{Read, Write},
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C10), Box::new(C11)]
}

pub struct Ran {
    /// `None`: ended by a signal
    pub code: Option<i32>,
    pub out: String,
    pub raw: String,
}

/// runs one of the commands of the repository in `cwd`
fn command(name: &str, args: &[String], cwd: &Path, input: Option<&[u8]>) -> Ran {
    command_limited(name, args, cwd, input, None, None)
}

/// ... with a limit on the size of the files it writes, and SPLR_TIMEOUT
pub fn command_limited(
    name: &str,
    args: &[String],
    cwd: &Path,
    input: Option<&[u8]>,
    limit: Option<u64>,
    timeout: Option<&str>,
) -> Ran {
    let bin = PathBuf::from(std::env::var("SPLR_BIN").expect("SPLR_BIN")).join(name);
    let mut cmd = Command::new(bin);
    cmd.args(args)
        .current_dir(cwd)
        .env_remove("SPLR_TIMEOUT")
        .envs(timeout.map(|t| ("SPLR_TIMEOUT", t)))
        .env("RUST_BACKTRACE", "0")
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    unsafe extern "C" {
        fn prctl(option: i32, a: u64, ...) -> i32;
    }
    // the command ends with this process
    unsafe {
        cmd.pre_exec(move || {
            prctl(1, 9);
            if let Some(n) = limit {
                super::writing::limit_files(n);
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("spawn");
    if let Some(b) = input {
        let _ = child.stdin.take().unwrap().write_all(b);
    }
    let mut v = Vec::new();
    child.stdout.take().unwrap().read_to_end(&mut v).expect("read");
    let st = child.wait().expect("wait");
    assert!(st.signal() != Some(9), "{name} was killed");
    let raw = String::from_utf8_lossy(&v).into_owned();
    Ran {
        code: st.code(),
        out: plain(&raw),
        raw,
    }
}

/// without the control sequences
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            if it.next() == Some('[') {
                for d in it.by_ref() {
                    if d.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn fresh_dir(name: &str) -> PathBuf {
    let d = scratch().join(name);
    if d.exists() {
        std::fs::remove_dir_all(&d).expect("remove");
    }
    std::fs::create_dir_all(&d).expect("create");
    d
}

/// the files below `d`, by path
fn files(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(&p).expect("read_dir") {
            let p = e.expect("entry").path();
            if p.is_dir() {
                todo.push(p);
            } else {
                m.insert(p.clone(), std::fs::read(&p).expect("read"));
            }
        }
    }
    m
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Said {
    Sat,
    Unsat,
    Unknown,
}

/// all the verdicts in a text, wherever they stand
pub fn verdicts(s: &str) -> Vec<Said> {
    let mut v = Vec::new();
    for l in s.lines().filter(|l| !l.starts_with("c ")) {
        for (t, w) in [
            ("s SATISFIABLE", Said::Sat),
            ("s UNSATISFIABLE", Said::Unsat),
            ("s UNKNOWN", Said::Unknown),
        ] {
            if l.contains(t) {
                v.push(w);
            }
        }
    }
    v
}

/// reads a result; `whole`: nothing else may be in the text
pub fn read_result(text: &str, whole: bool) -> Result<(Said, Vec<i32>), String> {
    let mut said = None;
    let mut lits = Vec::new();
    let mut ended = false;
    let mut values = false;
    for l in text.lines() {
        if l.starts_with("c ") || l == "c" {
            continue;
        }
        if let Some(x) = l.strip_prefix("v ") {
            values = true;
            for t in x.split_whitespace() {
                if ended {
                    return Err(format!("'{t}' follows the end of the assignment"));
                }
                match t.parse::<i32>() {
                    Ok(0) => ended = true,
                    Ok(n) => lits.push(n),
                    Err(_) => return Err(format!("'{t}' in the assignment")),
                }
            }
        } else if let Some(v) = verdicts(l).first()
            && (whole || !l.contains(':'))
        {
            if said.is_some() {
                return Err("two verdicts in a result".into());
            }
            said = Some(*v);
        } else if l.trim() == "0" && said.is_some_and(|s| s != Said::Sat) {
            // the empty set
        } else if whole {
            return Err(format!("an unexpected line in the result file: {l:?}"));
        }
    }
    match said {
        None => Err("no verdict in the result".into()),
        Some(Said::Sat) if !values || !ended => {
            Err("the assignment isn't ended by 0".into())
        }
        Some(Said::Sat) => Ok((Said::Sat, lits)),
        Some(s) if values => Err(format!("an assignment with the verdict {s:?}")),
        Some(s) => Ok((s, lits)),
    }
}

const NAMES: [&str; 7] = [
    "a.cnf", "problem", "x y.cnf", "ü.cnf", "a.b.c.cnf", "ans_a.cnf", "proof.drat.cnf",
];
const PLACES: [&str; 4] = ["", "in/", "./", "/in/"];
const DIRS: [&str; 6] = [".", "out", "/out", "out/", "nodir", "in"];
const RESULTS: [&str; 8] = [
    "-", "r.txt", "sub/r.txt", "/abs/r.txt", "adir", "", "./r", "-res",
];
const PROOFS: [&str; 4] = ["p.drat", "sub/p.drat", "/abs/p.drat", "proof.drat"];
/// values of SPLR_TIMEOUT which stop nothing: long, or no numbers
const ENV: [&str; 10] = [
    "100000", "2305843009213693952", "18446744073709551615", "2305843009213693953",
    "18446744073709552", "", "abc", "-1", "1e-3", "18446744073709551616",
];
const TIMES: [&str; 5] = ["5000", "0", "0.001", "1", "1e6"];

/// a path of the tables above below `dir`
fn place(dir: &Path, s: &str) -> String {
    match s.strip_prefix('/') {
        Some(r) => dir.join(r).to_string_lossy().into_owned(),
        None => s.to_string(),
    }
}

const OPT: [(&str, &str); 18] = [
    ("-q", "--quiet"),
    ("-C", "--no-color"),
    ("-c", "--certify"),
    ("-j", "--journal"),
    ("-H", "--heatmap"),
    ("-o", "--dir"),
    ("-r", "--result"),
    ("-p", "--proof"),
    ("-t", "--timeout"),
    ("", "--cl"),
    ("", "--ecl"),
    ("", "--evl"),
    ("", "--evo"),
    ("", "--crl"),
    ("", "--cr1"),
    ("", "--cr2"),
    ("", "--rlt"),
    ("", "--vdr"),
];

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "A formula (the families of C01 at three sizes) written with a generated layout to a file with a generated name and place, and a command line of the documented options in any order, short or long, with result and proof files in existing, missing and unwritable places and with files of earlier runs in the way; or an unreadable input. The splr command runs in a scratch directory; its exit code, output and files are read back and judged by the clauses, the reference solver and the DRAT checker. Non-trivial: a verdict was reported and judged, with at least one option given."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(60000, 1500000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["broken"]
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(
            r,
            match idx % 32 {
                0 => 2,
                1..=8 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        if r.chance(1, 4) {
            let n = c.get("nv") + r.range(1, 4);
            c.set("nv", n);
        }
        if r.chance(1, 60) {
            // a long list of literals
            let n = c.get("nv") + *r.pick(&[100, 300, 1000, 1025, 5000, 20_000, 70_000]) + r.range(0, 100);
            c.set("nv", n);
        }
        if r.chance(1, 40) {
            let i = r.below(c.cls.len() + 1);
            c.cls.insert(i, vec![]);
        }
        if r.chance(1, 3) {
            let l = r.range(0, 511);
            c.set("lay", l);
        }
        let l = r.range(0, 1 << 30);
        c.set("layseed", l);
        let n = r.weighted(&[4, 1, 1, 1, 1, 1, 1]) as i64;
        c.set("name", n);
        let n = r.weighted(&[3, 2, 1, 2]) as i64;
        c.set("place", n);
        if r.chance(1, 8) {
            let (k, n) = (r.range(0, 2), r.range(1, 60));
            c.set("longkind", k).set("long", n);
        }
        if r.chance(1, 4) {
            c.set("stale", 1);
        }
        if r.chance(1, 16) {
            let e = r.range(1, ENV.len() as i64);
            c.set("env", e);
        }
        if r.chance(1, 12) {
            let b = r.range(1, 8);
            c.set("broken", b);
        }
        for (k, (num, den)) in [
            (1, 3),
            (1, 3),
            (1, 2),
            (1, 12),
            (1, 12),
            (2, 5),
            (1, 2),
            (1, 4),
            (1, 10),
            (1, 20),
            (1, 16),
            (1, 16),
            (1, 16),
            (1, 16),
            (1, 16),
            (1, 16),
            (1, 16),
            (1, 16),
        ]
        .into_iter()
        .enumerate()
        {
            if !r.chance(num, den) {
                continue;
            }
            let v = match k {
                5 => r.below(DIRS.len()) as i64,
                6 => r.weighted(&[4, 3, 2, 2, 1, 1, 1, 1]) as i64,
                7 => r.below(PROOFS.len()) as i64,
                8 => r.below(TIMES.len()) as i64,
                9 => *r.pick(&[0i64, 1, 10, 1000, 1_000_000]),
                10..=12 => *r.pick(&[0i64, 1, 4, 32, 200, 20_000]),
                13 => r.range(0, 20),
                14 | 15 => r.range(0, 100),
                16 => r.range(50, 300),
                17 => r.range(500, 999),
                _ => 0,
            };
            let long = r.chance(1, 2) as i64;
            c.ops.push(vec![k as i64, v, long]);
        }
        // a proof file is usually named together with the request for a proof
        if c.ops.iter().any(|o| o[0] == 7) && !c.ops.iter().any(|o| o[0] == 2) && r.chance(9, 10) {
            c.ops.push(vec![2, 0, 0]);
        }
        r.shuffle(&mut c.ops);
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let dir = fresh_dir("c10");
        for d in ["in", "out/sub", "out/adir", "in/sub", "in/adir", "sub", "adir", "abs"] {
            std::fs::create_dir_all(dir.join(d)).expect("create");
        }
        let pick = |t: &[&'static str], i: i64| t[(i.max(0) as usize) % t.len()];
        let nv = c.nv().max(gen_cnf::max_var(&c.cls));
        let name = pick(&["n", "é", "名"], c.get("longkind"))
            .repeat(c.get("long").clamp(0, 75) as usize)
            + pick(&NAMES, c.get("name"));
        let input = place(&dir, &format!("{}{name}", pick(&PLACES, c.get("place"))));
        let path = if input.starts_with('/') { PathBuf::from(&input) } else { dir.join(&input) };
        let broken = c.get("broken");
        let text = unreadable(nv, &c.cls, broken, c.get("layseed") as usize)
            .unwrap_or_else(|| {
                super::loading::layout(nv, &c.cls, c.get("lay"), c.get("layseed") as u64)
            });
        match broken {
            1 => (),
            2 => std::fs::create_dir_all(&path).expect("create"),
            _ => std::fs::write(&path, &text).expect("write"),
        }
        // the command line
        let mut args: Vec<String> = Vec::new();
        let (mut odir, mut result, mut proof) = (".".to_string(), String::new(), "proof.drat".to_string());
        let (mut quiet, mut certify, mut limited, mut named_proof) = (false, false, false, false);
        let mut tags: Vec<String> = Vec::new();
        if c.get("long") > 0 {
            tags.push("long file name".into());
        }
        for o in &c.ops {
            let [k, v, long] = [0, 1, 2].map(|i| o.get(i).copied().unwrap_or(0));
            let Some((short, name)) = OPT.get(k as usize) else {
                continue;
            };
            args.push(if long != 0 || short.is_empty() { name } else { short }.to_string());
            tags.push(name.to_string());
            match k {
                0 => quiet = true,
                2 => certify = true,
                5 => {
                    odir = place(&dir, pick(&DIRS, v));
                    args.push(odir.clone());
                }
                6 => {
                    result = place(&dir, pick(&RESULTS, v));
                    args.push(result.clone());
                }
                7 => {
                    proof = place(&dir, pick(&PROOFS, v));
                    named_proof = proof != "proof.drat";
                    args.push(proof.clone());
                }
                8 => {
                    let t = pick(&TIMES, v);
                    limited |= t.parse::<f64>().unwrap() < 1000.0;
                    args.push(t.to_string());
                }
                9 => {
                    limited |= v != 0;
                    args.push(v.to_string());
                }
                14..=16 => args.push((v as f64 / 100.0).to_string()),
                17 => args.push((v as f64 / 1000.0).to_string()),
                10..=13 => args.push(v.to_string()),
                _ => (),
            }
        }
        args.push(input.clone());
        let target = if result == "-" {
            None
        } else if result.is_empty() {
            Some(dir.join(&odir).join(format!("ans_{name}")))
        } else {
            Some(dir.join(&odir).join(&result))
        };
        let writable =
            |p: &PathBuf| !p.is_dir() && p.parent().is_some_and(|d| d.is_dir());
        let proof = dir.join(&odir).join(&proof);
        let env = c.get("env");
        let env = (env > 0).then(|| pick(&ENV, env - 1));
        if let Some(e) = env {
            tags.push(format!("SPLR_TIMEOUT={e}"));
        }
        if c.get("stale") != 0 && broken == 0 {
            if let Some(t) = &target
                && writable(t)
            {
                std::fs::write(t, "c an earlier run\ns SATISFIABLE\nv 1 2 0\ns UNSATISFIABLE\n".repeat(300))
                    .expect("write");
            }
            if writable(&proof) {
                std::fs::write(&proof, "1 0\n-1 0\n0\n".repeat(3000)).expect("write");
            }
        }
        let before = files(&dir);
        let ran = command_limited("splr", &args, &dir, None, None, env);
        let after = files(&dir);
        let mut shown = args.join("' '");
        if let Some(e) = env {
            shown += &format!("' with SPLR_TIMEOUT='{e}");
        }
        let said: BTreeSet<String> =
            verdicts(&ran.out).iter().map(|v| format!("{v:?}")).collect();
        // the files touched
        let to_file = target.as_ref().filter(|t| writable(t));
        for (p, b) in &before {
            ensure!(
                after.get(p) == Some(b) || Some(p) == to_file || (certify && *p == proof),
                "splr '{shown}' changed {p:?}"
            );
        }
        for p in after.keys() {
            ensure!(
                before.contains_key(p) || Some(p) == to_file || (certify && *p == proof),
                "splr '{shown}' created {p:?}"
            );
        }
        let fresh = to_file.filter(|p| after.get(*p) != before.get(*p));
        if broken != 0 || (named_proof && !certify) {
            // an unreadable input, or a command line that is refused
            let want = if broken == 0 { reference(nv, &c.cls) } else { None };
            if broken == 0 && said.len() == 1 && ran.code != Some(0) {
                let ok = match want {
                    Some(true) => ran.code == Some(10) && said.contains("Sat"),
                    Some(false) => ran.code == Some(20) && said.contains("Unsat"),
                    None => true,
                };
                ensure!(ok, "splr '{shown}' gives {said:?} and exits with {:?}", ran.code);
                return finish(false, tags);
            }
            ensure!(
                !matches!(ran.code, Some(10 | 20)),
                "splr '{shown}' exits with {:?} for an unreadable input",
                ran.code
            );
            ensure!(
                !said.contains("Sat") && !said.contains("Unsat"),
                "splr '{shown}' gives the verdict {said:?} for an unreadable input"
            );
            if let Some(f) = fresh {
                let t = String::from_utf8_lossy(&after[f]).into_owned();
                let v = verdicts(&t);
                ensure!(
                    !v.contains(&Said::Sat) && !v.contains(&Said::Unsat),
                    "splr '{shown}' leaves the verdict {v:?} in {f:?} for an unreadable input"
                );
            }
            tags.push(if broken != 0 { format!("unreadable {broken}") } else { "refused".into() });
            return finish(false, tags);
        }
        ensure!(
            said.len() == 1,
            "splr '{shown}' gives the verdicts {said:?} (exit {:?}): {:?}",
            ran.code,
            tail(&ran.out)
        );
        let told = match ran.code {
            Some(10) => Said::Sat,
            Some(20) => Said::Unsat,
            Some(0) if limited => Said::Unknown,
            x => fail!("splr '{shown}' exits with {x:?}: {:?}", tail(&ran.out)),
        };
        ensure!(
            said.contains(&format!("{told:?}")),
            "splr '{shown}' gives {said:?} and exits with {:?}",
            ran.code
        );
        // the result
        let (text, whole) = match to_file {
            Some(f) => {
                ensure!(after.contains_key(f), "splr '{shown}' leaves no result file {f:?}");
                if !quiet {
                    let named = ran
                        .out
                        .lines()
                        .filter_map(|l| l.split_once("Result|file: "))
                        .map(|x| dir.join(x.1))
                        .collect::<Vec<_>>();
                    ensure!(
                        named.len() == 1
                            && named[0].canonicalize().ok() == f.canonicalize().ok(),
                        "splr '{shown}' names the result file {named:?} instead of {f:?}"
                    );
                }
                (String::from_utf8_lossy(&after[f]).into_owned(), true)
            }
            None => (ran.out.clone(), false),
        };
        let (v, lits) = match read_result(&text, whole) {
            Ok(x) => x,
            Err(e) => fail!(
                "splr '{shown}': {e} ({}): {:?}",
                if whole { "in the file" } else { "on the standard output" },
                tail(&text)
            ),
        };
        ensure!(
            v == told,
            "splr '{shown}' exits with {:?} and its result is {v:?}",
            ran.code
        );
        match told {
            Said::Sat => {
                if let Err(e) = check_model(nv, &c.cls, &lits) {
                    fail!("splr '{shown}': {e}");
                }
                tags.push("sat".into());
            }
            Said::Unsat => {
                match reference(nv, &c.cls) {
                    Some(true) => fail!("splr '{shown}' reports a satisfiable problem as UNSAT"),
                    Some(false) => (),
                    None => return Outcome::Skip("reference solver gave up".into()),
                }
                tags.push("unsat".into());
                if certify && writable(&proof) {
                    let Some(b) = after.get(&proof) else {
                        fail!("splr '{shown}' leaves no proof in {proof:?}");
                    };
                    let steps = match drat::parse(b) {
                        Ok(s) => s,
                        Err(e) => fail!("splr '{shown}': the proof: {e}"),
                    };
                    if let Err(e) = drat::check(nv, &c.cls, &steps) {
                        fail!("splr '{shown}': the proof: {e}");
                    }
                    tags.push("proof".into());
                }
            }
            Said::Unknown => tags.push("unknown".into()),
        }
        // colours only when they are not turned off
        if c.ops.iter().any(|o| o[0] == 1) && quiet {
            ensure!(
                !ran.raw.contains('\x1b'),
                "splr '{shown}' writes control sequences: {:?}",
                tail(&ran.raw)
            );
        }
        tags.push(match (to_file, &target) {
            (Some(_), _) => "to a file".into(),
            (None, None) => "to the standard output".into(),
            _ => "dumped".to_string(),
        });
        finish(told != Said::Unknown && !c.ops.is_empty(), tags)
    }
}

fn tail(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(300)..].iter().collect()
}

/// a text which isn't a problem
fn unreadable(nv: usize, cls: &[Vec<i32>], kind: i64, n: usize) -> Option<Vec<u8>> {
    let good = gen_cnf::dimacs(nv, cls);
    let body = &good[good.find('\n').unwrap() + 1..];
    let m = cls.len();
    let header = format!("p cnf {nv} {}\n", m + 1);
    Some(match kind {
        1..=3 => vec![],
        4 => body.as_bytes().to_vec(),
        5 => {
            let h = [
                format!("p cnf {nv}\n"),
                format!("p cnf x{nv} {m}\n"),
                format!("p sat {nv} {m}\n"),
                format!("p cnf -{} {m}\n", nv + 1),
                format!("p {nv} {m}\n"),
                format!("cnf {nv} {m}\n"),
            ];
            format!("{}{body}", h[n % h.len()]).into_bytes()
        }
        6 => format!("{header}{}{} 0\n{body}", if n % 2 == 0 { "-" } else { "" }, nv + 1 + n % 3)
            .into_bytes(),
        7 => format!(
            "{header}{} 0\n{body}",
            ["2147483648", "-2147483649", "99999999999999999999"][n % 3]
        )
        .into_bytes(),
        8 => {
            let mut v = header.into_bytes();
            v.extend_from_slice(b"\xff\xfe 0\n");
            v.extend_from_slice(body.as_bytes());
            v
        }
        _ => return None,
    })
}

/// what a checker has to answer
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Must {
    Accept,
    Reject,
    /// a partial list that relies on what the formula implies
    Either,
}

struct Judge<'a> {
    nv: usize,
    cls: &'a [Vec<i32>],
    /// the closure of the formula under unit propagation; `None`: refuted
    units: Option<BTreeSet<i32>>,
}

impl<'a> Judge<'a> {
    fn new(nv: usize, cls: &'a [Vec<i32>]) -> Judge<'a> {
        let mut u: BTreeSet<i32> = BTreeSet::new();
        let mut units = None;
        'outer: loop {
            let mut more = false;
            for c in cls {
                if c.iter().any(|l| u.contains(l) || c.contains(&-l)) {
                    continue;
                }
                let open: BTreeSet<i32> =
                    c.iter().copied().filter(|l| !u.contains(&-l)).collect();
                match open.len() {
                    0 => break 'outer,
                    1 => {
                        u.extend(open);
                        more = true;
                    }
                    _ => (),
                }
            }
            if !more {
                units = Some(u);
                break;
            }
        }
        Judge { nv, cls, units }
    }
    fn total(&self, list: &[i32]) -> bool {
        let s: BTreeSet<i32> = list.iter().map(|l| l.saturating_abs()).collect();
        s.len() == self.nv && self.proper(list)
    }
    /// in range and consistent
    fn proper(&self, list: &[i32]) -> bool {
        list.iter()
            .all(|l| *l != 0 && l.unsigned_abs() as usize <= self.nv && !list.contains(&-l))
    }
    fn must(&self, list: &[i32]) -> Must {
        let Some(units) = &self.units else {
            return Must::Reject;
        };
        if !self.proper(list) {
            return Must::Reject;
        }
        let has: BTreeSet<i32> = list.iter().copied().collect();
        if self.cls.iter().all(|c| c.iter().any(|l| has.contains(l))) {
            return Must::Accept;
        }
        if has.iter().any(|l| units.contains(&-l)) {
            return Must::Reject;
        }
        let open = self.cls.iter().any(|c| {
            !c.iter().any(|l| has.contains(l) || units.contains(l) || c.contains(&-l))
        });
        if open { Must::Reject } else { Must::Either }
    }
    /// Is `clause` a reason for rejecting `list`?
    fn reason(&self, list: &[i32], clause: &[i32]) -> Result<(), String> {
        if let Some(l) = clause.iter().find(|l| list.contains(l)) {
            return Err(format!("{clause:?}, reported as falsified, is satisfied by {l}"));
        }
        if let ([x], Some(u)) = (clause, &self.units)
            && u.contains(x)
        {
            return Ok(());
        }
        if self.total(list) {
            // a clause of the formula, without the literals it falsifies by itself
            let ok = self.cls.iter().any(|c| {
                clause.iter().all(|l| c.contains(l)) && c.iter().all(|l| list.contains(&-l))
            });
            if !ok {
                return Err(format!("{clause:?}, reported as falsified, isn't in the formula"));
            }
        }
        Ok(())
    }
}

fn loaded(c: &Case, nv: usize) -> Result<Solver, SolverError> {
    if c.get("route") == 1 {
        let f = scratch().join("c11.cnf");
        std::fs::write(&f, gen_cnf::dimacs(nv, &c.cls)).expect("write");
        return Solver::build(&Config {
            cnf_file: f,
            ..quiet()
        });
    }
    let mut s = Solver::instantiate(
        &quiet(),
        &CNFDescription {
            num_of_variables: nv,
            ..CNFDescription::default()
        },
    );
    for x in &c.cls {
        s.add_clause(x)?;
    }
    Ok(s)
}

/// the answer of dmcr: accepted, or the clause it reports
fn dmcr_said(out: &str) -> (bool, Option<Vec<i32>>) {
    let ok = out.contains("A valid assignment set");
    let cls = out.split_once("due to [").and_then(|x| x.1.split_once(']')).map(|x| {
        x.0.split(',')
            .filter_map(|t| t.trim().parse::<i32>().ok())
            .collect()
    });
    (ok, cls)
}

pub struct C11;

impl C11 {
    /// judges one answer of dmcr
    fn judge(&self, j: &Judge, list: &[i32], ran: &Ran) -> Result<(), String> {
        let (ok, reason) = dmcr_said(&ran.out);
        let must = j.must(list);
        if ok && must == Must::Reject {
            return Err(format!("dmcr accepts {list:?}: {:?}", ran.out));
        }
        if !ok && must == Must::Accept {
            return Err(format!("dmcr rejects {list:?}: {:?} exit {:?}", ran.out, ran.code));
        }
        if j.units.is_none() {
            return Ok(());
        }
        if ran.code != Some(0) {
            return Err(format!("dmcr exits with {:?} for {list:?}: {:?}", ran.code, ran.out));
        }
        if !ok && j.proper(list) {
            match reason {
                Some(r) => j.reason(list, &r)?,
                None if j.total(list) => {
                    return Err(format!("dmcr reports no clause for {list:?}: {:?}", ran.out));
                }
                None => (),
            }
        }
        Ok(())
    }
    fn library(&self, c: &Case, nv: usize, j: &Judge) -> Outcome {
        let mut tags = vec!["library".to_string()];
        let mut nontrivial = false;
        let s = match loaded(c, nv) {
            Ok(s) => s,
            Err(e) => {
                let d = format!("{e:?}");
                ensure!(early_verdict(e).is_ok(), "loading gave {d}");
                ensure!(j.units.is_none(), "{d}, though unit clauses don't refute the formula");
                return finish(false, vec!["refuted on loading".into()]);
            }
        };
        for o in &c.ops {
            let list: Vec<i32> = o.iter().map(|l| *l as i32).collect();
            let must = j.must(&list);
            let mut t = s.clone();
            let (got, by) = match guarded(|| {
                let i = t.inject_assignment(&list);
                let v = if i.is_ok() { t.validate() } else { None };
                (i, v)
            }) {
                Ok(x) => x,
                Err(e) => fail!("inject_assignment({list:?}) panicked: {e}"),
            };
            let ok = got.is_ok() && by.is_none();
            ensure!(
                !(ok && must == Must::Reject),
                "{list:?} is accepted"
            );
            ensure!(
                ok || must != Must::Accept,
                "{list:?} is rejected: {got:?} {by:?}"
            );
            if !ok && j.proper(&list) && j.units.is_some() {
                let clause = match (got, by) {
                    (Ok(()), Some(x)) => x,
                    (Err(SolverError::RootLevelConflict((l, _))), _) => {
                        // it contradicts a literal the formula asserts
                        let l = i32::from(l);
                        ensure!(
                            list.contains(&l) && j.units.as_ref().unwrap().contains(&-l),
                            "{list:?} is rejected because of {l}, which the formula doesn't contradict"
                        );
                        vec![]
                    }
                    (e, _) => fail!("{list:?} is rejected with {e:?}"),
                };
                if !clause.is_empty()
                    && let Err(e) = j.reason(&list, &clause)
                {
                    fail!("{list:?}: {e}");
                }
                nontrivial |= j.total(&list);
            }
            nontrivial |= must == Must::Accept;
            tags.push(format!("{must:?}").to_lowercase());
        }
        finish(nontrivial, tags)
    }
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A formula (with unit, repeated and tautological clauses) and literal lists: models, models with flipped literals, random total and partial lists, contradictory, repeated, empty and out-of-range ones. Given to a solver through inject_assignment and validate, or to the dmcr command as a file or on its standard input in several layouts, or dmcr checks what splr itself wrote and changes of it. The oracle evaluates the clauses; a reported clause has to be a falsified one. Non-trivial: a list which has to be accepted, or a falsifying total list that was rejected with a reason."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(150000, 5000000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["nv", "mode"]
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mode = match idx % 8 {
            0 => 2,
            1 | 2 => 1,
            _ => 0,
        };
        let f = gen_cnf::formula(
            r,
            match idx % 40 {
                0 | 1 => 2,
                2..=12 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        c.set("mode", mode);
        if r.chance(1, 60) {
            let w = *r.pick(&[70i64, 300, 1000, 5000]);
            for _ in 0..r.us(1, 2) {
                c.cls.push((1..=w as i32).map(|v| if r.bool() { v } else { -v }).collect());
            }
            c.set("nv", c.get("nv").max(w));
        }
        if r.chance(1, 6) {
            let n = c.get("nv") + r.range(1, 3);
            c.set("nv", n);
        }
        let nv = c.nv();
        let route = r.below(2) as i64;
        c.set("route", route);
        let l = r.range(0, 1 << 30);
        c.set("layseed", l);
        let model: Option<Vec<i64>> = match refsat::solve(nv, &c.cls, 300) {
            refsat::Answer::Sat(m) => {
                Some((1..=nv).map(|v| if m[v] { v as i64 } else { -(v as i64) }).collect())
            }
            _ => None,
        };
        let n = if mode == 1 { r.us(1, 3) } else { r.us(1, 8) };
        for _ in 0..n {
            let mut l: Vec<i64> = match (&model, r.below(8)) {
                (Some(m), 0..=5) => m.clone(),
                _ => (1..=nv as i64).map(|v| if r.bool() { v } else { -v }).collect(),
            };
            match r.below(12) {
                0..=2 => (),
                3..=5 if !l.is_empty() => {
                    for _ in 0..r.us(1, 2) {
                        let i = r.below(l.len());
                        l[i] = -l[i];
                    }
                }
                6 | 7 => {
                    let k = r.us(1, 4);
                    l.retain(|_| !r.chance(k, 8));
                }
                8 if !l.is_empty() => {
                    let x = -*r.pick(&l);
                    let i = r.below(l.len() + 1);
                    l.insert(i, x);
                }
                9 if !l.is_empty() => {
                    let x = *r.pick(&l);
                    l.push(x);
                }
                10 => {
                    let n = nv as i64;
                    let x = *r.pick(&[n + 1, -n - 1, n + 2, 0, i32::MAX as i64, i32::MIN as i64 + 1, i32::MIN as i64]);
                    let i = r.below(l.len() + 1);
                    l.insert(i, x);
                }
                11 if r.chance(1, 3) => l.clear(),
                _ => (),
            }
            if r.chance(1, 2) {
                r.shuffle(&mut l);
            }
            c.ops.push(l);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let nv = c.nv().max(gen_cnf::max_var(&c.cls));
        let j = Judge::new(nv, &c.cls);
        let mode = c.get("mode");
        if mode == 0 {
            return self.library(c, nv, &j);
        }
        let dir = fresh_dir("c11");
        let mut r = Rng::new(c.get("layseed") as u64);
        std::fs::create_dir_all(dir.join("in")).expect("create");
        let problem = place(&dir, *r.pick(&["x.cnf", "x.cnf", "in/x.cnf", "/in/x.cnf", "./x.cnf"]));
        std::fs::write(dir.join(&problem), gen_cnf::dimacs(nv, &c.cls)).expect("write");
        let mut tags = vec![if mode == 2 { "splr then dmcr" } else { "dmcr" }.to_string()];
        let mut nontrivial = false;
        if mode == 2 {
            let ran = command("splr", &["-q".into(), problem.clone()], &dir, None);
            match ran.code {
                Some(10) => {
                    let chk = command("dmcr", std::slice::from_ref(&problem), &dir, None);
                    ensure!(
                        chk.out.contains("A valid assignment set") && chk.code == Some(0),
                        "dmcr doesn't accept the answer of splr: {:?}",
                        chk.out
                    );
                    let file = dir.join("ans_x.cnf");
                    let text = std::fs::read_to_string(&file).expect("answer");
                    let lits = match read_result(&text, true) {
                        Ok(x) => x.1,
                        Err(e) => fail!("the answer of splr: {e}"),
                    };
                    for _ in 0..4.min(lits.len()) {
                        // a changed answer
                        let i = r.below(lits.len());
                        let mut l = lits.clone();
                        l[i] = -l[i];
                        if r.chance(1, 4) {
                            let k = r.below(lits.len());
                            l[k] = -lits[k];
                        }
                        let v: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                        let head: String = text
                            .lines()
                            .filter(|x| !x.starts_with("v "))
                            .map(|x| format!("{x}\n"))
                            .collect();
                        std::fs::write(&file, format!("{head}v {} 0\n", v.join(" ")))
                            .expect("write");
                        let chk = command("dmcr", std::slice::from_ref(&problem), &dir, None);
                        if let Err(e) = self.judge(&j, &l, &chk) {
                            fail!("a changed answer: {e}");
                        }
                        tags.push(format!("{:?}", j.must(&l)).to_lowercase());
                    }
                    nontrivial = true;
                }
                Some(20) => {
                    let chk = command("dmcr", std::slice::from_ref(&problem), &dir, None);
                    ensure!(
                        !chk.out.contains("A valid assignment"),
                        "dmcr accepts an UNSAT answer: {:?}",
                        chk.out
                    );
                    tags.push("unsat".into());
                }
                x => fail!("splr exits with {x:?}"),
            }
            return finish(nontrivial, tags);
        }
        for o in &c.ops {
            // 0 ends a list in a file
            let list: Vec<i32> = o.iter().map(|l| *l as i32).filter(|l| *l != 0).collect();
            let mut t = String::new();
            let comment = |t: &mut String, r: &mut Rng| {
                if r.chance(1, 3) {
                    t.push_str(*r.pick(&["c\n", "c v 1 0\n", "c s UNSATISFIABLE\n"]));
                }
            };
            comment(&mut t, &mut r);
            if r.chance(4, 5) {
                t.push_str("s SATISFIABLE\n");
            }
            comment(&mut t, &mut r);
            let width = *r.pick(&[1usize, 3, 10, 1_000_000, 1_000_000, 1_000_000]);
            let mut lines: Vec<String> = list
                .chunks(width)
                .map(|x| {
                    format!("v {}", x.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
                })
                .collect();
            match r.below(6) {
                0 if !list.is_empty() => (), // not terminated
                1 => lines.push("v 0".into()),
                _ => match lines.last_mut() {
                    Some(l) => l.push_str(" 0"),
                    None => lines.push("v 0".into()),
                },
            }
            let wide = r.chance(1, 8);
            for (i, l) in lines.iter().enumerate() {
                if i > 0 {
                    comment(&mut t, &mut r);
                }
                t.push_str(&if wide { l.replace(' ', "  ") } else { l.clone() });
                t.push('\n');
            }
            let mut args: Vec<String> = Vec::new();
            let mut input = None;
            let _ = std::fs::remove_file(dir.join("ans_x.cnf"));
            match r.below(4) {
                0 => {
                    std::fs::write(dir.join("a b"), &t).expect("write");
                    args.extend(["-a".into(), "a b".into()]);
                }
                1 => {
                    std::fs::write(dir.join("in/a b"), &t).expect("write");
                    std::fs::write(dir.join("a b"), "s UNSATISFIABLE\n").expect("write");
                    args.extend(["--assign".into(), dir.join("in/a b").to_string_lossy().into_owned()]);
                    // not the file to be read
                    std::fs::write(dir.join("ans_x.cnf"), "s UNSATISFIABLE\n").expect("write");
                }
                2 => std::fs::write(dir.join("ans_x.cnf"), &t).expect("write"),
                _ => input = Some(t.as_bytes()),
            }
            if r.chance(1, 3) {
                args.push((*r.pick(&["-C", "--no-color"])).into());
            }
            args.push(problem.clone());
            let ran = command("dmcr", &args, &dir, input);
            if let Err(e) = self.judge(&j, &list, &ran) {
                fail!("dmcr {args:?} with {t:?}: {e}");
            }
            let must = j.must(&list);
            nontrivial |= must == Must::Accept || (j.total(&list) && j.units.is_some());
            tags.push(format!("{must:?}").to_lowercase());
        }
        finish(nontrivial, tags)
    }
}
