//! C24: the checked build (bounds, overflow, debug assertions, undefined-behaviour checks) solves
//! what the release build solves, with the same answers. `check.sh` runs this property with the
//! splrcheck of profile `checked`, which asks the one of profile `release` (SPLR_RELEASE).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, scratch},
    ensure, fail, gen_cnf,
    rng::Rng,
    util::*,
};
use splr::{
    Certificate, PropertyDereference, SatSolverIF, SolveIF, Solver, SolverError, ValidateIF,
    assign::property as ap, cdb::property as cp, types::*,
};
use std::{
    cell::RefCell,
    fmt::Write as _,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    time::Instant,
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C24)]
}

const MARK: &str = "\u{2}";

fn describe(r: &Result<Certificate, SolverError>) -> String {
    match r {
        Ok(Certificate::SAT(m)) => format!("sat {m:?}"),
        Ok(Certificate::UNSAT) => "unsat".into(),
        Err(e) => format!("error {e:?}"),
    }
}

fn numbers(s: &Solver) -> String {
    let a = |t| s.asg.derefer(t);
    let b = |t| s.cdb.derefer(t);
    format!(
        "[{} {} {} {} | {} {} {}]",
        a(ap::Tusize::NumConflict),
        a(ap::Tusize::NumDecision),
        a(ap::Tusize::NumPropagation),
        a(ap::Tusize::NumRestart),
        b(cp::Tusize::NumClause),
        b(cp::Tusize::NumLearnt),
        b(cp::Tusize::NumReduction),
    )
}

/// What a build answers: (verdicts by step, everything that can be told). The second part
/// depends on the clock where a run takes long.
fn answers(c: &Case) -> (String, String, bool) {
    let mut verdicts = String::new();
    let mut full = String::new();
    let mut busy = false;
    let mut k = config(c);
    for (n, v) in [("x_ecl", &mut k.elm_cls_lim), ("x_evl", &mut k.elm_grw_lim), ("x_evo", &mut k.elm_var_occ)] {
        if c.has(n) {
            *v = c.get(n).max(0) as usize;
        }
    }
    k.quiet_mode = c.get("loud") == 0;
    k.no_color = c.get("loud") & 2 != 0;
    k.show_journal = c.get("loud") & 4 != 0;
    k.show_cdb_heatmap = c.get("loud") & 8 != 0;
    let dir = scratch();
    if c.get("proof") != 0 {
        k.use_certification = true;
        k.io_odir = dir.clone();
        k.io_pfile = "c24.drat".into();
        let _ = std::fs::remove_file(dir.join("c24.drat"));
    }
    let nv = gen_cnf::max_var(&c.cls);
    let file = dir.join("c24.cnf");
    let loaded: Result<Solver, Result<Certificate, SolverError>> = match c.get("route") {
        1 => {
            std::fs::write(&file, gen_cnf::dimacs(nv, &c.cls)).expect("write");
            k.cnf_file = file.clone();
            Solver::build(&k).map_err(Err)
        }
        2 => Certificate::try_from(c.cls.clone())
            .map_err(|e| Ok(Err(e)))
            .map_or_else(|e: Result<_, Solver>| Err(e.unwrap_or(Ok(Certificate::UNSAT))), |x| Err(Ok(x))),
        3 => {
            let n0 = (c.get("n0").max(0) as usize).min(nv);
            let mut s = Solver::instantiate(
                &k,
                &CNFDescription {
                    num_of_variables: n0,
                    ..CNFDescription::default()
                },
            );
            let mut n = n0;
            let mut bad = None;
            for (i, x) in c.cls.iter().enumerate() {
                while n < gen_cnf::max_var(std::slice::from_ref(x)) {
                    n = s.add_var() as usize;
                }
                let got = if x.len() == 1 && i % 2 == 0 {
                    s.add_assignment(x[0]).map(|_| ())
                } else {
                    s.add_clause(x).map(|_| ())
                };
                if let Err(e) = got {
                    bad = Some(e);
                    break;
                }
            }
            match bad {
                Some(e) => Err(early_verdict(e)),
                None => Ok(s),
            }
        }
        _ => Solver::try_from((k, c.cls.as_slice())),
    };
    let mut s = match loaded {
        Ok(s) => s,
        Err(r) => {
            let r = match r {
                Err(e) => early_verdict(e),
                r => r,
            };
            let d = describe(&r);
            let _ = write!(verdicts, "{} ", d.split(' ').next().unwrap());
            if d.starts_with("error") {
                verdicts.push_str(&d);
            }
            return (verdicts, d, false);
        }
    };
    match c.get("then") {
        // a copy solves, then the original
        2 => {
            let mut t = s.clone();
            let (a, b) = (t.solve(), s.solve());
            for (r, s) in [(&a, &t), (&b, &s)] {
                let d = describe(r);
                let _ = write!(verdicts, "{} ", d.split(' ').next().unwrap());
                let _ = write!(full, "{d} {} ", numbers(s));
                busy |= conflicts(s) > 0;
            }
        }
        k => {
            let r = s.solve();
            let d = describe(&r);
            let _ = write!(verdicts, "{} ", d.split(' ').next().unwrap());
            let _ = write!(full, "{d} {}", numbers(&s));
            busy = conflicts(&s) > 0;
            if c.get("proof") != 0 {
                s.save_certification();
            }
            if let (1, Ok(Certificate::SAT(m))) = (k, &r)
                && let Ok(mut t) = Solver::try_from((quiet(), c.cls.as_slice()))
            {
                // the answer, given to a fresh solver
                let d = format!("{:?} {:?}", t.inject_assignment(m).is_ok(), t.validate());
                let _ = write!(verdicts, "{d} ");
            }
        }
    }
    if verdicts.contains("error") {
        verdicts.push_str(&full);
    }
    (verdicts, full, busy)
}

/// the release build's side
pub fn answers_main() {
    unsafe extern "C" {
        fn prctl(option: i32, a: u64, ...) -> i32;
    }
    unsafe {
        prctl(1, 9);
    }
    crate::engine::install_panic_hook();
    let stdin = std::io::stdin();
    let mut line = String::new();
    while stdin.lock().read_line(&mut line).unwrap_or(0) > 0 {
        let case = Case::decode(&line.trim_end().replace('\u{3}', "\n"));
        line.clear();
        let start = Instant::now();
        let r = crate::engine::guarded(|| answers(&case));
        let ms = start.elapsed().as_millis();
        match r {
            Ok((v, f, _)) => println!("\n{MARK}{ms}\t{v}\t{f}"),
            Err(m) => println!("\n{MARK}{ms}\tpanicked: {}\t", m.replace(['\n', '\t'], " ")),
        }
        let _ = std::io::stdout().flush();
    }
}

struct Other {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
}

fn ask_release(c: &Case) -> Result<(u128, String, String), String> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let x = o.get_or_insert_with(|| {
            let mut child = Command::new(std::env::var("SPLR_RELEASE").expect("SPLR_RELEASE"))
                .args(["answers", "C24"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("release build");
            Other {
                stdin: child.stdin.take().unwrap(),
                stdout: BufReader::new(child.stdout.take().unwrap()),
                child,
            }
        });
        let _ = writeln!(x.stdin, "{}", c.encode().replace('\n', "\u{3}"));
        let _ = x.stdin.flush();
        let mut buf = Vec::new();
        loop {
            buf.clear();
            if x.stdout.read_until(b'\n', &mut buf).unwrap_or(0) == 0 {
                let st = o.take().unwrap().child.wait().expect("wait");
                use std::os::unix::process::ExitStatusExt;
                assert!(st.signal() != Some(9), "the release build was killed");
                return Err(format!("the release build died ({st})"));
            }
            let l = String::from_utf8_lossy(&buf);
            if let Some(l) = l.trim_end_matches('\n').strip_prefix(MARK) {
                let f: Vec<&str> = l.split('\t').collect();
                assert!(f.len() == 3, "release build: {l}");
                return Ok((f[0].parse().unwrap(), f[1].into(), f[2].into()));
            }
        }
    })
}

pub struct C24;
impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "A formula (the families of C01 at four sizes, clauses of thousands of literals, sparse variable numbers), settings including extreme ones, a loading route (clauses, file, one-shot, step by step), output and certification on or off, and what follows (solve, solve and validate, solve a copy first), run in a build with bounds, overflow, debug-assertion and undefined-behaviour checks. Any panic, abort or error is a violation, and so is an answer other than the release build's (the complete answer and the counters where both ran shortly enough for the clock to play no role). Non-trivial: at least one conflict."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40000, 1500000)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["loud"]
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        let scale = match idx % 25 {
            0 if t == Tier::Thorough => 3,
            0 if r.chance(1, 4) => 3,
            0..=7 => 2,
            8..=15 => 1,
            _ => 0,
        };
        let f = gen_cnf::formula(r, scale);
        let mut c = formula_case(&f);
        match r.below(40) {
            0 => {
                // a few very long clauses
                // (the checks of the build take quadratic time in their length)
                let n = if r.chance(1, 40) { 70_000 } else { *r.pick(&[130usize, 300, 1000, 2500]) };
                for _ in 0..if n > 10_000 { 1 } else { r.us(1, 4) } {
                    let w = r.us(n / 2, n);
                    let mut v: Vec<i32> = (1..=w as i32).collect();
                    for l in v.iter_mut() {
                        if r.chance(1, 2) {
                            *l = -*l;
                        }
                    }
                    r.shuffle(&mut v);
                    c.cls.push(v);
                }
            }
            1 | 2 => {
                // sparse numbers
                let gap = r.range(2, 500) as i32;
                for x in c.cls.iter_mut() {
                    for l in x.iter_mut() {
                        *l *= gap;
                    }
                }
            }
            _ => (),
        }
        c.set("nv", gen_cnf::max_var(&c.cls) as i64);
        if r.chance(1, 3) {
            gen_config(r, &mut c);
        }
        for n in ["x_ecl", "x_evl", "x_evo"] {
            if r.chance(1, 12) {
                let v = *r.pick(&[0i64, 1, 65_535, 65_536, u32::MAX as i64, i64::MAX]);
                c.set(n, v);
            }
        }
        let route = r.weighted(&[4, 2, 1, 3]) as i64;
        c.set("route", route);
        if route == 3 {
            let n = r.range(0, c.nv() as i64);
            c.set("n0", n);
        }
        let then = r.weighted(&[6, 2, 2]) as i64;
        c.set("then", then);
        if r.chance(1, 3) {
            c.set("proof", 1);
        }
        if r.chance(1, 8) {
            let l = r.range(1, 15);
            c.set("loud", l);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        assert!(cfg!(debug_assertions), "C24 needs the checked build");
        let start = Instant::now();
        let (v, f, busy) = answers(c);
        let ms = start.elapsed().as_millis();
        if v.contains("error") {
            fail!("{}", v.trim());
        }
        let (oms, ov, of) = match ask_release(c) {
            Ok(x) => x,
            Err(e) => fail!("{e}"),
        };
        if ov.starts_with("panicked") {
            fail!("in the release build: {ov}");
        }
        ensure!(v == ov, "the checked build answers {v}and the release build {ov}");
        let mut tags = vec![
            format!("route {}", c.get("route")),
            format!("then {}", c.get("then")),
            v.trim().split(' ').last().unwrap_or("").to_string(),
        ];
        if c.get("loud") != 0 {
            tags.push("with output".into());
        }
        if ms < 60 && oms < 60 {
            ensure!(f == of, "the checked build gives {f} and the release build {of}");
            tags.push("complete comparison".into());
        }
        finish(busy, tags)
    }
}
