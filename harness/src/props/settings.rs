//! C07 (settings do not change the verdict), C08 (limits), C09 (reproducibility, clones).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, scratch},
    ensure, fail, gen_cnf,
    oracle::drat,
    rng::Rng,
    util::*,
};
use splr::{
    Certificate, Config, PropertyDereference, SatSolverIF, SolveIF, Solver, SolverError,
    assign::property as ap, cdb::property as cp, state::StateIF,
};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C07), Box::new(C08), Box::new(C09)]
}

fn name(r: &Result<Certificate, SolverError>) -> String {
    match r {
        Ok(Certificate::SAT(m)) => format!("SAT {m:?}"),
        r => format!("{r:?}"),
    }
}

/// `k_*` parameters of configuration `i` (named `k_x@i`) as a case of their own
fn sub(c: &Case, i: i64) -> Case {
    let mut s = Case::new();
    for (k, v) in &c.p {
        if let Some((a, b)) = k.split_once('@')
            && b == i.to_string()
        {
            s.set(a, *v);
        }
    }
    s
}

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A formula solved with the default settings and with four drawn settings (eliminator on/off and its three limits, both reduction ratios, LBD threshold, restart threshold, decay rates and step, back-track threshold); the default run is repeated with progress output and with certification. Verdicts must agree with the reference, models are evaluated, and the runs that differ in output only must give identical answers. Non-trivial: the default run had a conflict or eliminated a variable."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(45000, 700000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(
            r,
            match idx % 10 {
                0 | 1 => 2,
                2..=6 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        for i in 0..4 {
            let mut s = Case::new();
            if i == 0 {
                s.set("k_elim", 0);
            }
            gen_config(r, &mut s);
            for (k, v) in &s.p {
                c.set(&format!("{k}@{i}"), *v);
            }
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let base = solve_vec(quiet(), &c.cls);
        let sat = match &base.result {
            Ok(Certificate::SAT(_)) => Some(true),
            _ => reference(c.nv(), &c.cls),
        };
        if let Err(e) = judge(c.nv(), &c.cls, sat, &base.result) {
            fail!("default settings: {e}");
        }
        for i in 0..4 {
            let s = sub(c, i);
            let run = solve_vec(config(&s), &c.cls);
            if let Err(e) = judge(c.nv(), &c.cls, sat, &run.result) {
                fail!("settings {:?}: {e} (default settings: {})", s.p, name(&base.result));
            }
            if matches!(run.result, Ok(Certificate::SAT(_)))
                != matches!(base.result, Ok(Certificate::SAT(_)))
            {
                fail!("settings {:?}: {} against {}", s.p, name(&run.result), name(&base.result));
            }
        }
        // output only
        let s = sub(c, 1);
        let k = config(&s);
        let quiet_run = solve_vec(k.clone(), &c.cls);
        let noisy = solve_vec(
            Config {
                quiet_mode: false,
                splr_interface: true,
                show_journal: true,
                no_color: true,
                ..k.clone()
            },
            &c.cls,
        );
        ensure!(
            name(&quiet_run.result) == name(&noisy.result),
            "progress output changes the answer from {} to {}",
            name(&quiet_run.result),
            name(&noisy.result)
        );
        let cert = solve_vec(
            Config {
                use_certification: true,
                io_odir: scratch(),
                io_pfile: "c07.drat".into(),
                ..k
            },
            &c.cls,
        );
        ensure!(
            name(&quiet_run.result) == name(&cert.result),
            "certification changes the answer from {} to {}",
            name(&quiet_run.result),
            name(&cert.result)
        );
        finish(base.nontrivial(), base.tags())
    }
}

pub struct C08;
impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A formula with a clause limit (1, a fraction of the database, around its size, a million) or a time limit. The clock is owned by the harness: the start time of the solver is moved back, so that a limit is either already used up or far away. The unlimited run tells whether a limited run must stop. Non-trivial: the limit was hit, or the run had conflicts."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(60000, 1500000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(
            r,
            match idx % 10 {
                0..=4 => 2,
                5..=7 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        match r.below(3) {
            0 => {
                c.set("kind", 0);
                let m = c.cls.len() as i64;
                let v = match r.below(7) {
                    0 => r.range(1, 3),
                    1 => r.range(1, m.max(1)),
                    2 => m + r.range(-2, 2),
                    3 => m * r.range(100, 200) / 100,
                    4 => m * r.range(90, 110) / 100,
                    5 => m * r.range(2, 10),
                    _ => 1_000_000,
                };
                c.set("lim", v.max(1));
            }
            _ => {
                // time in milliseconds: limit and time already used
                c.set("kind", 1);
                let l = *r.pick(&[0i64, 1, 100, 500, 999, 1000, 1500, 1999, 5000, 5000000]);
                let used = if r.bool() {
                    l + *r.pick(&[0i64, 1, 50, 400, 500, 1000, 100000])
                } else {
                    0
                };
                let l = if used == 0 { l + 3_600_000 } else { l };
                let used = if used == 0 && r.bool() { r.range(0, l - 1_800_000) } else { used };
                c.set("lim", l).set("used", used);
            }
        }
        if r.chance(1, 4) {
            gen_config(r, &mut c);
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["kind"]
    }
    fn run(&self, c: &Case) -> Outcome {
        let lim = c.get("lim").max(0);
        let free = solve_vec(config(c), &c.cls);
        let Some(f) = &free.solver else {
            return finish(false, vec!["unsat at loading".into()]);
        };
        let sat = match &free.result {
            Ok(Certificate::SAT(_)) => Some(true),
            _ => reference(c.nv(), &c.cls),
        };
        if let Err(e) = judge(c.nv(), &c.cls, sat, &free.result) {
            fail!("without limits: {e}");
        }
        let mut k = config(c);
        let mut tags = vec![];
        let mut hit = false;
        if c.get("kind") == 0 {
            k.c_cls_lim = lim as usize;
            let mut s = match Solver::try_from((k, c.cls.as_slice())) {
                Ok(s) => s,
                Err(e) => fail!("loading with a limit gave {e:?}"),
            };
            let n = s.cdb.derefer(cp::Tusize::NumClause);
            let got = s.solve();
            let end = s.cdb.derefer(cp::Tusize::NumClause);
            match &got {
                Err(SolverError::OutOfMemory) => {
                    ensure!(lim > 0 && lim < 1_000_000, "OutOfMemory with a limit of {lim} clauses");
                    ensure!(
                        end > lim as usize,
                        "OutOfMemory with {end} clauses ({n} loaded) and a limit of {lim}"
                    );
                    hit = true;
                    tags.push(if n > lim as usize {
                        "out of memory at the start"
                    } else {
                        "out of memory later"
                    });
                }
                r => {
                    if let Err(e) = judge(c.nv(), &c.cls, sat, r) {
                        fail!("limit {lim}: {e}");
                    }
                    if lim > 0 && n > lim as usize {
                        fail!("{n} clauses were loaded, the limit is {lim}, the answer is {}", name(r));
                    }
                    tags.push("clause limit not hit");
                }
            }
        } else {
            let used = c.get("used").max(0);
            k.c_timeout = lim as f64 / 1000.0;
            let mut s = match Solver::try_from((k, c.cls.as_slice())) {
                Ok(s) => s,
                Err(e) => fail!("loading with a limit gave {e:?}"),
            };
            let Some(start) = Instant::now().checked_sub(Duration::from_millis(used as u64)) else {
                return Outcome::Skip("the system clock starts too late".into());
            };
            s.state.start = start;
            let stages = f.state.stm.current_stage() > s.state.stm.current_stage();
            if used > 0 && used > lim {
                ensure!(s.state.is_timeout(), "{used} ms used of {lim} ms is no timeout");
            } else if used + 900_000 < lim {
                ensure!(!s.state.is_timeout(), "{used} ms used of {lim} ms is a timeout");
            }
            let got = s.solve();
            match &got {
                Err(SolverError::TimeOut) => {
                    ensure!(
                        start.elapsed() >= Duration::from_millis(lim as u64),
                        "TimeOut after {:?} with a limit of {lim} ms",
                        start.elapsed()
                    );
                    hit = true;
                    tags.push("timeout");
                }
                r => {
                    if let Err(e) = judge(c.nv(), &c.cls, sat, r) {
                        fail!("time limit {lim} ms, {used} ms used: {e}");
                    }
                    if used >= lim && stages {
                        fail!(
                            "a search of {} conflicts was not stopped: limit {lim} ms, {used} ms used before the start",
                            conflicts(&s)
                        );
                    }
                    if name(r) != name(&free.result) {
                        fail!("an unused time limit changes {} to {}", name(&free.result), name(r));
                    }
                    tags.push("time limit not hit");
                }
            }
            if stages {
                tags.push("search of several stages");
            }
        }
        finish(
            hit || free.nontrivial(),
            tags.into_iter().map(|s| s.to_string()).collect(),
        )
    }
}

/// everything observable about a run
fn fingerprint(r: &Result<Certificate, SolverError>, s: &Solver) -> String {
    let mut o = name(r);
    for k in ap::USIZES {
        o.push_str(&format!(" {k:?}={}", s.asg.derefer(k)));
    }
    for k in cp::USIZES {
        o.push_str(&format!(" {k:?}={}", s.cdb.derefer(k)));
    }
    o
}

fn certified(c: &Case, file: &str) -> Config {
    Config {
        use_certification: true,
        io_odir: scratch(),
        io_pfile: file.into(),
        ..config(c)
    }
}

/// one certified run: fingerprint and proof
fn one_run(c: &Case, file: &str) -> Option<(String, Vec<u8>)> {
    let mut s = Solver::try_from((certified(c, file), c.cls.as_slice())).ok()?;
    for o in &c.ops {
        step(&mut s, o);
    }
    let r = s.solve();
    s.save_certification();
    let proof = std::fs::read(scratch().join(file)).unwrap_or_default();
    Some((fingerprint(&r, &s), proof))
}

fn step(s: &mut Solver, o: &[i64]) {
    let v: Vec<i32> = o[1..].iter().map(|l| *l as i32).collect();
    match o[0] {
        0 => {
            s.add_var();
        }
        1 => {
            let _ = s.add_clause(&v);
        }
        _ => {
            if let Some(l) = v.first() {
                let _ = s.add_assignment(*l);
            }
        }
    }
}

/// the fingerprint of a case read from the standard input (a process of its own)
pub fn fingerprint_main() {
    let mut t = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
    let c = Case::decode(&t);
    match one_run(&c, "fp.drat") {
        Some((f, p)) => print!("FP {f} proof {:x}", crate::rng::fnv(&p)),
        None => print!("FP none"),
    }
    let _ = std::fs::remove_dir_all(scratch());
}

fn other_process(c: &Case) -> String {
    use std::io::Write;
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["fingerprint", "C09"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    p.stdin.take().unwrap().write_all(c.encode().as_bytes()).expect("write");
    let o = p.wait_with_output().expect("wait");
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    match s.rfind("FP ") {
        Some(i) => s[i + 3..].to_string(),
        None => format!("died: {:?}", o.status),
    }
}

pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A formula, settings and up to ten more building steps, solved twice with certification; then the original is cloned after some of the steps and the two copies are run in a drawn order and extended differently; one case in twenty is also run in a new process. Compared: answers, models, all published counters, proof bytes; the proof of the original is checked after the clone has been used. Non-trivial: the run had conflicts or eliminations."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40000, 700000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(
            r,
            match idx % 10 {
                0..=2 => 2,
                3..=7 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        let nv = c.get("nv");
        if r.bool() {
            for _ in 0..r.us(1, 10) {
                let o = match r.below(5) {
                    0 => vec![0],
                    k => {
                        let mut o = vec![1 + (k == 1) as i64];
                        for _ in 0..r.us(1, 4) {
                            let l = r.range(1, nv.max(1) + 1);
                            o.push(if r.bool() { l } else { -l });
                        }
                        o
                    }
                };
                c.ops.push(o);
            }
        }
        let at = r.range(0, c.ops.len() as i64);
        c.set("at", at).set("order", r.range(0, 3));
        if idx % 20 == 0 {
            c.set("proc", 1);
        }
        if r.chance(1, 4) {
            gen_config(r, &mut c);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let Some((f1, p1)) = one_run(c, "a.drat") else {
            return finish(false, vec!["unsat at loading".into()]);
        };
        let (f2, p2) = one_run(c, "b.drat").expect("loading");
        ensure!(f1 == f2, "a second run differs:\n{f1}\n{f2}");
        ensure!(p1 == p2, "a second run writes another proof");
        // clones
        let mut s = Solver::try_from((certified(c, "c.drat"), c.cls.as_slice())).expect("loading");
        let mut acc = c.cls.clone();
        let at = (c.get("at").max(0) as usize).min(c.ops.len());
        let run_ops = |s: &mut Solver, acc: &mut Vec<Vec<i32>>, ops: &[Vec<i64>]| {
            for o in ops {
                let v: Vec<i32> = o[1..].iter().map(|l| *l as i32).collect();
                match o[0] {
                    0 => {
                        s.add_var();
                    }
                    1 => {
                        if s.add_clause(&v).is_ok() {
                            acc.push(v);
                        }
                    }
                    _ => {
                        if let Some(l) = v.first()
                            && s.add_assignment(*l).is_ok()
                        {
                            acc.push(vec![*l]);
                        }
                    }
                }
            }
        };
        run_ops(&mut s, &mut acc, &c.ops[..at]);
        let before = content(&s);
        let mut t = s.clone();
        ensure!(content(&t) == before, "a clone holds other clauses");
        let order = c.get("order");
        let mut junk = acc.clone();
        let rt;
        match order {
            0 | 1 => {
                // the clone first; in order 1 the clone is then given other clauses
                if order == 1 {
                    let top = s.asg.num_vars as i64;
                    if top > 1 {
                        let more = [vec![0], vec![1, -top, 1], vec![1, top, -1, -(top + 1)]];
                        run_ops(&mut t, &mut junk, &more);
                    }
                    ensure!(content(&s) == before, "changing a clone changed its original");
                } else {
                    run_ops(&mut t, &mut junk, &c.ops[at..]);
                }
                rt = t.solve();
                t.save_certification();
                drop(t);
            }
            _ => {
                run_ops(&mut t, &mut junk, &c.ops[at..]);
                let mut acc2 = acc.clone();
                run_ops(&mut s, &mut acc2, &c.ops[at..]);
                let rs = s.solve();
                rt = t.solve();
                ensure!(
                    fingerprint(&rs, &s) == fingerprint(&rt, &t),
                    "original and clone differ:\n{}\n{}",
                    fingerprint(&rs, &s),
                    fingerprint(&rt, &t)
                );
                ensure!(fingerprint(&rs, &s) == f1, "the original of a clone differs from a run without clone");
                t.save_certification();
                s.save_certification();
                let p = std::fs::read(scratch().join("c.drat")).unwrap_or_default();
                ensure!(p == p1, "a clone changed the proof of its original");
                return self.done(c, &f1, &p1, rs, &acc2, &s);
            }
        }
        let nvt = gen_cnf::max_var(&junk);
        if order == 0 {
            ensure!(name(&rt) == f1[..name(&rt).len()], "the clone answers {}, the original {f1}", name(&rt));
        } else if matches!(rt, Ok(Certificate::UNSAT)) && reference(nvt, &junk) == Some(true) {
            fail!("an extended clone reports UNSAT for a satisfiable formula");
        }
        run_ops(&mut s, &mut acc, &c.ops[at..]);
        let rs = s.solve();
        ensure!(
            fingerprint(&rs, &s) == f1,
            "the original differs after its clone was used:\n{}\n{f1}",
            fingerprint(&rs, &s)
        );
        s.save_certification();
        let p = std::fs::read(scratch().join("c.drat")).unwrap_or_default();
        ensure!(p == p1, "a clone changed the proof of its original");
        self.done(c, &f1, &p1, rs, &acc, &s)
    }
}

impl C09 {
    fn done(
        &self,
        c: &Case,
        f1: &str,
        p1: &[u8],
        rs: Result<Certificate, SolverError>,
        acc: &[Vec<i32>],
        s: &Solver,
    ) -> Outcome {
        let mut tags = vec![match &rs {
            Ok(Certificate::SAT(_)) => "sat",
            Ok(Certificate::UNSAT) => "unsat",
            _ => "error",
        }];
        match &rs {
            Ok(Certificate::UNSAT) => {
                if p1.len() < 100_000 {
                    let ok = drat::parse(p1).and_then(|st| {
                        drat::check(s.asg.num_vars, acc, &st).map(|_| ())
                    });
                    if let Err(e) = ok {
                        fail!("the proof: {e}");
                    }
                }
            }
            Ok(Certificate::SAT(_)) => (),
            Err(e) => fail!("solve() gave {e:?}"),
        }
        if c.get("proc") != 0 {
            let other = other_process(c);
            let mine = format!("{f1} proof {:x}", crate::rng::fnv(p1));
            ensure!(mine == other, "another process differs:\n{mine}\n{other}");
            tags.push("other process");
        }
        tags.push(match c.get("order") {
            0 => "clone first",
            1 => "clone extended first",
            _ => "original first",
        });
        if !c.ops.is_empty() {
            tags.push("more building steps");
        }
        let nt = conflicts(s) > 0 || s.asg.derefer(ap::Tusize::NumEliminatedVar) > 0;
        finish(nt, tags.into_iter().map(|s| s.to_string()).collect())
    }
}
