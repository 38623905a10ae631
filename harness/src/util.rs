//! Shared plumbing between the properties and splr's public API.
use crate::{case::Case, engine, gen_cnf::Formula, oracle, rng::Rng};
use splr::{
    Certificate, Config, PropertyDereference, SolveIF, Solver, SolverError,
    assign::property as ap, cdb::property as cp, state::Stat,
};

pub fn quiet() -> Config {
    Config {
        quiet_mode: true,
        c_timeout: 100_000.0,
        ..Config::default()
    }
}

/// a configuration drawn by the case (parameters `k_*`); defaults where absent
pub fn config(c: &Case) -> Config {
    let mut k = quiet();
    if c.has("k_elim") {
        k.enable_eliminator = c.get("k_elim") != 0;
    }
    if c.has("k_ecl") {
        k.elm_cls_lim = c.get("k_ecl").max(0) as usize;
    }
    if c.has("k_evl") {
        k.elm_grw_lim = c.get("k_evl").max(0) as usize;
    }
    if c.has("k_evo") {
        k.elm_var_occ = c.get("k_evo").max(0) as usize;
    }
    if c.has("k_crl") {
        k.cls_rdc_lbd = c.get("k_crl").max(0) as u16;
    }
    if c.has("k_cr1") {
        k.cls_rdc_rm1 = c.get("k_cr1") as f64 / 100.0;
    }
    if c.has("k_cr2") {
        k.cls_rdc_rm2 = c.get("k_cr2") as f64 / 100.0;
    }
    if c.has("k_rlt") {
        k.rst_lbd_thr = c.get("k_rlt") as f64 / 100.0;
    }
    if c.has("k_vdr") {
        k.vrw_dcy_rat = c.get("k_vdr") as f64 / 1000.0;
    }
    if c.has("k_vds") {
        k.vrw_dcy_stp = c.get("k_vds") as f64 / 100_000.0;
    }
    if c.has("k_cdr") {
        k.crw_dcy_rat = c.get("k_cdr") as f64 / 1000.0;
    }
    if c.has("k_cl") {
        k.c_cls_lim = c.get("k_cl").max(0) as usize;
    }
    if c.has("k_cbt") {
        k.c_cbt_thr = c.get("k_cbt").max(0) as u32;
    }
    k
}

/// some of the search settings away from their defaults
pub fn gen_config(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 4) {
        c.set("k_elim", 0);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 2, 3, 8, 16, 200]);
        c.set("k_ecl", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 2, 4, 8, 20, 100]);
        c.set("k_evl", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 2, 4, 8, 32, 100]);
        c.set("k_evo", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 2, 3, 8, 30]);
        c.set("k_crl", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 5, 20, 50, 90, 100]);
        c.set("k_cr1", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[0i64, 1, 5, 20, 50, 90, 100]);
        c.set("k_cr2", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[10i64, 90, 100, 110, 150, 300, 1000]);
        c.set("k_rlt", v);
    }
    if r.chance(1, 3) {
        let v = *r.pick(&[100i64, 500, 800, 950, 990, 999]);
        c.set("k_vdr", v);
    }
    if r.chance(1, 5) {
        let v = *r.pick(&[0i64, 1, 10, 100]);
        c.set("k_vds", v);
    }
    if r.chance(1, 6) {
        let v = *r.pick(&[100i64, 800, 990]);
        c.set("k_cdr", v);
    }
    if r.chance(1, 6) {
        let v = *r.pick(&[0i64, 1, 4, 1000]);
        c.set("k_cbt", v);
    }
}

pub fn formula_case(f: &Formula) -> Case {
    let mut c = Case::new();
    c.set("nv", crate::gen_cnf::max_var(&f.cls) as i64);
    c.cls = f.cls.clone();
    c
}

#[derive(Debug)]
pub struct Run {
    pub result: Result<Certificate, SolverError>,
    pub solver: Option<Solver>,
    pub early: bool,
}

/// the on-memory route: build from clauses and solve
pub fn solve_vec(config: Config, cls: &[Vec<i32>]) -> Run {
    match Solver::try_from((config, cls)) {
        Ok(mut s) => Run {
            result: s.solve(),
            solver: Some(s),
            early: false,
        },
        Err(e) => Run {
            result: match e {
                Err(SolverError::EmptyClause) => Ok(Certificate::UNSAT),
                e => e,
            },
            solver: None,
            early: true,
        },
    }
}

impl Run {
    pub fn tags(&self) -> Vec<String> {
        let mut t = vec![
            match &self.result {
                Ok(Certificate::SAT(_)) => "sat",
                Ok(Certificate::UNSAT) => "unsat",
                Err(SolverError::OutOfMemory) => "out-of-memory",
                Err(SolverError::TimeOut) => "timeout",
                Err(_) => "error",
            }
            .to_string(),
        ];
        if self.early {
            t.push("unsat at loading".into());
        }
        if let Some(s) = &self.solver {
            let n = conflicts(s);
            t.push(
                match n {
                    0 => "0 conflicts",
                    1..=32 => "1-32 conflicts",
                    33..=256 => "33-256 conflicts",
                    257..=2000 => "257-2000 conflicts",
                    _ => ">2000 conflicts",
                }
                .to_string(),
            );
            if s.asg.derefer(ap::Tusize::NumEliminatedVar) > 0 {
                t.push("eliminated vars".into());
            }
            if s.cdb.derefer(cp::Tusize::NumReduction) > 0 {
                t.push("reduced".into());
            }
            if s.state[Stat::VivifiedClause] > 0 {
                t.push("vivified".into());
            }
            if s.state[Stat::SubsumedClause] > 0 {
                t.push("subsumed".into());
            }
            if s.state[Stat::Simplify] > 1 {
                t.push("simplified in search".into());
            }
        }
        t
    }
    pub fn nontrivial(&self) -> bool {
        self.solver.as_ref().is_some_and(|s| {
            conflicts(s) > 0 || s.asg.derefer(ap::Tusize::NumEliminatedVar) > 0
        })
    }
}

pub fn conflicts(s: &Solver) -> usize {
    s.asg.derefer(ap::Tusize::NumConflict)
}

/// Is `ans` a complete assignment 1..=nv in variable order which satisfies `cls`?
pub fn check_model(nv: usize, cls: &[Vec<i32>], ans: &[i32]) -> Result<(), String> {
    if ans.len() != nv {
        return Err(format!(
            "the answer has {} literals for {nv} variables",
            ans.len()
        ));
    }
    for (i, l) in ans.iter().enumerate() {
        if l.unsigned_abs() as usize != i + 1 {
            return Err(format!(
                "literal {l} stands at the place of variable {}",
                i + 1
            ));
        }
    }
    let mut m = vec![false; nv + 1];
    for l in ans {
        m[l.unsigned_abs() as usize] = *l > 0;
    }
    match oracle::falsified(cls, &m) {
        Some(c) => Err(format!("the answer falsifies the clause {c:?}")),
        None => Ok(()),
    }
}

pub fn finish(nontrivial: bool, tags: Vec<String>) -> engine::Outcome {
    engine::Outcome::Pass { nontrivial, tags }
}

/// what a solver holds at level 0: its assigned literals as units, and its live clauses
pub fn content(s: &Solver) -> Vec<Vec<i32>> {
    use splr::{assign::VarManipulateIF, cdb::ClauseDBIF, types::ClauseIF};
    let mut v: Vec<Vec<i32>> = (1..=s.asg.num_vars)
        .filter(|vi| s.asg.level(*vi) == 0)
        .filter_map(|vi| s.asg.assign(vi).map(|b| vec![if b { vi as i32 } else { -(vi as i32) }]))
        .collect();
    v.extend(
        s.cdb
            .iter()
            .skip(1)
            .filter(|c| !c.is_dead())
            .map(Vec::<i32>::from),
    );
    v
}

/// Is the formula satisfiable? `None` if the reference solver gives up.
pub fn reference(nv: usize, cls: &[Vec<i32>]) -> Option<bool> {
    if nv <= 14 {
        return Some(!oracle::table_empty(&oracle::table(nv, cls)));
    }
    match oracle::refsat::solve(nv, cls, 20_000) {
        oracle::refsat::Answer::Sat(m) => {
            assert!(oracle::falsified(cls, &m).is_none(), "reference model");
            Some(true)
        }
        oracle::refsat::Answer::Unsat => Some(false),
        oracle::refsat::Answer::Unknown => None,
    }
}

/// does `cls` imply the clause `c`?
pub fn implies(nv: usize, cls: &[Vec<i32>], c: &[i32]) -> Option<bool> {
    if c.iter().any(|l| c.contains(&-l)) {
        return Some(true);
    }
    let mut f = cls.to_vec();
    f.extend(c.iter().map(|l| vec![-l]));
    reference(nv, &f).map(|s| !s)
}

/// do two formulas have the same models? A difference is described.
pub fn same_models(nv: usize, a: &[Vec<i32>], b: &[Vec<i32>]) -> Result<(), String> {
    if nv <= 14 {
        let (ta, tb) = (oracle::table(nv, a), oracle::table(nv, b));
        for (w, (x, y)) in ta.iter().zip(&tb).enumerate() {
            let d = x ^ y;
            if d != 0 {
                let k = w * 64 + d.trailing_zeros() as usize;
                let m: Vec<i32> = (0..nv)
                    .map(|v| if k >> v & 1 == 1 { v as i32 + 1 } else { -(v as i32 + 1) })
                    .collect();
                return Err(format!(
                    "{m:?} is a model of the {} only",
                    if x >> d.trailing_zeros() & 1 == 1 { "first" } else { "second" }
                ));
            }
        }
        return Ok(());
    }
    for (x, y, n) in [(a, b, "second"), (b, a, "first")] {
        let set: std::collections::HashSet<Vec<i32>> = x.iter().map(|c| sorted(c)).collect();
        for c in y {
            if !set.contains(&sorted(c)) && implies(nv, x, c) == Some(false) {
                return Err(format!("the clause {c:?} of the {n} is not implied by the other"));
            }
        }
    }
    Ok(())
}

pub fn sorted(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort_unstable();
    c.dedup();
    c
}

/// checks a verdict against the reference (`want`) and a model against the clauses
pub fn judge(
    nv: usize,
    cls: &[Vec<i32>],
    want: Option<bool>,
    got: &Result<Certificate, SolverError>,
) -> Result<(), String> {
    match got {
        Ok(Certificate::SAT(m)) => check_model(nv, cls, m),
        Ok(Certificate::UNSAT) if want == Some(true) => {
            Err("UNSAT reported for a satisfiable formula".into())
        }
        Ok(Certificate::UNSAT) => Ok(()),
        Err(e) => Err(format!("error {e:?} instead of a verdict")),
    }
}

/// the result of loading as a verdict
pub fn early_verdict(e: SolverError) -> Result<Certificate, SolverError> {
    match e {
        SolverError::EmptyClause
        | SolverError::Inconsistent
        | SolverError::RootLevelConflict(_) => Ok(Certificate::UNSAT),
        e => Err(e),
    }
}
