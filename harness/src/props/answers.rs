//! C01 (models), C02 (refutations are right), C03 (DRAT certificates).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, scratch},
    ensure, fail, gen_cnf,
    oracle::{drat, refsat},
    rng::Rng,
    util::*,
};
use splr::{Certificate, SatSolverIF, SolveIF, Solver, SolverError};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C01), Box::new(C02), Box::new(C03), Box::new(C27)]
}

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Formulas from ten families (unstructured with units/duplicates/tautologies/gaps, mixed widths, random k-SAT, planted, pigeon hole, parity, colouring, circuit equivalence, implication chains, covering) at four sizes, and easy ones far beyond (clauses of up to 66 000 literals, up to 70 000 variables or 80 000 clauses), renamed and shuffled; a quarter of the cases draw search settings. Non-trivial: satisfiable with at least one conflict or one eliminated variable."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(70000, 1500000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let scale = match idx % 20 {
            0 if idx % 200 == 100 => 4,
            0 => 3,
            1..=6 => 2,
            7..=13 => 1,
            _ => 0,
        };
        // odd settings make hard formulas much harder
        let cfg = r.chance(1, 4);
        let f = gen_cnf::formula(r, if cfg && scale == 3 { 2 } else { scale });
        let mut c = formula_case(&f);
        if cfg {
            gen_config(r, &mut c);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let run = solve_vec(config(c), &c.cls);
        match &run.result {
            Ok(Certificate::SAT(m)) => {
                if let Err(e) = check_model(c.nv(), &c.cls, m) {
                    fail!("{e}");
                }
            }
            Ok(Certificate::UNSAT) => (),
            Err(e) => fail!("solve() gave {e:?}"),
        }
        finish(
            run.nontrivial() && matches!(run.result, Ok(Certificate::SAT(_))),
            run.tags(),
        )
    }
}

pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "As for C01. Non-trivial: reported UNSAT after at least one conflict or elimination, and confirmed by the reference (truth table up to 18 variables, own CDCL solver above)."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(50000, 1500000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        C01.generate(r, idx, t)
    }
    fn run(&self, c: &Case) -> Outcome {
        let run = solve_vec(config(c), &c.cls);
        match &run.result {
            Ok(Certificate::SAT(_)) => (),
            Ok(Certificate::UNSAT) => match refsat::solve(c.nv(), &c.cls, 20_000) {
                refsat::Answer::Sat(m) => {
                    ensure!(
                        crate::oracle::falsified(&c.cls, &m).is_some(),
                        "UNSAT reported for a satisfiable formula"
                    );
                    panic!("reference solver gave a wrong model");
                }
                refsat::Answer::Unsat => (),
                refsat::Answer::Unknown => {
                    return Outcome::Skip("reference solver gave up".into());
                }
            },
            Err(e) => fail!("solve() gave {e:?}"),
        }
        finish(
            run.nontrivial() && matches!(run.result, Ok(Certificate::UNSAT)),
            run.tags(),
        )
    }
}

pub struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "As for C01 with certification on. Non-trivial: UNSAT with a proof of at least two lemmas, every line of which was checked."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40000, 1000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        C01.generate(r, idx, t)
    }
    fn run(&self, c: &Case) -> Outcome {
        let dir = scratch();
        let mut k = config(c);
        k.use_certification = true;
        k.io_odir = dir.clone();
        k.io_pfile = "proof.drat".into();
        let pf = dir.join("proof.drat");
        let _ = std::fs::remove_file(&pf);
        let mut s = match Solver::try_from((k, c.cls.as_slice())) {
            Ok(s) => s,
            Err(Ok(Certificate::UNSAT)) | Err(Err(SolverError::EmptyClause)) => {
                return finish(false, vec!["unsat at loading".into()]);
            }
            Err(e) => fail!("loading gave {e:?}"),
        };
        match s.solve() {
            Ok(Certificate::UNSAT) => (),
            Ok(_) => return finish(false, vec!["sat".into()]),
            Err(e) => fail!("solve() gave {e:?}"),
        }
        s.save_certification();
        let text = std::fs::read(&pf).unwrap_or_default();
        let steps = match drat::parse(&text) {
            Ok(s) => s,
            Err(e) => fail!("{e}"),
        };
        let st = match drat::check(c.nv(), &c.cls, &steps) {
            Ok(st) => st,
            Err(e) => fail!("{e}"),
        };
        let mut tags = vec!["unsat".to_string()];
        if st.rat > 0 {
            tags.push("RAT steps".into());
        }
        if st.missing_deletions > 0 {
            tags.push("missing deletions".into());
        }
        if st.ignored_deletions > 0 {
            tags.push("ignored deletions".into());
        }
        if st.after_conflict > 1 {
            tags.push("steps after refutation".into());
        }
        if steps.len() > 65536 {
            tags.push("longer than the write buffer".into());
        }
        finish(st.lemmas > 1, tags)
    }
}

pub struct C27;
impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "As for C01 with certification on; two cases in five have a clause limit close above the size of the formula or a time limit that ends the search at its first stage. Non-trivial: the run ended with a model or at a limit, after at least five lemmas, and left learnt or changed clauses behind."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40000, 1000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        let mut c = C01.generate(r, idx, t);
        match idx / 20 % 5 {
            0 => {
                let n = c.cls.len() as i64;
                let over = *r.pick(&[5, 20, 60, 2 * n.min(400) + 40]);
                c.set("k_cl", n + r.range(0, over));
            }
            1 => {
                c.set("t0", 1);
            }
            _ => (),
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let dir = scratch();
        let mut k = config(c);
        k.use_certification = true;
        k.io_odir = dir.clone();
        k.io_pfile = "run.drat".into();
        if c.get("t0") != 0 {
            k.c_timeout = 0.0;
        }
        let pf = dir.join("run.drat");
        let _ = std::fs::remove_file(&pf);
        let mut s = match Solver::try_from((k, c.cls.as_slice())) {
            Ok(s) => s,
            Err(Ok(Certificate::UNSAT)) | Err(Err(SolverError::EmptyClause)) => {
                return finish(false, vec!["unsat at loading".into()]);
            }
            Err(Err(SolverError::OutOfMemory)) => {
                return finish(false, vec!["limit at loading".into()]);
            }
            Err(e) => fail!("loading gave {e:?}"),
        };
        let res = s.solve();
        let mut tags = vec![
            match &res {
                Ok(Certificate::SAT(_)) => "sat",
                Ok(Certificate::UNSAT) => "unsat",
                Err(SolverError::OutOfMemory) => "clause limit",
                Err(SolverError::TimeOut) => "time limit",
                Err(e) => fail!("solve() gave {e:?}"),
            }
            .to_string(),
        ];
        let unsat = matches!(res, Ok(Certificate::UNSAT));
        s.save_certification();
        let text = std::fs::read(&pf).unwrap_or_default();
        let mut steps = match drat::parse(&text) {
            Ok(s) => s,
            Err(e) => fail!("{e}"),
        };
        // save_certification closes the file with the empty clause
        match steps.pop() {
            Some(drat::Step::Add(v)) if v.is_empty() => (),
            x => fail!("the certificate ends in {x:?}"),
        }
        let mut d = match drat::derive(c.nv(), &c.cls, &steps) {
            Ok(d) => d,
            Err(e) => fail!("{e}"),
        };
        ensure!(
            !d.refuted || unsat || !matches!(res, Ok(Certificate::SAT(_))),
            "the certificate refutes a formula reported satisfiable"
        );
        // what is left in the solver
        let left = content(&s);
        let mut fresh = 0;
        let input: std::collections::HashSet<Vec<i32>> = c.cls.iter().map(|c| sorted(c)).collect();
        if !d.refuted {
            let mut checked = 0;
            for l in &left {
                if !input.contains(&sorted(l)) {
                    fresh += 1;
                }
                if d.holds(l) || d.rup(l) {
                    continue;
                }
                let mut f = c.cls.clone();
                f.extend(d.rat.iter().cloned());
                ensure!(
                    implies(c.nv(), &f, l) != Some(false),
                    "the clause {l:?} held at the end follows neither from the input nor from the certificate"
                );
                checked += 1;
                if checked > 50 {
                    break;
                }
            }
            if checked > 0 {
                tags.push("not in the certificate".into());
            }
        }
        if let Ok(Certificate::SAT(m)) = &res {
            let mut a = vec![false; c.nv() + 1];
            for l in m {
                a[l.unsigned_abs() as usize] = *l > 0;
            }
            if let Some(l) = crate::oracle::falsified(&left, &a) {
                fail!("the model falsifies the clause {l:?} held at the end");
            }
        }
        if d.stats.rat > 0 {
            tags.push("RAT steps".into());
        }
        if d.refuted {
            tags.push("refuted".into());
        }
        finish(!unsat && d.stats.lemmas >= 5 && fresh > 0, tags)
    }
}
