//! C19 (elimination and subsumption), C20 (vivification), C25 (minimisation): the processors,
//! run in any order on a solver that holds learnt clauses and root assignments.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier},
    fail, gen_cnf,
    lab::*,
    oracle,
    rng::Rng,
    util::*,
};
use splr::{
    Config, Solver,
    assign::{AssignIF, PropagateIF, VarManipulateIF},
    cdb::{ClauseDBIF, VivifyIF},
    processor::{EliminateIF, Eliminator},
    state::Stat,
    types::*,
};
use std::collections::BTreeSet;

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C19), Box::new(C20), Box::new(C25)]
}

const LEARN: i64 = 0;
const UNIT: i64 = 1;
const VIVIFY: i64 = 2;
const ELIMINATE: i64 = 3;
const RESET: i64 = 4;
const STAGE: i64 = 5;
const MODE: i64 = 6;
const RANK: i64 = 7;
const PROPAGATE: i64 = 8;

/// a solver between processors, and the problem it was given
struct Bench {
    s: Solver,
    nv: usize,
    /// the clauses given and the root assignments made
    formula: Vec<Vec<i32>>,
    eliminated: BTreeSet<usize>,
    tags: BTreeSet<&'static str>,
    nontrivial: bool,
}

/// the live clauses: all, or those which no reduction forgets. Those are the clauses that are
/// not learnt, and the binary ones: a clause of the problem may be dropped in favour of a
/// learnt one of two literals that has become equal to it.
fn live(s: &Solver, all: bool) -> Vec<Vec<i32>> {
    s.cdb
        .iter()
        .skip(1)
        .filter(|c| !c.is_dead() && (all || c.len() == 2 || !c.is(FlagClause::LEARNT)))
        .map(Vec::<i32>::from)
        .collect()
}

fn roots(s: &Solver) -> Vec<Vec<i32>> {
    (1..=s.asg.num_vars)
        .filter_map(|vi| s.asg.assign(vi).map(|b| vec![if b { vi as i32 } else { -(vi as i32) }]))
        .collect()
}

/// the root assignments and the clauses which are never forgotten
fn lasting(s: &Solver) -> Vec<Vec<i32>> {
    let mut v = roots(s);
    v.extend(live(s, false));
    v
}

fn everything(s: &Solver) -> Vec<Vec<i32>> {
    let mut v = roots(s);
    v.extend(live(s, true));
    v
}

enum Step {
    Fine,
    Over,
    Bad(String),
}

impl Bench {
    fn new(c: &Case, k: Config) -> Result<Bench, Outcome> {
        let Ok(s) = Solver::try_from((k, c.cls.as_slice())) else {
            return Err(finish(false, vec!["unsat at loading".into()]));
        };
        let nv = s.asg.num_vars;
        if nv == 0 {
            return Err(finish(false, vec!["no variables".into()]));
        }
        Ok(Bench {
            s,
            nv,
            formula: c.cls.clone(),
            eliminated: BTreeSet::new(),
            tags: BTreeSet::new(),
            nontrivial: false,
        })
    }
    fn free(&self) -> Vec<usize> {
        (1..=self.nv)
            .filter(|v| self.s.asg.assign(*v).is_none() && !self.s.asg.var(*v).is(FlagVar::ELIMINATED))
            .collect()
    }
    /// a clause over unassigned variables which the permanent content implies
    fn learn(&mut self, o: &[i64]) {
        if self.s.asg.remains() {
            return;
        }
        let free = self.free();
        let open = |l: &i32| free.contains(&(l.unsigned_abs() as usize));
        let arg = |i: usize| o.get(i).copied().unwrap_or(0).unsigned_abs() as usize;
        let db: Vec<Vec<i32>> = live(&self.s, true);
        let mut v: Vec<i32> = match arg(1) % 4 {
            0 | 1 if !db.is_empty() => {
                // a live clause without one of its literals, or with more of them
                let mut v = db[arg(2) % db.len()].clone();
                if !v.is_empty() {
                    v.remove(arg(3) % v.len());
                }
                if arg(1) % 4 == 1 && !free.is_empty() {
                    let x = free[arg(4) % free.len()] as i32;
                    v.push(if arg(3) % 2 == 0 { x } else { -x });
                }
                v
            }
            2 if !db.is_empty() => {
                // a resolvent
                let a = &db[arg(2) % db.len()];
                let l = a[arg(3) % a.len()];
                let with: Vec<&Vec<i32>> = db.iter().filter(|b| b.contains(&-l)).collect();
                if with.is_empty() {
                    return;
                }
                let b = with[arg(4) % with.len()];
                a.iter().chain(b.iter()).copied().filter(|x| x.abs() != l.abs()).collect()
            }
            _ => {
                if free.is_empty() {
                    return;
                }
                (2..5)
                    .map(|i| {
                        let x = free[arg(i) % free.len()] as i32;
                        if arg(i) / 64 % 2 == 0 { x } else { -x }
                    })
                    .collect()
            }
        };
        v.sort_unstable();
        v.dedup();
        v.retain(open);
        if v.len() < 2 || v.iter().any(|l| v.contains(&-l)) {
            return;
        }
        if implies(self.nv, &lasting(&self.s), &v) != Some(true) {
            return;
        }
        let mut lits: Vec<Lit> = v.iter().map(|l| lit(*l)).collect();
        self.s.cdb.new_clause(&mut self.s.asg, &mut lits, true);
        self.tags.insert("learnt clauses");
    }
    fn unit(&mut self, o: &[i64]) {
        let free = self.free();
        if free.is_empty() {
            return;
        }
        let x = free[o.get(1).unwrap_or(&0).unsigned_abs() as usize % free.len()] as i32;
        let l = if o.get(2).unwrap_or(&0) % 2 == 0 { x } else { -x };
        if self.s.asg.assign_at_root_level(lit(l)).is_ok() {
            self.formula.push(vec![l]);
            self.tags.insert("root assignments");
        }
    }
    fn rank(&mut self, o: &[i64]) {
        let arg = |i: usize| o.get(i).copied().unwrap_or(0).unsigned_abs() as usize;
        for (i, c) in self.s.cdb.iter_mut().enumerate().skip(1) {
            if c.is_dead() || (i + arg(1)) % (arg(2) % 3 + 1) != 0 {
                continue;
            }
            c.rank = (1 + arg(3) % 6) as u16;
            c.used = (arg(1) % 8) as u16;
        }
    }
    fn vivify(&mut self) -> Step {
        let before = lasting(&self.s);
        let all = everything(&self.s);
        let clauses: Vec<BTreeSet<i32>> = live(&self.s, true)
            .iter()
            .map(|c| c.iter().copied().collect())
            .collect();
        if let Err(e) = self.s.cdb.vivify(&mut self.s.asg, &mut self.s.state) {
            if reference(self.nv, &self.formula) == Some(true)
                || reference(self.nv, &before) == Some(true)
            {
                return Step::Bad(format!("vivification answers {e} on a satisfiable database"));
            }
            self.tags.insert("unsat in vivification");
            return Step::Over;
        }
        if self.s.asg.decision_level() != 0 {
            return Step::Bad(format!("vivification leaves level {}", self.s.asg.decision_level()));
        }
        let after = lasting(&self.s);
        if let Err(e) = same_models(self.nv, &before, &after) {
            return Step::Bad(format!(
                "vivification changes the problem: {e} (first: before, second: after)"
            ));
        }
        if let Err(e) = same_models(self.nv, &all, &everything(&self.s)) {
            return Step::Bad(format!("vivification changes the database: {e}"));
        }
        let mut same = true;
        for c in live(&self.s, true) {
            let c: BTreeSet<i32> = c.into_iter().collect();
            if clauses.contains(&c) {
                continue;
            }
            same = false;
            if !clauses.iter().any(|b| c.is_subset(b)) {
                return Step::Bad(format!(
                    "vivification adds {c:?} which is not part of any earlier clause"
                ));
            }
        }
        if !same {
            self.tags.insert("clauses shortened");
        }
        if roots(&self.s).len() > all.iter().filter(|c| c.len() == 1).count() {
            self.tags.insert("literals asserted");
        }
        if !same || roots(&self.s).len() > all.iter().filter(|c| c.len() == 1).count() {
            self.tags.insert("vivified");
        }
        Step::Fine
    }
    fn eliminate(&mut self, o: &[i64]) -> Step {
        let was = self.eliminated.len();
        let number = live(&self.s, true).len();
        let Solver {
            asg, cdb, state, ..
        } = &mut self.s;
        let mut elim = Eliminator::instantiate(&state.config, &state.cnf);
        if o.get(1).unwrap_or(&0) % 2 == 1 {
            elim.prepare(asg, cdb, o.get(2).unwrap_or(&0) % 4 != 0);
        }
        if let Err(e) = elim.simplify(asg, cdb, state, false) {
            if reference(self.nv, &self.formula) == Some(true) {
                return Step::Bad(format!("elimination answers {e} on a satisfiable formula"));
            }
            self.tags.insert("unsat in elimination");
            return Step::Over;
        }
        asg.eliminated.append(elim.eliminated_lits());
        self.eliminated = (1..=self.nv)
            .filter(|v| self.s.asg.var(*v).is(FlagVar::ELIMINATED))
            .collect();
        if was < self.eliminated.len() {
            self.tags.insert("eliminated");
        }
        if elim.num_subsumed > 0 {
            self.tags.insert("subsumed");
        }
        if number < live(&self.s, true).len() {
            self.tags.insert("more clauses than before");
        }
        Step::Fine
    }
    /// the remainder against the formula
    fn remainder(&self) -> Result<(), String> {
        let all = everything(&self.s);
        for c in &all {
            for l in c {
                if self.eliminated.contains(&(l.unsigned_abs() as usize)) {
                    return Err(if c.len() == 1 {
                        format!("the eliminated variable {} has a value", l.abs())
                    } else {
                        format!("the clause {c:?} mentions the eliminated variable {}", l.abs())
                    });
                }
            }
        }
        let last = lasting(&self.s);
        let want = reference(self.nv, &self.formula);
        let (a, b) = (reference(self.nv, &all), reference(self.nv, &last));
        for (g, what) in [(a, "all remaining clauses"), (b, "the remaining clauses that are never forgotten")]
        {
            if let (Some(w), Some(g)) = (want, g)
                && w != g
            {
                return Err(format!(
                    "the formula is {}, {what} are {}",
                    if w { "satisfiable" } else { "unsatisfiable" },
                    if g { "satisfiable" } else { "unsatisfiable" }
                ));
            }
        }
        if b != Some(true) {
            return Ok(());
        }
        for m in models(self.nv, &last) {
            self.extend(&m)?;
        }
        Ok(())
    }
    /// extends one model of the remainder
    fn extend(&self, m: &[bool]) -> Result<(), String> {
        let mut asg = self.s.asg.clone();
        let mut cdb = self.s.cdb.clone();
        for v in self.free() {
            asg.assign_by_decision(lit(if m[v] { v as i32 } else { -(v as i32) }));
        }
        let e = asg.extend_model(&mut cdb);
        let mut full = vec![false; self.nv + 1];
        for v in 1..=self.nv {
            match e.get(v).copied().flatten() {
                None => return Err(format!("variable {v} gets no value in the extended model")),
                Some(b) => {
                    full[v] = b;
                    if !self.eliminated.contains(&v) && b != m[v] {
                        return Err(format!("extending a model changes variable {v}"));
                    }
                }
            }
        }
        match oracle::falsified(&self.formula, &full) {
            Some(c) => Err(format!(
                "a model of the remaining clauses is extended to {:?}, which falsifies {c:?}",
                (1..=self.nv).map(|v| if full[v] { v as i32 } else { -(v as i32) }).collect::<Vec<_>>()
            )),
            None => Ok(()),
        }
    }
    fn tags(&self) -> Vec<String> {
        self.tags.iter().map(|s| s.to_string()).collect()
    }
}

/// some models of a satisfiable formula
fn models(nv: usize, f: &[Vec<i32>]) -> Vec<Vec<bool>> {
    let mut out = Vec::new();
    if nv <= 14 {
        let t = oracle::table(nv, f);
        let all: Vec<usize> = (0..1usize << nv)
            .filter(|k| t[k / 64] >> (k % 64) & 1 == 1)
            .collect();
        let step = (all.len() / 12).max(1);
        for k in all.iter().step_by(step).chain(all.last()) {
            out.push((0..=nv).map(|v| v > 0 && k >> (v - 1) & 1 == 1).collect());
        }
        return out;
    }
    for phase in [true, false] {
        // models with as many variables as possible at one value, greedily
        let mut g = f.to_vec();
        for v in (1..=nv as i32).step_by(nv.div_ceil(8)) {
            g.push(vec![if phase { v } else { -v }]);
            if reference(nv, &g) != Some(true) {
                g.pop();
            }
        }
        if let oracle::refsat::Answer::Sat(m) = oracle::refsat::solve(nv, &g, 20_000) {
            out.push(m);
        }
    }
    out
}

fn one(b: &mut Bench, o: &[i64]) -> Step {
    match o.first().copied().unwrap_or(0) {
        LEARN => b.learn(o),
        UNIT => b.unit(o),
        VIVIFY => return b.vivify(),
        ELIMINATE => return b.eliminate(o),
        RESET => {
            if !b.s.asg.remains() {
                b.s.cdb.reset();
            }
        }
        STAGE => {
            for _ in 0..o.get(1).unwrap_or(&0) % 40 {
                b.s.state.stm.prepare_new_stage(0);
            }
        }
        MODE => {
            b.s.state[Stat::Restart] = (o.get(1).unwrap_or(&0) % 2) as usize;
            b.s.state[Stat::Vivification] = (o.get(2).unwrap_or(&0) % 34) as usize;
        }
        RANK => b.rank(o),
        PROPAGATE => {
            if b.s.asg.propagate_sandbox(&mut b.s.cdb).is_err() {
                return Step::Over;
            }
            if b.s.asg.clear_asserted_literals(&mut b.s.cdb).is_err() {
                return Step::Over;
            }
        }
        _ => (),
    }
    Step::Fine
}

fn small_formula(r: &mut Rng) -> gen_cnf::Formula {
    loop {
        let f = if r.chance(1, 3) {
            let n = r.us(8, 14);
            let m = n * r.us(8, 40) / 10;
            let w = r.us(3, 9);
            gen_cnf::Formula {
                nv: n,
                cls: gen_cnf::mixed(r, n, m, w),
                family: "mixed",
            }
        } else {
            let s = r.weighted(&[2, 3]);
            gen_cnf::formula(r, s)
        };
        if f.nv <= 14 {
            return f;
        }
    }
}

fn operations(r: &mut Rng, c: &mut Case, w: &[usize; 9]) {
    for _ in 0..r.us(1, 12) {
        let code = r.weighted(w) as i64;
        c.ops.push(vec![
            code,
            r.range(0, 100_000),
            r.range(0, 100_000),
            r.range(0, 100_000),
            r.range(0, 100_000),
        ]);
    }
}

fn limits(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 4) {
        let v = *r.pick(&[0i64, 1, 2, 3, 8, 200]);
        c.set("k_ecl", v);
    }
    if r.chance(1, 4) {
        let v = *r.pick(&[0i64, 1, 2, 4, 8, 100]);
        c.set("k_evl", v);
    }
    if r.chance(1, 4) {
        let v = *r.pick(&[0i64, 1, 2, 4, 32, 100]);
        c.set("k_evo", v);
    }
}

pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A formula (mostly up to 14 variables; one in 16 larger) in a solver, then a history of elimination runs, vivification, implied learnt clauses (weakened and strengthened live clauses, resolvents, random short clauses), root assignments, resets and later restart stages (which raise the growth limit), under drawn limits. After each elimination no live clause or root assignment mentions an eliminated variable, the remainder (all of it, and without the learnt clauses over two literals, which may be forgotten) is satisfiable iff the formula with the root assignments is, and up to 13 models of the remainder are extended and evaluated on the formula. Non-trivial: a variable was eliminated or a clause subsumed."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(700_000, 10_000_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = if idx % 16 == 0 {
            let s = if idx % 320 == 0 { 2 } else { 1 };
            gen_cnf::formula(r, s)
        } else {
            small_formula(r)
        };
        let mut c = formula_case(&f);
        operations(r, &mut c, &[6, 1, 2, 5, 1, 2, 0, 0, 1]);
        c.ops.push(vec![ELIMINATE, r.range(0, 1000), r.range(0, 1000)]);
        limits(r, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let mut b = match Bench::new(c, config(c)) {
            Ok(b) => b,
            Err(o) => return o,
        };
        for o in &c.ops {
            let vivified = o.first() == Some(&VIVIFY);
            match one(&mut b, o) {
                Step::Fine => (),
                // vivification is C20's
                Step::Bad(_) if vivified => return finish(false, b.tags()),
                Step::Bad(e) => fail!("{e}"),
                Step::Over => break,
            }
            if o.first() == Some(&ELIMINATE)
                && let Err(e) = b.remainder()
            {
                fail!("after elimination {e}");
            }
        }
        let nt = b.tags.contains("eliminated") || b.tags.contains("subsumed");
        finish(nt, b.tags())
    }
}

pub struct C20;
impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Histories as for C19 with more vivification, in the initial mode (one clause per leading literal) and in the later modes (by rank and use, with the round varied), with ranks and use counts of clauses drawn. Before and after each vivification the content without learnt clauses over two literals must have the same models, and so must all of it; every new clause must be part of an earlier one; an error must stand for an unsatisfiable formula. Non-trivial: a clause was shortened or a literal asserted."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_500_000, 12_000_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = if idx % 8 == 0 {
            let s = if idx % 320 == 0 { 2 } else { 1 };
            gen_cnf::formula(r, s)
        } else {
            small_formula(r)
        };
        let mut c = formula_case(&f);
        operations(r, &mut c, &[6, 1, 5, 1, 1, 1, 3, 3, 1]);
        c.ops.push(vec![VIVIFY]);
        limits(r, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let mut b = match Bench::new(c, config(c)) {
            Ok(b) => b,
            Err(o) => return o,
        };
        for o in &c.ops {
            let eliminated = o.first() == Some(&ELIMINATE);
            match one(&mut b, o) {
                Step::Fine => (),
                // elimination is C19's
                Step::Bad(_) if eliminated => return finish(false, b.tags()),
                Step::Bad(e) => fail!("{e}"),
                Step::Over => break,
            }
        }
        finish(b.tags.contains("vivified"), b.tags())
    }
}

pub struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "A clause database rich in binary clauses (up to 14 variables), random decisions with propagation until a conflict or none is left, then clauses drawn from the falsified literals (the leading one at the highest level, as conflict analysis leaves it), each shortened with the binary clauses of the database; learnt clauses are registered between the calls. The result must be a subset which keeps the leading literal and which the database implies together with the original. In a quarter of the cases binary clauses are learnt in a driver built with feature bi_clause_completion and their network is completed: every clause the database then holds must follow from the formula and the learnt clauses. Non-trivial: at least one clause got shorter, or was added by completion."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_500_000, 16_000_000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let n = r.us(3, 14);
        let mut c = Case::new();
        c.set("nv", n as i64);
        if r.chance(1, 4) {
            // completion: binary clauses are learnt, then their network is completed
            c.set("completion", 1);
            let m = n * r.us(2, 12) / 10;
            c.cls = gen_cnf::ksat(r, n, 2, m);
            let k = n * r.us(0, 15) / 10;
            c.cls.extend(gen_cnf::ksat(r, n, 3, k));
            for _ in 0..r.us(1, 4) {
                let m = r.us(1, 4);
                for l in gen_cnf::ksat(r, n, 2, m) {
                    c.ops.push(vec![0, l[0] as i64, l[1] as i64]);
                }
                c.ops.push(vec![0]);
            }
            return c;
        }
        let m = n * r.us(3, 25) / 10;
        c.cls = gen_cnf::ksat(r, n, 2, m);
        let k = n * r.us(0, 20) / 10;
        c.cls.extend(gen_cnf::ksat(r, n, 3, k));
        c.ops = (0..r.us(2, 14))
            .map(|_| {
                vec![
                    r.weighted(&[3, 5, 1, 1]) as i64,
                    r.range(0, 100_000),
                    r.range(0, 100_000),
                    r.range(1, 9),
                ]
            })
            .collect();
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["completion"]
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.has("completion") {
            return super::variants::completion(c);
        }
        let mut b = match Bench::new(c, config(c)) {
            Ok(b) => b,
            Err(o) => return o,
        };
        let db = {
            let mut v = live(&b.s, true);
            v.extend(roots(&b.s));
            v
        };
        if b.s.asg.remains() && b.s.asg.propagate(&mut b.s.cdb).is_err() {
            return finish(false, vec!["unsat at level 0".into()]);
        }
        let mut over = false;
        let mut shorter = false;
        for o in &c.ops {
            let arg = |i: usize| o.get(i).copied().unwrap_or(0).unsigned_abs() as usize;
            match arg(0) {
                0 if !over => {
                    let free = b.free();
                    if free.is_empty() {
                        continue;
                    }
                    let x = free[arg(1) % free.len()] as i32;
                    b.s.asg.assign_by_decision(lit(if arg(2) % 2 == 0 { x } else { -x }));
                    if b.s.asg.propagate(&mut b.s.cdb).is_err() {
                        over = true;
                    }
                }
                0 | 1 => {
                    let mut rng = Rng::new(arg(1) as u64 * 7919 + arg(2) as u64);
                    let mut v: Vec<i32> = (1..=b.nv)
                        .filter(|v| b.s.asg.level(*v) > 0)
                        .filter_map(|v| b.s.asg.assign(v).map(|t| if t { -(v as i32) } else { v as i32 }))
                        .collect();
                    rng.shuffle(&mut v);
                    v.truncate(arg(3).max(2));
                    if v.len() < 2 {
                        continue;
                    }
                    if let Some(p) =
                        (0..v.len()).max_by_key(|i| b.s.asg.level(v[*i].unsigned_abs() as usize))
                    {
                        v.swap(0, p);
                    }
                    let mut lits: Vec<Lit> = v.iter().map(|l| lit(*l)).collect();
                    b.s.cdb.minimize_with_bi_clauses(&b.s.asg, &mut lits);
                    let w = ints(&lits);
                    if w.first() != v.first() {
                        fail!("minimising {v:?} gives {w:?} without its leading literal in front");
                    }
                    let mut set: BTreeSet<i32> = v.iter().copied().collect();
                    for l in &w {
                        if !set.remove(l) {
                            fail!("minimising {v:?} gives {w:?}, which is not a part of it");
                        }
                    }
                    if w.len() < v.len() {
                        shorter = true;
                        let mut all = db.clone();
                        all.push(v.clone());
                        if implies(b.nv, &all, &w) == Some(false) {
                            fail!("minimising {v:?} gives {w:?}, which {db:?} and it do not imply");
                        }
                    }
                }
                2 => {
                    // a known clause once more, as learnt
                    let live = live(&b.s, true);
                    if live.is_empty() {
                        continue;
                    }
                    let mut v: Vec<Lit> = live[arg(1) % live.len()].iter().map(|l| lit(*l)).collect();
                    if v.iter().filter(|l| b.s.asg.assigned(**l).is_none()).count() < 2 {
                        continue;
                    }
                    v.sort_by_key(|l| b.s.asg.assigned(*l).is_some());
                    b.s.cdb.new_clause(&mut b.s.asg, &mut v, true);
                }
                _ => {
                    b.s.asg.cancel_until(0);
                    over = false;
                }
            }
        }
        finish(shorter, if over { vec!["conflict".into()] } else { vec![] })
    }
}
