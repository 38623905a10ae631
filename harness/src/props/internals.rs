//! C17 (propagation), C18 (clause database), C21 (forgetting), C23 (decision order),
//! C25 (minimisation): the parts of the solver, driven directly.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier},
    ensure, fail, gen_cnf,
    lab::*,
    rng::Rng,
    util::*,
};
use splr::{
    SolveIF, Solver,
    assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF},
    cdb::{ClauseDB, ClauseDBIF, VivifyIF},
    processor::{EliminateIF, Eliminator},
    types::*,
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(C17),
        Box::new(C18),
        Box::new(C21),
        
    ]
}

/// the operands of a clause over `n` variables
fn clause_op(r: &mut Rng, code: i64, n: usize, len: usize) -> Vec<i64> {
    let mut v = vec![code];
    for _ in 0..len {
        v.push(r.range(0, 2 * n as i64 - 1));
    }
    v
}

fn clause_len(r: &mut Rng) -> usize {
    match r.weighted(&[1, 8, 16, 6, 3, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        4 => r.us(5, 9),
        _ => r.us(10, 30),
    }
}

/// a history: first some clauses, then operations by the given weights
pub fn history(r: &mut Rng, c: &mut Case, weights: &[usize; 15], scale: usize) {
    let nv = match scale {
        0 => r.us(2, 7),
        1 => r.us(5, 16),
        2 => r.us(12, 40),
        _ => r.us(270, 500),
    };
    c.set("nv", nv as i64);
    if scale == 3 {
        // hundreds of levels
        for _ in 0..6 {
            let k = r.us(20, 120);
            let o = clause_op(r, 0, nv, k);
            c.ops.push(o);
        }
    }
    let density = if scale == 3 { r.us(0, 2) } else { r.us(8, 45) };
    let first = nv * density / 10;
    for _ in 0..first {
        let k = clause_len(r).min(2 * nv);
        let k = if k == 1 && r.chance(4, 5) { 3 } else { k };
        let o = clause_op(r, 0, nv, k);
        c.ops.push(o);
    }
    let n = match scale {
        0 => r.us(5, 40),
        1 => r.us(10, 80),
        2 => r.us(20, 150),
        _ => r.us(280, 560),
    };
    for _ in 0..n {
        let code = r.weighted(weights) as i64;
        let o = match code {
            0 => {
                let k = clause_len(r);
                clause_op(r, 0, nv + 2, k)
            }
            10 => {
                let k = clause_len(r).max(2);
                clause_op(r, 10, nv, k)
            }
            11 => {
                let k = r.us(1, 9);
                let mut o = clause_op(r, 11, nv, k);
                o.insert(1, r.range(0, 1000));
                o
            }
            _ => vec![
                code,
                r.range(0, 1_000_000),
                r.range(0, 1_000_000),
                r.range(0, 1_000_000),
                r.range(0, 1),
            ],
        };
        c.ops.push(o);
    }
}

pub fn set_lab_config(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 3) {
        let v = *r.pick(&[100i64, 500, 800, 950, 990, 999]);
        c.set("k_vdr", v);
    }
}

pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Histories of clauses, decisions (chosen or by the stack's own order), propagations, backtracks to any level, root assignments, removals, weakened learnt copies and new variables over 2-42 variables on an assignment stack and a clause database; every conflict is followed by learning the decisions behind it, a backjump and its assertion. After each propagation the assignment is compared with a naive fixpoint of unit resolution; reasons, levels and falsified clauses are checked, and after each backtrack the assignment is compared with the recorded one. One case in 400 uses a clause of over 65000 literals, one in 50 two clauses of 60-1200 literals falsified in runs. Non-trivial: at least one conflict and one backtrack over two or more levels."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 12_000_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        if idx % 400 == 7 {
            c.set("giant", 65_534 + r.range(0, 9));
            c.set("order", r.range(0, 3));
            c.set("seed", r.range(0, 1 << 30));
            return c;
        }
        if idx % 50 == 9 {
            c.set("long", *r.pick(&[60, 130, 250, 255, 256, 257, 300, 513, 700, 1200]) + r.range(0, 5));
            c.set("seed", r.range(0, 1 << 30));
            let n = r.range(2, 14);
            for _ in 0..n {
                // literals denied one by one, then a backtrack
                c.ops.push(vec![r.range(0, 1000), r.range(0, 2), r.range(0, 1000)]);
            }
            return c;
        }
        let scale = r.weighted(&[3, 5, 3]);
        history(r, &mut c, &[1, 40, 15, 12, 3, 2, 1, 1, 0, 0, 0, 1, 0, 0, 5], scale);
        set_lab_config(r, &mut c);
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["giant", "long"]
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.has("giant") {
            return giant(c);
        }
        if c.has("long") {
            return long(c);
        }
        let watch = Watch {
            propagation: true,
            ..Watch::default()
        };
        let mut lab = Lab::new(c.nv().max(1), &config(c), watch);
        if let Err(e) = lab.run(&c.ops) {
            fail!("{e}");
        }
        let nt = lab.stats.contains_key("conflicts")
            && lab.stats.contains_key("multi-level backtracks");
        finish(nt, lab.tags())
    }
}

/// two long clauses of the same positive literals in different orders; runs of denied literals
/// (each followed by a propagation) alternate with backtracks, so that the search for a new
/// watched literal starts anywhere and has to come round
fn long(c: &Case) -> Outcome {
    let n = c.get("long").max(5) as usize;
    let cnf = CNFDescription {
        num_of_variables: n,
        ..CNFDescription::default()
    };
    let k = config(c);
    let mut asg = AssignStack::instantiate(&k, &cnf);
    let mut cdb = ClauseDB::instantiate(&k, &cnf);
    let mut r = Rng::new(c.get("seed") as u64);
    let mut second: Vec<i32> = (1..=n as i32 - 1).collect();
    r.shuffle(&mut second);
    for c in [(1..=n as i32).collect(), second.clone()] {
        let mut v: Vec<Lit> = c.iter().map(|l: &i32| lit(*l)).collect();
        cdb.new_clause(&mut asg, &mut v, false);
    }
    let (mut came_round, mut implied) = (false, false);
    for (i, o) in c.ops.iter().enumerate() {
        let mut order: Vec<i32> = (1..=n as i32).collect();
        match o[1] {
            0 => (),
            1 => order = second.clone(),
            _ => r.shuffle(&mut order),
        }
        let mut todo = o[0].max(0) as usize * n / 900;
        for v in order {
            if todo == 0 {
                break;
            }
            if asg.assign(v as usize).is_some() {
                continue;
            }
            todo -= 1;
            asg.assign_by_decision(lit(-v));
            if asg.propagate(&mut cdb).is_err() {
                fail!("run {i}: a conflict after denying {v}, which was open");
            }
            // the first clause has one literal more, so both are unit at the second's last
            let open = |m: usize| (1..=m).filter(|x| asg.assign(*x) != Some(false)).count();
            let (a, b) = (open(n), open(n - 1));
            let yes: Vec<usize> = (1..=n).filter(|x| asg.assign(*x) == Some(true)).collect();
            let want = (a == 1 || b == 1) as usize;
            ensure!(
                yes.len() == want && yes.iter().all(|x| *x != n || a == 1),
                "run {i}: after denying {v}, with {a} and {b} literals not false, {yes:?} are true"
            );
            implied |= want == 1;
        }
        let dl = asg.decision_level() as i64;
        if dl > 0 {
            let to = o[2].max(0) * dl / 1000;
            came_round |= to > 0;
            asg.cancel_until(to as u32);
            ensure!(
                asg.propagate(&mut cdb).is_ok(),
                "run {i}: a conflict after backtracking to level {to}"
            );
        }
    }
    let mut tags = vec!["long clauses".to_string()];
    if implied {
        tags.push("long clauses: unit".into());
    }
    finish(came_round, tags)
}

/// one clause of n literals, all but one falsified in an order that moves its watches along
fn giant(c: &Case) -> Outcome {
    let n = c.get("giant").max(10) as usize;
    let cnf = CNFDescription {
        num_of_variables: n,
        ..CNFDescription::default()
    };
    let k = config(c);
    let mut asg = AssignStack::instantiate(&k, &cnf);
    let mut cdb = ClauseDB::instantiate(&k, &cnf);
    let mut v: Vec<Lit> = (1..=n as i32).map(lit).collect();
    cdb.new_clause(&mut asg, &mut v, false);
    let mut r = Rng::new(c.get("seed") as u64);
    // variables falsified in steps; the last one is left
    let mut order: Vec<i32> = (1..=n as i32).collect();
    match c.get("order") {
        0 => {
            // the unwatched ones up to the end first, then the watched
            order = (3..=n as i32 - 2).chain([1, 2]).collect();
            let mut tail = vec![n as i32 - 1, n as i32];
            if r.bool() {
                tail.reverse();
            }
            order.extend(tail);
        }
        1 => order.reverse(),
        2 => (),
        _ => r.shuffle(&mut order),
    }
    let left = order.pop().unwrap();
    let cut: Vec<usize> = {
        // where to propagate: after all but a few, then one by one
        let few = r.us(1, 12);
        (n - 1 - few..n - 1).collect()
    };
    for (i, x) in order.iter().enumerate() {
        ensure!(
            asg.assign(*x as usize).is_none(),
            "{x} got assigned although two literals are open"
        );
        asg.assign_by_decision(lit(-*x));
        if (cut.contains(&i) || i + 1 == order.len()) && asg.propagate(&mut cdb).is_err() {
            fail!("a conflict although {left} is open");
        }
    }
    ensure!(
        asg.assign(left as usize) == Some(true),
        "all literals but {left} of the clause of {n} literals are false, and {left} is {:?}",
        asg.assign(left as usize)
    );
    finish(true, vec!["giant clause".into()])
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Histories as in C17 with more changes to the database: registering (also again), removing, dropping a literal that is false at level 0, replacing by a shorter clause, simplifying one or all clauses by level 0, temporary clauses, learning, forgetting. After every operation live clauses, watches, links and counts are compared with a model. A fifth of the cases run the real preprocessing, vivification and search on a generated formula and check watches, links and counts of what they leave. Non-trivial: at least three kinds of change happened, or the solver had conflicts or eliminated or vivified something."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(800_000, 8_000_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        if idx % 5 == 0 {
            let scale = r.weighted(&[3, 4, 3]);
            let f = gen_cnf::formula(r, scale);
            let mut c = formula_case(&f);
            c.set("mode", r.range(1, 3));
            let n = f.nv as i64;
            let hidden = c.get("mode") > 1 && r.chance(1, 2);
            if hidden {
                // elimination of n+2 finds the unit -(n+1), which shortens learnt clauses
                c.cls.push(vec![n as i32 + 2, -(n as i32 + 1)]);
                c.cls.push(vec![-(n as i32 + 2), -(n as i32 + 1)]);
            }
            for _ in 0..r.us(0, 4) {
                let with = hidden && r.chance(2, 3);
                c.ops.push(vec![0, r.range(0, 10000), r.range(0, 100), if with { n + 1 } else { 0 }]);
            }
            if r.chance(1, 3) {
                gen_config(r, &mut c);
            }
            return c;
        }
        let mut c = Case::new();
        let scale = r.weighted(&[4, 5, 2]);
        history(r, &mut c, &[8, 14, 4, 6, 2, 3, 6, 1, 6, 4, 5, 8, 4, 4, 0], scale);
        set_lab_config(r, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.has("mode") {
            return self.real(c);
        }
        let watch = Watch {
            structure: true,
            ..Watch::default()
        };
        let mut lab = Lab::new(c.nv().max(1), &config(c), watch);
        if let Err(e) = lab.run(&c.ops) {
            fail!("{e}");
        }
        let kinds = lab.stats.len();
        finish(kinds >= 3, lab.tags())
    }
}

impl C18 {
    fn real(&self, c: &Case) -> Outcome {
        let Ok(mut s) = Solver::try_from((config(c), c.cls.as_slice())) else {
            return finish(false, vec!["unsat at loading".into()]);
        };
        let mut tags = vec![];
        if c.get("mode") > 1 {
            // learnt clauses as search leaves them: some subsume clauses of the problem
            for o in &c.ops {
                let live: Vec<Vec<Lit>> = s
                    .cdb
                    .iter()
                    .skip(1)
                    .filter(|c| c.len() > 3)
                    .map(|c| c.iter().copied().collect())
                    .collect();
                if let (Some(x), Some(y)) = (o.get(1), o.get(2)) {
                    if !live.is_empty() {
                        let mut v = live[*x as usize % live.len()].clone();
                        if s.asg.remains() || v.iter().any(|l| s.asg.assigned(*l).is_some()) {
                            continue;
                        }
                        v.remove(*y as usize % v.len());
                        let extra = o.get(3).copied().unwrap_or(0);
                        if 0 < extra && (extra as usize) <= s.asg.num_vars {
                            let e = lit(extra as i32);
                            if s.asg.assigned(e).is_some() || v.iter().any(|l| l.vi() == e.vi()) {
                                continue;
                            }
                            v.push(e);
                        }
                        s.cdb.new_clause(&mut s.asg, &mut v, true);
                    }
                }
            }
        }
        match c.get("mode") {
            1 => {
                if c.cls.iter().all(|c| c.is_empty()) {
                    return finish(false, vec![]);
                }
                let r = s.solve();
                if r.is_err() {
                    return finish(false, vec!["no verdict".into()]);
                }
                tags.push(if conflicts(&s) > 0 { "searched" } else { "solved" }.to_string());
            }
            2 => {
                let mut e = Eliminator::instantiate(&s.state.config, &s.state.cnf);
                if e.simplify(&mut s.asg, &mut s.cdb, &mut s.state, false).is_err() {
                    return finish(false, vec!["unsat in elimination".into()]);
                }
                tags.push("eliminated".into());
            }
            _ => {
                if s.cdb.vivify(&mut s.asg, &mut s.state).is_err() {
                    return finish(false, vec!["unsat in vivification".into()]);
                }
                tags.push("vivified".into());
            }
        }
        let nv = s.asg.num_vars;
        if let Err(e) = structure(&s.asg, &mut s.cdb, nv) {
            fail!("after {}: {e}", tags[0]);
        }
        finish(conflicts(&s) > 0 || c.get("mode") > 1, tags)
    }
}

pub struct C21;
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Histories as in C17 with many learnt clauses (by conflicts, and weakened copies of live clauses) and calls of reduce under all four policies with random thresholds, and of reset. After each such call every clause of the problem must be there unchanged, no clause may have appeared or changed, and later propagations are compared with the naive fixpoint over the surviving clauses. Non-trivial: a call forgot at least one clause."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 8_000_000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        let scale = r.weighted(&[1, 4, 5]);
        history(r, &mut c, &[4, 40, 8, 6, 1, 1, 1, 0, 0, 0, 0, 16, 8, 0, 0], scale);
        set_lab_config(r, &mut c);
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let watch = Watch {
            growth: true,
            ..Watch::default()
        };
        let mut lab = Lab::new(c.nv().max(1), &config(c), watch);
        if let Err(e) = lab.run(&c.ops) {
            fail!("{e}");
        }
        finish(lab.stats.contains_key("clauses forgotten"), lab.tags())
    }
}
