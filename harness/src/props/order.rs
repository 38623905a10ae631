//! C23: the order of decisions.  C31: their signs.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier},
    ensure, fail,
    lab::{int, lit},
    rng::Rng,
    util::*,
};
use std::collections::HashMap;

use splr::{
    assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF, VarSelectIF},
    cdb::{ClauseDB, ClauseDBIF},
    types::*,
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C23), Box::new(C31)]
}

const RAISE: i64 = 1;
const SET: i64 = 2;
const DECIDE: i64 = 3;
const ASSIGN: i64 = 4;
const BACK: i64 = 5;
const STAGE: i64 = 6;
const REBUILD: i64 = 7;
const ROOT: i64 = 8;
const ELIMINATE: i64 = 9;
const NEWVAR: i64 = 10;
const RESCALE: i64 = 11;
const FINISH: i64 = 12;
const USE: i64 = 13;
const PROPAGATE: i64 = 14;
const REPHASE: i64 = 15;
const SEARCHED: i64 = 16;

pub struct C23;
impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Histories of raised and arbitrarily set activities, rescaling, uses in analysis, decisions by the stack's own order, assignments past it, propagations over binary and ternary clauses, backtracks to any level, stage changes, rebuilt orders, root assignments, eliminations and new variables over 1-60 variables. Every decision must be an unassigned, not eliminated variable, and running decisions to the end must assign all of them. Where the order is exact (nothing unassigned and no activity lowered since the order was rebuilt; or, in the histories with a decay of 1, since the last stage change) its activity must be the highest. Non-trivial: at least four decisions in exact states with at least three candidates of different activity, or a completed run after a backtrack over two or more levels."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(6_000_000, 80_000_000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let weights: [usize; 17] = match r.range(0, 2) {
            // growing activities and decisions
            0 => [0, 30, 0, 25, 3, 1, 1, 1, 1, 2, 2, 1, 0, 0, 2, 0, 0],
            // search
            1 => [0, 10, 1, 40, 4, 15, 4, 3, 1, 1, 1, 1, 2, 8, 10, 0, 0],
            _ => [0, 10, 6, 20, 5, 8, 3, 6, 3, 4, 4, 2, 2, 4, 4, 0, 0],
        };
        history(r, &weights)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["steady"]
    }
    fn run(&self, c: &Case) -> Outcome {
        play(c, false)
    }
}

pub struct C31;
impl Prop for C31 {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "Histories as for C23 with rephasing and results of a local search handed over. Every decision on a variable that had a value before must repeat the sign it had when it was last unassigned, rephased, or set by the local search. Rephasing at level 0 must set the signs to those of one trail that was backtracked earlier and leave the other variables alone, and the assignment offered to the local search must be the preferred one. The local search's result must set the signs and count those that changed. Non-trivial: at least three decisions on variables which had both values before, and a rephasing or local search that changed a sign."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 40_000_000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let weights: [usize; 17] = match r.range(0, 1) {
            0 => [0, 5, 1, 40, 10, 25, 3, 1, 1, 0, 1, 0, 2, 4, 10, 6, 2],
            _ => [0, 5, 3, 20, 15, 12, 3, 4, 2, 2, 3, 1, 2, 3, 12, 5, 4],
        };
        history(r, &weights)
    }
    fn keep(&self) -> &'static [&'static str] {
        &["steady"]
    }
    fn run(&self, c: &Case) -> Outcome {
        play(c, true)
    }
}

fn history(r: &mut Rng, weights: &[usize; 17]) -> Case {
        let mut c = Case::new();
        let nv = match r.weighted(&[3, 4, 2]) {
            0 => r.us(1, 6),
            1 => r.us(3, 20),
            _ => r.us(15, 60),
        };
        c.set("nv", nv as i64);
        let steady = r.chance(1, 2);
        c.set("steady", steady as i64);
        // distinct levels of activity
        c.set("grain", *r.pick(&[3i64, 10, 1000, 1_000_000]));
        let nc = if r.chance(1, 3) { 0 } else { r.us(0, nv) };
        for _ in 0..nc {
            let k = r.us(2, 3);
            let cl: Vec<i32> = (0..k)
                .map(|_| {
                    let v = r.us(1, nv) as i32;
                    if r.bool() { v } else { -v }
                })
                .collect();
            c.cls.push(cl);
        }
        for _ in 0..r.us(3, 20 + 3 * nv) {
            let code = r.weighted(weights) as i64;
            c.ops.push(vec![code, r.range(0, 1_000_000), r.range(0, 1_000_000)]);
        }
        c
}

fn play(c: &Case, phases: bool) -> Outcome {
        let nv = c.nv().max(1);
        let cnf = CNFDescription {
            num_of_variables: nv,
            ..CNFDescription::default()
        };
        let k = config(c);
        let mut w = World {
            asg: AssignStack::instantiate(&k, &cnf),
            cdb: ClauseDB::instantiate(&k, &cnf),
            nv,
            exact: true,
            steady: c.get("steady") == 1,
            waiting: false,
            grain: c.get("grain").max(1) as f64,
            far: false,
            ripe: 0,
            done: false,
            used: vec![false; nv + 1],
            phases,
            last: vec![None; nv + 1],
            both: vec![0; nv + 1],
            trails: vec![],
            told: 0,
            turned: false,
        };
        if w.steady {
            w.asg.update_activity_decay(1.0);
        }
        for x in &c.cls {
            let mut v: Vec<Lit> = vec![];
            for l in x {
                let l = lit(*l);
                if l.vi() <= nv && !v.iter().any(|k| k.vi() == l.vi()) {
                    w.used[l.vi()] = true;
                    v.push(l);
                }
            }
            if v.len() > 1 {
                w.cdb.new_clause(&mut w.asg, &mut v, false);
            }
        }
        for (i, o) in c.ops.iter().enumerate() {
            match w.step(o) {
                Ok(true) => (),
                Ok(false) => break,
                Err(e) => fail!("operation {i}: {e}"),
            }
        }
        let mut tags = vec![];
        if w.ripe > 0 {
            tags.push("exact decisions".to_string());
        }
        if w.done {
            tags.push("completed after a far backtrack".into());
        }
        ensure!(w.asg.num_vars == w.nv, "the number of variables is wrong");
        if phases {
            if w.turned {
                tags.push("signs turned".into());
            }
            return finish(w.told >= 3 && w.turned, tags);
        }
        finish(w.ripe >= 4 || w.done, tags)
}

struct World {
    asg: AssignStack,
    cdb: ClauseDB,
    nv: usize,
    /// the root of the order is the best
    exact: bool,
    /// activities never fall
    steady: bool,
    /// exact up to the variables held back by trail saving
    waiting: bool,
    grain: f64,
    far: bool,
    ripe: usize,
    done: bool,
    used: Vec<bool>,
    /// whether signs are watched
    phases: bool,
    /// the sign each variable had last
    last: Vec<Option<bool>>,
    /// the signs each variable ever had, as a set
    both: Vec<u8>,
    /// the trails that were backtracked
    trails: Vec<HashMap<usize, bool>>,
    told: usize,
    turned: bool,
}

impl World {
    fn open(&self) -> Vec<usize> {
        (1..=self.nv)
            .filter(|v| self.asg.assign(*v).is_none() && !self.asg.var(*v).is(FlagVar::ELIMINATED))
            .collect()
    }
    fn cancel(&mut self, lv: u32) {
        if lv < self.asg.decision_level() {
            self.far |= lv + 1 < self.asg.decision_level();
            if self.phases {
                let mut all = HashMap::new();
                for l in self.asg.stack_iter() {
                    let (v, b) = (l.vi(), self.asg.assign(l.vi()).expect("a value"));
                    if self.asg.level(v) > 0 {
                        all.insert(v, b);
                    }
                    if self.asg.level(v) > lv {
                        self.last[v] = Some(b);
                        self.both[v] |= 1 << b as u8;
                    }
                }
                self.trails.push(all);
            }
            self.asg.cancel_until(lv);
            if self.exact || self.waiting {
                self.waiting = self.steady;
            }
            self.exact = false;
        }
    }
    fn select(&mut self) -> Result<Lit, String> {
        let open = self.open();
        let l = self.asg.select_decision_literal();
        if !open.contains(&l.vi()) {
            return Err(format!(
                "{} is decided; open are {open:?}",
                int(l)
            ));
        }
        if self.phases
            && let Some(b) = self.last[l.vi()]
        {
            if l.as_bool() != b {
                return Err(format!("{} is decided, the sign before was {b}", int(l)));
            }
            self.told += (self.both[l.vi()] == 3) as usize;
        }
        let a = self.asg.activity(l.vi());
        let best = open.iter().map(|v| self.asg.activity(*v)).fold(a, f64::max);
        if self.exact {
            if let Some(v) = open.iter().find(|v| self.asg.activity(**v) > a) {
                return Err(format!(
                    "{} of activity {a} is decided although {v} of activity {best} is open",
                    l.vi()
                ));
            }
            let mut seen: Vec<u64> = open.iter().map(|v| self.asg.activity(*v).to_bits()).collect();
            seen.sort_unstable();
            seen.dedup();
            if seen.len() >= 3 {
                self.ripe += 1;
            }
        }
        Ok(l)
    }
    /// `false`: a conflict; everything above level 0 is undone or the history ends
    fn propagate(&mut self) -> bool {
        let before: usize = self.open().len();
        if self.asg.propagate(&mut self.cdb).is_err() {
            let dl = self.asg.decision_level();
            if dl == 0 {
                return false;
            }
            self.cancel(dl - 1);
            // saved literals led to or follow from the conflict
            self.asg.handle(SolverEvent::Stage(1));
            if self.waiting {
                self.exact = true;
            }
            self.waiting = false;
        } else if self.waiting && self.open().len() < before {
            // some of the saved literals were used again
        }
        true
    }
    fn step(&mut self, o: &[i64]) -> Result<bool, String> {
        let x = o.get(1).copied().unwrap_or(0) as usize;
        let y = o.get(2).copied().unwrap_or(0) as f64;
        let v = 1 + x % self.nv;
        let value = (y % self.grain) / self.grain;
        match o.first().copied().unwrap_or(0) {
            RAISE => {
                if !self.asg.var(v).is(FlagVar::ELIMINATED) && self.asg.activity(v) <= value {
                    self.asg.set_activity(v, value);
                    self.asg.update_order(v);
                }
            }
            SET => {
                for i in 0..3 {
                    let v = 1 + (x + 7 * i) % self.nv;
                    let low = value < self.asg.activity(v);
                    self.asg.set_activity(v, value);
                    if low {
                        self.exact = false;
                        self.waiting = false;
                    } else {
                        self.asg.update_order(v);
                    }
                }
            }
            DECIDE => {
                if !self.open().is_empty() {
                    let l = self.select()?;
                    self.asg.assign_by_decision(l);
                    if x % 3 > 0 {
                        return Ok(self.propagate());
                    }
                }
            }
            ASSIGN => {
                let open = self.open();
                if !open.is_empty() {
                    let v = open[x % open.len()] as i32;
                    self.asg.assign_by_decision(lit(if y as i64 % 2 == 0 { v } else { -v }));
                }
            }
            PROPAGATE => return Ok(self.propagate()),
            BACK => {
                let dl = self.asg.decision_level();
                if dl > 0 {
                    self.cancel(x as u32 % dl);
                }
            }
            STAGE => {
                self.asg.handle(SolverEvent::Stage(1 << (x % 5)));
                if self.waiting {
                    self.exact = true;
                    self.waiting = false;
                }
            }
            REBUILD => {
                self.asg.rebuild_order();
                self.exact = true;
                self.waiting = false;
            }
            ROOT => {
                self.cancel(0);
                let open = self.open();
                if !open.is_empty() {
                    let v = open[x % open.len()] as i32;
                    let l = lit(if y as i64 % 2 == 0 { v } else { -v });
                    if self.asg.assign_at_root_level(l).is_err() {
                        return Err(format!("the open variable {v} can't be assigned at level 0"));
                    }
                    self.asg.handle(SolverEvent::Stage(1));
                    if self.waiting {
                        self.exact = true;
                        self.waiting = false;
                    }
                    if self.asg.propagate(&mut self.cdb).is_err() {
                        return Ok(false);
                    }
                }
            }
            ELIMINATE => {
                self.cancel(0);
                self.asg.handle(SolverEvent::Reinitialize);
                if self.waiting {
                    self.exact = true;
                    self.waiting = false;
                }
                let open: Vec<usize> = self.open().into_iter().filter(|v| !self.used[*v]).collect();
                if !open.is_empty() {
                    let v = open[x % open.len()];
                    self.asg.handle(SolverEvent::Eliminate(v));
                    if !self.asg.var(v).is(FlagVar::ELIMINATED) {
                        return Err(format!("{v} isn't eliminated"));
                    }
                }
            }
            NEWVAR => {
                self.asg.handle(SolverEvent::NewVar);
                self.cdb.handle(SolverEvent::NewVar);
                self.nv += 1;
                self.used.push(false);
                self.last.push(None);
                self.both.push(0);
            }
            RESCALE => self.asg.rescale_activity(0.5),
            USE => {
                for i in 0..3 {
                    let v = 1 + (x + 5 * i) % self.nv;
                    if self.asg.assign(v).is_some() {
                        self.asg.reward_at_analysis(v);
                    }
                }
            }
            REPHASE => {
                self.cancel(0);
                let sign = |w: &World, v: usize| w.asg.var(v).is(FlagVar::PHASE);
                let before: Vec<bool> = (0..=self.nv).map(|v| v > 0 && sign(self, v)).collect();
                self.asg.select_rephasing_target();
                let after: Vec<bool> = (0..=self.nv).map(|v| v > 0 && sign(self, v)).collect();
                let open = self.open();
                let fits = |t: &HashMap<usize, bool>| {
                    open.iter().all(|v| after[*v] == t.get(v).copied().unwrap_or(before[*v]))
                };
                if !fits(&HashMap::new()) && !self.trails.iter().rev().any(fits) {
                    return Err(format!(
                        "rephasing sets the signs of {:?}, as in no earlier trail",
                        open.iter().filter(|v| after[**v] != before[**v]).collect::<Vec<_>>()
                    ));
                }
                let best = self.asg.best_phases_ref(None);
                for v in open {
                    // (a new variable is left out until it got a value)
                    let new = self.asg.level(v) == 0 && !best.contains_key(&v);
                    if !new && best.get(&v) != Some(&after[v]) {
                        return Err(format!(
                            "the best value of {v} is {:?}, its sign {}",
                            best.get(&v),
                            after[v]
                        ));
                    }
                    if before[v] != after[v] {
                        self.turned = true;
                        self.last[v] = Some(after[v]);
                        self.both[v] |= 1 << after[v] as u8;
                    }
                }
            }
            SEARCHED => {
                let open = self.open();
                let mut found = HashMap::new();
                let mut n = 0;
                for (i, v) in open.into_iter().enumerate() {
                    let b = (x >> (i % 19)) & 1 == 1;
                    if i % 3 != x % 4 {
                        n += (self.asg.var(v).is(FlagVar::PHASE) != b) as usize;
                        found.insert(v, b);
                        self.last[v] = Some(b);
                        self.both[v] |= 1 << b as u8;
                    }
                }
                let got = self.asg.reward_by_sls(&found);
                if got != n {
                    return Err(format!("the local search turned {n} signs, {got} are reported"));
                }
                self.turned |= n > 0;
                self.exact = false;
                self.waiting = false;
            }
            FINISH => {
                let mut last = self.open().len() + 1;
                let mut conflicts = 0;
                loop {
                    let open = self.open();
                    if open.is_empty() {
                        break;
                    }
                    if last <= open.len() {
                        return Err("deciding made no progress".into());
                    }
                    last = open.len();
                    let l = self.select()?;
                    self.asg.assign_by_decision(l);
                    if self.asg.propagate(&mut self.cdb).is_err() {
                        let dl = self.asg.decision_level();
                        self.cancel(dl - 1);
                        self.asg.handle(SolverEvent::Stage(1));
                        if self.waiting {
                            self.exact = true;
                        }
                        self.waiting = false;
                        conflicts += 1;
                        if conflicts > 3 {
                            return Ok(true);
                        }
                        last = self.open().len() + 1;
                    }
                }
                self.done |= self.far;
            }
            _ => (),
        }
        Ok(true)
    }
}
