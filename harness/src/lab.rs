//! An assignment stack and a clause database driven directly, next to a simple model of what
//! they should hold. A history is a list of operations; every operation is interpreted modulo
//! the present state, so that any sub-sequence of a history is a history.
use splr::{
    Config, PropertyDereference,
    assign::{AssignIF, AssignStack, PropagateIF, VarManipulateIF, VarSelectIF, property::Tusize},
    cdb::{ClauseDB, ClauseDBIF, ReductionType, property as cp},
    types::*,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn lit(i: i32) -> Lit {
    Lit::from(i)
}
pub fn int(l: Lit) -> i32 {
    i32::from(l)
}
pub fn ints(c: &[Lit]) -> Vec<i32> {
    c.iter().map(|l| i32::from(*l)).collect()
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Held {
    pub lits: Vec<i32>,
    pub learnt: bool,
}

/// what the check should look at after every operation
#[derive(Clone, Copy, Default)]
pub struct Watch {
    pub propagation: bool,
    pub structure: bool,
    pub growth: bool,
    pub counters: bool,
}

pub struct Lab {
    pub asg: AssignStack,
    pub cdb: ClauseDB,
    pub nv: usize,
    /// live clauses by index
    pub held: BTreeMap<usize, Held>,
    /// all clauses of the problem ever accepted and not removed on request, as given
    pub given: Vec<Vec<i32>>,
    /// literals assigned at level 0 on request
    pub roots: Vec<i32>,
    /// per open level: the assignments before its decision, the decision, and whether all of
    /// the assignments before it had been propagated
    pub open: Vec<(BTreeSet<i32>, i32, bool)>,
    /// where a contradiction was found, the history ends
    pub over: bool,
    /// the present state was left by a propagation without conflict
    pub closed: bool,
    pub watch: Watch,
    pub stats: BTreeMap<&'static str, usize>,
    last_scratch: usize,
}

pub type Check = Result<(), String>;

macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn normal(mut c: Vec<i32>) -> Vec<i32> {
    c.sort_unstable();
    c
}

impl Lab {
    pub fn new(nv: usize, config: &Config, watch: Watch) -> Lab {
        let cnf = CNFDescription {
            num_of_variables: nv,
            ..CNFDescription::default()
        };
        Lab {
            asg: AssignStack::instantiate(config, &cnf),
            cdb: ClauseDB::instantiate(config, &cnf),
            nv,
            held: BTreeMap::new(),
            given: Vec::new(),
            roots: Vec::new(),
            open: Vec::new(),
            over: false,
            closed: true,
            watch,
            stats: BTreeMap::new(),
            last_scratch: 0,
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    pub fn tags(&self) -> Vec<String> {
        self.stats.keys().map(|k| k.to_string()).collect()
    }
    pub fn assigned(&self) -> BTreeSet<i32> {
        (1..=self.nv)
            .filter_map(|v| self.asg.assign(v).map(|b| if b { v as i32 } else { -(v as i32) }))
            .collect()
    }
    pub fn unassigned(&self) -> Vec<usize> {
        (1..=self.nv)
            .filter(|v| self.asg.assign(*v).is_none())
            .collect()
    }
    pub fn value(&self, l: i32) -> Option<bool> {
        self.asg
            .assign(l.unsigned_abs() as usize)
            .map(|b| b == (l > 0))
    }
    /// the literals decided at present, lowest level first
    pub fn decisions(&self) -> Vec<i32> {
        self.open.iter().map(|o| o.1).collect()
    }
    pub fn clauses(&self) -> Vec<Vec<i32>> {
        self.held.values().map(|h| h.lits.clone()).collect()
    }
    /// level-0 literals and live clauses
    pub fn content(&self) -> Vec<Vec<i32>> {
        let mut v: Vec<Vec<i32>> = self
            .assigned()
            .into_iter()
            .filter(|l| self.open.is_empty() || self.asg.level(l.unsigned_abs() as usize) == 0)
            .map(|l| vec![l])
            .collect();
        v.extend(self.clauses());
        v
    }
    fn var_in_range(&self, x: i64) -> i32 {
        (x.unsigned_abs() as usize % self.nv + 1) as i32
    }
    /// a literal from an operand: any integer
    fn pick_lit(&self, x: i64) -> i32 {
        let v = self.var_in_range(x / 2);
        if x % 2 == 0 { v } else { -v }
    }

    // ---------------------------------------------------------------- elementary steps

    pub fn to_root(&mut self) -> Check {
        self.cancel(0)
    }

    pub fn cancel(&mut self, lv: usize) -> Check {
        if lv >= self.open.len() {
            return Ok(());
        }
        if self.open.len() - lv > 1 {
            self.count("multi-level backtracks");
        }
        let before = self.counters();
        self.asg.cancel_until(lv as u32);
        self.check_counters(before, (0, 0, (lv == 0) as usize), "backtracking")?;
        let want = self.open[lv].0.clone();
        self.closed = self.open[lv].2;
        self.open.truncate(lv);
        if self.watch.propagation {
            let dl = self.asg.decision_level() as usize;
            need!(dl == lv, "after backtracking to level {lv} the level is {dl}");
            let got = self.assigned();
            need!(
                got == want,
                "after backtracking to level {lv} the assignment is {got:?}; before the decision there it was {want:?}"
            );
            self.check_levels()?;
        }
        Ok(())
    }

    /// decisions, conflicts, restarts, propagations, and the literals on the stack
    fn counters(&self) -> [usize; 5] {
        let d = |k| self.asg.derefer(k);
        [
            d(Tusize::NumDecision),
            d(Tusize::NumConflict),
            d(Tusize::NumRestart),
            d(Tusize::NumPropagation),
            self.asg.stack_len(),
        ]
    }
    fn check_counters(&self, b: [usize; 5], (d, c, r): (usize, usize, usize), what: &str) -> Check {
        if !self.watch.counters {
            return Ok(());
        }
        let a = self.counters();
        for (i, (name, n)) in [("NumDecision", d), ("NumConflict", c), ("NumRestart", r)]
            .into_iter()
            .enumerate()
        {
            need!(
                a[i] == b[i] + n,
                "{name} was {} before {what}, is {} after it, and {n} happened",
                b[i],
                a[i]
            );
        }
        if what == "propagation" {
            // (with a conflict, or literals taken from the saved trail, not all of them are counted)
            let new = a[4].saturating_sub(b[4]);
            need!(
                b[3] <= a[3] && a[3] <= b[3] + a[4] + 1,
                "NumPropagation grew from {} to {} with {} literals on the stack",
                b[3],
                a[3],
                a[4]
            );
            need!(
                c > 0 || b[3] + new <= a[3],
                "NumPropagation grew from {} to {} by {new} new literals",
                b[3],
                a[3]
            );
        } else {
            need!(b[3] == a[3], "NumPropagation changed by {what}");
        }
        Ok(())
    }
    fn check_counts(&self) -> Check {
        let d = |k| self.asg.derefer(k);
        let (nv, e) = (d(Tusize::NumVar), d(Tusize::NumEliminatedVar));
        need!(nv == self.nv && e == 0, "NumVar is {nv}, NumEliminatedVar is {e}");
        let on_stack = self.asg.stack_len();
        if self.asg.stack_iter().any(|l| self.asg.level(l.vi()) == 0) {
            // counted twice until they leave the stack
            return Ok(());
        }
        let known = self.assigned().len();
        let want = [known - on_stack, nv - (known - on_stack), nv - known];
        let got = [
            d(Tusize::NumAssertedVar),
            d(Tusize::NumUnassertedVar),
            d(Tusize::NumUnassignedVar),
        ];
        need!(
            got == want,
            "asserted, unasserted and unassigned variables are {got:?}, counted {want:?}"
        );
        // the LBD of some clauses
        let mut seen = vec![0; self.nv + 2];
        for (i, h) in self.held.iter().skip(known % 5).step_by(4).take(3) {
            let levels: BTreeSet<_> = h
                .lits
                .iter()
                .map(|l| self.asg.level(l.unsigned_abs() as usize))
                .filter(|l| *l > 0)
                .collect();
            if h.lits.iter().any(|l| self.value(*l).is_none()) {
                continue;
            }
            let got = self.cdb[ClauseId::from(*i)].clone().update_lbd(&self.asg, &mut seen);
            need!(
                got == levels.len(),
                "the LBD of {:?} at levels {levels:?} is {got}",
                h.lits
            );
        }
        Ok(())
    }

    fn check_levels(&self) -> Check {
        let dl = self.open.len();
        need!(
            self.asg.decision_level() as usize == dl,
            "decision level {} with {dl} open decisions",
            self.asg.decision_level()
        );
        for (k, (_, d, _)) in self.open.iter().enumerate() {
            let vi = self.asg.decision_vi(k as u32 + 1);
            need!(
                vi as i32 == d.abs(),
                "the decision variable of level {} is {vi} and not {}",
                k + 1,
                d.abs()
            );
        }
        let mut lv: HashMap<i32, usize> = HashMap::new();
        for (k, (before, _, _)) in self.open.iter().enumerate().rev() {
            for l in before {
                lv.insert(*l, k);
            }
        }
        for l in self.assigned() {
            // the state before the decision of level k+1 is level <= k
            let want = lv.get(&l).copied().unwrap_or(dl);
            let min = (0..=want)
                .find(|k| *k == dl || self.open[*k].0.contains(&l))
                .unwrap_or(dl);
            let got = self.asg.level(l.unsigned_abs() as usize) as usize;
            need!(got == min, "the literal {l} was assigned at level {min} and has level {got}");
        }
        // the trail holds assigned literals only, once each
        let mut seen = BTreeSet::new();
        for l in self.asg.stack_iter() {
            let l = int(*l);
            need!(self.value(l) == Some(true), "the trail holds {l}, which is not assigned");
            need!(seen.insert(l), "the trail holds {l} twice");
        }
        self.check_views()?;
        for l in self.assigned() {
            need!(
                seen.contains(&l) || self.asg.level(l.unsigned_abs() as usize) == 0,
                "the literal {l} is assigned above level 0 and missing on the trail"
            );
        }
        Ok(())
    }

    /// the different views of the assignment agree
    fn check_views(&self) -> Check {
        let a = &self.asg;
        let all: Vec<Lit> = a.stack_iter().copied().collect();
        let n = all.len();
        need!(
            a.stack_len() == n && a.stack_is_empty() == (n == 0),
            "the trail has {n} literals and the length {}",
            a.stack_len()
        );
        for (i, l) in all.iter().enumerate() {
            need!(a.stack(i) == *l, "the trail's literal {i} is {} and {}", int(a.stack(i)), int(*l));
        }
        let (x, y) = (n / 3, n - n / 4);
        need!(
            a.stack_range(x..y) == &all[x..y],
            "the part {x}..{y} of the trail is {:?}",
            ints(a.stack_range(x..y))
        );
        let mut from = 0;
        for k in 0..self.open.len() {
            let at = a.len_upto(k as u32);
            need!(
                from <= at && at < n && int(all[at]) == self.open[k].1,
                "{at} assignments up to level {k}, but the decision {} is not there",
                self.open[k].1
            );
            for l in &all[from..at] {
                let lv = a.level(l.vi()) as usize;
                need!(lv <= k, "{} of level {lv} is among the literals up to level {k}", int(*l));
            }
            from = at;
        }
        let r = a.assign_ref();
        need!(
            r.len() == a.var_iter().len() && (1..=self.nv).all(|v| r[v] == a.assign(v)),
            "the list of values differs from the values"
        );
        need!(a.root_level() == 0, "the root level is {}", a.root_level());
        Ok(())
    }

    /// what clauses say about themselves under the present assignment
    fn check_clause_views(&self) -> Check {
        // costly: now and then
        if (self.assigned().len() + self.held.len() * 3 + self.open.len()) % 8 != 0 {
            return Ok(());
        }
        for (i, h) in &self.held {
            let c = &self.cdb[ClauseId::from(*i)];
            let sat = h.lits.iter().any(|l| self.value(*l) == Some(true));
            let free = h.lits.iter().filter(|l| self.value(**l).is_none()).count();
            let v: Vec<Lit> = h.lits.iter().map(|l| lit(*l)).collect();
            need!(
                c.is_satisfied_under(&self.asg) == sat && self.asg.satisfies(&v) == sat,
                "{:?} is {}satisfied",
                h.lits,
                if sat { "not reported as " } else { "wrongly reported as " }
            );
            let unit = !sat && free == 1;
            need!(
                c.is_unit_under(&self.asg) == unit,
                "{:?} is {}unit",
                h.lits,
                if unit { "not reported as " } else { "wrongly reported as " }
            );
        }
        Ok(())
    }

    /// the closure of the present decisions and roots under unit resolution;
    /// `None` where a clause becomes false
    fn closure(&self) -> Option<BTreeSet<i32>> {
        let mut set: BTreeSet<i32> = BTreeSet::new();
        let mut queue: Vec<i32> = self.roots.clone();
        queue.extend(self.open.iter().map(|o| o.1));
        for l in queue {
            if set.contains(&-l) {
                return None;
            }
            set.insert(l);
        }
        loop {
            let mut changed = false;
            for h in self.held.values() {
                if h.lits.iter().any(|l| set.contains(l)) {
                    continue;
                }
                let mut free = h.lits.iter().filter(|l| !set.contains(&-**l));
                match (free.next(), free.next()) {
                    (None, _) => return None,
                    (Some(l), None) => {
                        set.insert(*l);
                        changed = true;
                    }
                    _ => (),
                }
            }
            if !changed {
                return Some(set);
            }
        }
    }

    fn check_reasons(&self) -> Check {
        let mut before: BTreeSet<i32> = self
            .assigned()
            .into_iter()
            .filter(|l| self.asg.level(l.unsigned_abs() as usize) == 0)
            .collect();
        for l in self.asg.stack_iter() {
            let x = int(*l);
            if self.asg.level(l.vi()) > 0 {
                match self.asg.reason(l.vi()) {
                    AssignReason::Decision(k) => {
                        let lv = self.asg.level(l.vi());
                        need!(
                            k == lv && self.open.get(k as usize - 1).map(|o| o.1) == Some(x),
                            "{x} is marked as the decision of level {k}"
                        );
                    }
                    AssignReason::BinaryLink(r) => {
                        let c = normal(vec![x, -int(r)]);
                        need!(
                            self.held.values().any(|h| h.lits == c),
                            "the reason of {x} is the clause {c:?}, which is not in the database"
                        );
                        need!(
                            before.contains(&int(r)),
                            "the reason of {x} is {}, not assigned before it",
                            int(r)
                        );
                    }
                    AssignReason::Implication(cid) => {
                        let i = usize::from(cid);
                        let Some(h) = self.held.get(&i) else {
                            return Err(format!("the reason of {x} is a clause that is not live"));
                        };
                        need!(
                            h.lits.contains(&x)
                                && h.lits.iter().all(|y| *y == x || before.contains(&-y)),
                            "the reason {:?} of {x} was not unit when it was assigned",
                            h.lits
                        );
                    }
                    AssignReason::None => {
                        return Err(format!("{x} is assigned without a reason"));
                    }
                }
            }
            before.insert(x);
        }
        Ok(())
    }

    fn check_conflict(&self, cc: &(Lit, AssignReason)) -> Result<Vec<i32>, String> {
        let c = match cc.1 {
            AssignReason::Implication(cid) => match self.held.get(&usize::from(cid)) {
                Some(h) => h.lits.clone(),
                None => return Err("the conflicting clause is not live".into()),
            },
            AssignReason::BinaryLink(l) => {
                let c = normal(vec![int(cc.0), -int(l)]);
                need!(
                    self.held.values().any(|h| h.lits == c),
                    "the conflicting clause {c:?} is not in the database"
                );
                c
            }
            ref r => return Err(format!("a conflict with the reason {r:?}")),
        };
        need!(
            c.iter().all(|l| self.value(*l) == Some(false)),
            "the clause {c:?} reported as falsified is not"
        );
        need!(c.contains(&int(cc.0)), "the literal of the conflict is not in its clause");
        Ok(c)
    }

    /// after a propagation that reported no conflict
    fn check_closed(&self) -> Check {
        let Some(want) = self.closure() else {
            return Err("propagation reports no conflict although a clause is falsified".into());
        };
        let got = self.assigned();
        if got != want {
            let missing: Vec<_> = want.difference(&got).collect();
            let extra: Vec<_> = got.difference(&want).collect();
            return Err(format!(
                "propagation left {missing:?} unassigned and assigned {extra:?} without cause"
            ));
        }
        need!(!self.asg.remains(), "propagation left literals to propagate");
        self.check_clause_views()?;
        self.check_levels()?;
        self.check_reasons()
    }

    /// propagates; `Ok(false)` on a conflict at level 0
    pub fn propagate(&mut self) -> Result<bool, String> {
        for _ in 0..200 {
            let before = self.counters();
            let r = self.asg.propagate(&mut self.cdb);
            self.check_counters(before, (0, r.is_err() as usize, 0), "propagation")?;
            match r {
                Ok(()) => {
                    self.closed = true;
                    if self.watch.propagation {
                        self.check_closed()?;
                    }
                    return Ok(true);
                }
                Err(cc) => {
                    self.closed = false;
                    self.count("conflicts");
                    let mut cause = Vec::new();
                    if self.watch.propagation {
                        self.check_reasons()?;
                        self.check_levels_in_conflict()?;
                        need!(self.closure().is_none(), "a conflict without a cause");
                    }
                    match self.check_conflict(&cc) {
                        Ok(c) => cause.extend(c),
                        Err(e) if self.watch.propagation => return Err(e),
                        Err(_) => {
                            // not this check's business
                            self.over = true;
                            return Ok(false);
                        }
                    }
                    if self.open.is_empty() {
                        self.over = true;
                        self.count("contradictions");
                        return Ok(false);
                    }
                    if !self.learn(cause)? {
                        return Ok(false);
                    }
                }
            }
        }
        self.to_root()?;
        Ok(true)
    }

    fn check_levels_in_conflict(&self) -> Check {
        need!(
            self.asg.decision_level() as usize == self.open.len(),
            "propagation changed the decision level"
        );
        Ok(())
    }

    /// learns the clause of the decisions behind a conflict, backtracks and asserts it
    fn learn(&mut self, cause: Vec<i32>) -> Result<bool, String> {
        let mut todo: Vec<i32> = cause.iter().map(|l| -l).collect();
        let mut seen: BTreeSet<i32> = BTreeSet::new();
        let mut dec: Vec<(usize, i32)> = Vec::new();
        while let Some(l) = todo.pop() {
            let vi = l.unsigned_abs() as usize;
            let lv = self.asg.level(vi) as usize;
            if lv == 0 || !seen.insert(l) {
                continue;
            }
            match self.asg.reason(vi) {
                AssignReason::Decision(_) => dec.push((lv, l)),
                AssignReason::BinaryLink(r) => todo.push(int(r)),
                AssignReason::Implication(cid) => {
                    todo.extend(self.cdb[cid].iter().map(|x| -int(*x)).filter(|x| *x != l))
                }
                AssignReason::None => {
                    self.over = true;
                    return Ok(false);
                }
            }
        }
        dec.sort_unstable();
        dec.reverse();
        if dec.is_empty() {
            // only level 0 is involved
            self.over = true;
            self.count("contradictions");
            return Ok(false);
        }
        let c: Vec<i32> = dec.iter().map(|(_, l)| -l).collect();
        if c.len() == 1 {
            return self.assign_root(c[0]);
        }
        self.cancel(dec[1].0)?;
        let mut v: Vec<Lit> = c.iter().map(|l| lit(*l)).collect();
        let r = self.cdb.new_clause(&mut self.asg, &mut v, true);
        self.note_new(r.clone(), &c, true)?;
        self.count("learnt clauses");
        let why = match r {
            RefClause::Clause(cid) if c.len() > 2 => AssignReason::Implication(cid),
            _ => AssignReason::BinaryLink(lit(-c[1])),
        };
        self.asg
            .assign_by_implication(lit(c[0]), why, self.open.len() as u32);
        self.closed = false;
        Ok(true)
    }

    /// records what `new_clause` answered
    fn note_new(&mut self, r: RefClause, c: &[i32], learnt: bool) -> Check {
        let n = normal(c.to_vec());
        let twin = (n.len() == 2)
            .then(|| self.held.iter().find(|(_, h)| h.lits == n).map(|(i, _)| *i))
            .flatten();
        match (r, twin) {
            (RefClause::RegisteredClause(cid), Some(i)) => {
                self.count("re-registered");
                need!(
                    usize::from(cid) == i,
                    "registering {n:?} again names the clause {} instead of {i}",
                    usize::from(cid)
                );
                Ok(())
            }
            (RefClause::Clause(cid), None) => {
                let i = usize::from(cid);
                need!(
                    !self.held.contains_key(&i),
                    "the new clause {n:?} got the identifier of the live clause {:?}",
                    self.held[&i].lits
                );
                let learnt = learnt && n.len() > 2;
                self.held.insert(i, Held { lits: n, learnt });
                Ok(())
            }
            (r, t) => Err(format!(
                "registering {n:?} gave {r:?}; it was {}registered before",
                if t.is_some() { "" } else { "not " }
            )),
        }
    }

    /// assigns a literal at level 0; `Ok(false)` if the history ends by it
    pub fn assign_root(&mut self, l: i32) -> Result<bool, String> {
        self.to_root()?;
        let now = self.value(l);
        match (self.asg.assign_at_root_level(lit(l)), now) {
            (Err(_), Some(false)) => {
                self.over = true;
                Ok(false)
            }
            (Ok(()), None) => {
                self.roots.push(l);
                self.closed = false;
                Ok(true)
            }
            (Ok(()), Some(true)) => {
                if !self.roots.contains(&l) {
                    self.roots.push(l);
                }
                Ok(true)
            }
            (r, v) => Err(format!("assigning {l}, of value {v:?}, at level 0 gave {r:?}")),
        }
    }

    /// at level 0, nothing left to propagate and no satisfied or shortened clause
    pub fn settle(&mut self) -> Result<bool, String> {
        self.to_root()?;
        // saved literals of former levels refer to clauses that may go away
        self.asg.handle(SolverEvent::Reinitialize);
        let closure = self.closure();
        match self.asg.clear_asserted_literals(&mut self.cdb) {
            Ok(()) => {
                let Some(want) = closure else {
                    if self.watch.propagation {
                        return Err("a contradiction at level 0 was missed".into());
                    }
                    self.over = true;
                    return Ok(false);
                };
                if self.watch.propagation {
                    let got = self.assigned();
                    need!(
                        got == want,
                        "propagating level 0 gives {got:?} instead of {want:?}"
                    );
                    need!(
                        self.asg.stack_is_empty(),
                        "asserted literals stay on the trail"
                    );
                }
                self.roots = self.assigned().into_iter().collect();
                let got = self.roots.clone();
                self.resync(&got)?;
                self.closed = true;
                Ok(true)
            }
            Err(e) => {
                if self.watch.propagation {
                    need!(
                        closure.is_none(),
                        "level 0 is reported contradictory ({e:?}) although it is not"
                    );
                }
                self.over = true;
                self.count("contradictions");
                Ok(false)
            }
        }
    }

    /// the live clauses after simplification by the level-0 literals `set`
    fn resync(&mut self, set: &[i32]) -> Check {
        let set: BTreeSet<i32> = set.iter().copied().collect();
        let live: BTreeMap<usize, Vec<i32>> = self.live();
        let old = std::mem::take(&mut self.held);
        let mut want: BTreeSet<Vec<i32>> = BTreeSet::new();
        for (i, h) in old {
            let short: Vec<i32> = h.lits.iter().copied().filter(|l| !set.contains(&-l)).collect();
            let sat = h.lits.iter().any(|l| set.contains(l));
            match live.get(&i) {
                Some(l) => {
                    if self.watch.structure {
                        need!(
                            *l == short,
                            "simplified by level 0 the clause {:?} became {l:?} instead of {short:?}",
                            h.lits
                        );
                        need!(!sat, "the clause {:?}, satisfied at level 0, is still there", h.lits);
                    }
                    self.held.insert(
                        i,
                        Held {
                            learnt: h.learnt,
                            lits: l.clone(),
                        },
                    );
                }
                None => {
                    if sat {
                        continue;
                    }
                    if self.watch.structure {
                        need!(
                            short.len() == 2,
                            "the clause {:?} disappeared in simplification by level 0",
                            h.lits
                        );
                        want.insert(short);
                    }
                }
            }
        }
        if self.watch.structure {
            for (i, l) in &live {
                need!(self.held.contains_key(i), "the clause {l:?} appeared from nowhere");
            }
            for w in want {
                need!(
                    self.held.values().any(|h| h.lits == w),
                    "the clause {w:?} disappeared in simplification by level 0"
                );
            }
        }
        Ok(())
    }

    pub fn live(&self) -> BTreeMap<usize, Vec<i32>> {
        self.cdb
            .iter()
            .enumerate()
            .skip(1)
            .filter(|(_, c)| !c.is_dead())
            .map(|(i, c)| (i, normal(Vec::<i32>::from(c))))
            .collect()
    }

    /// the database holds what the model holds, reachable and counted
    pub fn check_structure(&mut self) -> Check {
        let live = self.live();
        for (i, h) in &self.held {
            match live.get(i) {
                None => return Err(format!("the clause {:?} is gone", h.lits)),
                Some(l) => need!(*l == h.lits, "the clause {:?} became {l:?}", h.lits),
            }
            let learnt = self.cdb[ClauseId::from(*i)].is(FlagClause::LEARNT);
            need!(
                h.learnt || !learnt,
                "the clause {:?} of the problem is marked as learnt",
                h.lits
            );
        }
        for (i, l) in &live {
            need!(self.held.contains_key(i), "the clause {l:?} should not be there");
        }
        structure(&self.asg, &mut self.cdb, self.nv)
    }

    /// adds a clause of the problem at level 0
    pub fn add(&mut self, c: &[i32], learnt: bool) -> Result<bool, String> {
        if !self.settle()? {
            return Ok(false);
        }
        let mut v: Vec<i32> = Vec::new();
        for l in c {
            if v.contains(&-l) || self.value(*l) == Some(true) {
                return Ok(true);
            }
            if !v.contains(l) && self.value(*l).is_none() {
                v.push(*l);
            }
        }
        match v.len() {
            0 => {
                self.over = true;
                Ok(false)
            }
            1 => self.assign_root(v[0]),
            _ => {
                let mut w: Vec<Lit> = v.iter().map(|l| lit(*l)).collect();
                let r = self.cdb.new_clause(&mut self.asg, &mut w, learnt);
                self.note_new(r, &v, learnt)?;
                Ok(true)
            }
        }
    }

    pub fn decide(&mut self, l: i32) -> Result<bool, String> {
        let before = self.assigned();
        self.open.push((before, l, self.closed));
        let n = self.counters();
        self.asg.assign_by_decision(lit(l));
        self.check_counters(n, (1, 0, 0), "a decision")?;
        self.closed = false;
        self.propagate()
    }
    /// leaves the decision to be propagated later
    pub fn decide_only(&mut self, l: i32) {
        let before = self.assigned();
        self.open.push((before, l, self.closed));
        self.asg.assign_by_decision(lit(l));
        self.closed = false;
        self.count("decisions taken back at once");
    }

    /// settles and clears everything that may refer to clauses by identifier
    fn ready(&mut self) -> Result<bool, String> {
        self.settle()
    }

    fn nth_held(&self, x: i64) -> Option<usize> {
        let n = self.held.len();
        (n > 0).then(|| *self.held.keys().nth(x.unsigned_abs() as usize % n).unwrap())
    }

    /// removes a clause on request
    pub fn remove(&mut self, i: usize) -> Check {
        self.cdb.remove_clause(ClauseId::from(i));
        self.held.remove(&i);
        Ok(())
    }

    /// one operation; the history goes on unless `over`
    pub fn step(&mut self, op: &[i64]) -> Check {
        let a = op.get(1).copied().unwrap_or(0);
        let b = op.get(2).copied().unwrap_or(0);
        match op[0] {
            // clauses of the problem
            0 => {
                let c: Vec<i32> = op[1..].iter().map(|x| self.pick_lit(*x)).collect();
                if c.is_empty() {
                    return Ok(());
                }
                self.add(&c, false)?;
            }
            // a decision
            1 => {
                if !self.closed && !self.propagate()? {
                    return Ok(());
                }
                let u = self.unassigned();
                if u.is_empty() {
                    self.count("total assignments");
                    return self.to_root();
                }
                let v = u[a.unsigned_abs() as usize % u.len()] as i32;
                self.decide(if b % 2 == 0 { v } else { -v })?;
            }
            // decisions taken back, but for the first, before any of them is propagated
            14 => {
                if !self.closed && !self.propagate()? {
                    return Ok(());
                }
                let at = self.open.len();
                for k in 0..2 + (b / 2) % 3 {
                    let u = self.unassigned();
                    if !u.is_empty() {
                        let v = u[(a.unsigned_abs() as usize + 5 * k as usize) % u.len()] as i32;
                        self.decide_only(if (b >> k) % 2 == 0 { v } else { -v });
                    }
                }
                if self.open.len() > at {
                    self.cancel(at + 1)?;
                    self.propagate()?;
                }
            }
            // a decision by the stack's own order
            2 => {
                if !self.closed && !self.propagate()? {
                    return Ok(());
                }
                if self.unassigned().is_empty() {
                    return self.to_root();
                }
                let l = int(self.asg.select_decision_literal());
                if self.value(l).is_some() {
                    if self.watch.propagation {
                        return Err(format!("{l}, which is assigned, was selected for a decision"));
                    }
                    self.over = true;
                    return Ok(());
                }
                self.decide(l)?;
            }
            // a backtrack
            3 => {
                let n = self.open.len();
                if n > 0 {
                    self.cancel(a.unsigned_abs() as usize % n)?;
                    self.propagate()?;
                }
            }
            // a root assignment
            4 => {
                let l = self.pick_lit(a);
                if self.value(l) == Some(false) && a % 3 != 0 {
                    // the history should rarely end
                    return Ok(());
                }
                if self.assign_root(l)? && b % 2 == 0 {
                    self.propagate()?;
                }
            }
            5 => {
                self.settle()?;
            }
            // removal of a clause
            6 => {
                if self.ready()? {
                    if let Some(i) = self.nth_held(a) {
                        self.remove(i)?;
                        self.count("removals");
                    }
                }
            }
            // a new variable
            7 => {
                if self.nv < 60 && self.ready()? {
                    self.asg.handle(SolverEvent::NewVar);
                    self.cdb.handle(SolverEvent::NewVar);
                    self.nv += 1;
                    self.count("variables added");
                }
            }
            // strengthening by one literal
            8 => {
                if !self.ready()? {
                    return Ok(());
                }
                let Some(i) = self.nth_held(a) else {
                    return Ok(());
                };
                let h = self.held[&i].clone();
                let p = h.lits[b.unsigned_abs() as usize % h.lits.len()];
                let rest: Vec<i32> = h.lits.iter().copied().filter(|l| *l != p).collect();
                let twin = self
                    .held
                    .iter()
                    .find(|(_, o)| o.lits == rest)
                    .map(|(i, _)| *i);
                // a literal is dropped when it is false at level 0
                if !self.assign_root(-p)? {
                    return Ok(());
                }
                self.count("strengthenings");
                let r = self.cdb.transform_by_elimination(ClauseId::from(i), lit(p));
                match r {
                    RefClause::UnitClause(l) if rest == vec![int(l)] => {
                        if self.assign_root(rest[0])? {
                            self.remove(i)?;
                        }
                    }
                    RefClause::RegisteredClause(cid)
                        if rest.len() == 2 && Some(usize::from(cid)) == twin =>
                    {
                        self.remove(i)?;
                    }
                    RefClause::Clause(cid)
                        if usize::from(cid) == i
                            && rest.len() >= 2
                            && (rest.len() > 2 || twin.is_none()) =>
                    {
                        self.held.get_mut(&i).unwrap().lits = rest;
                    }
                    r => {
                        return Err(format!(
                            "strengthening {:?} by {p} gave {r:?}{}",
                            h.lits,
                            if twin.is_some() { " although the result is registered" } else { "" }
                        ));
                    }
                }
            }
            // replacement by a shorter clause
            9 => {
                if !self.ready()? {
                    return Ok(());
                }
                let Some(i) = self.nth_held(a) else {
                    return Ok(());
                };
                let h = self.held[&i].clone();
                if h.lits.len() < 3 {
                    return Ok(());
                }
                // rotate, then cut
                let keep = 2 + op.get(3).copied().unwrap_or(0).unsigned_abs() as usize
                    % (h.lits.len() - 2);
                let order: Vec<i32> = self.cdb[ClauseId::from(i)]
                    .iter()
                    .map(|l| int(*l))
                    .collect();
                let rot = b.unsigned_abs() as usize % order.len();
                let mut new: Vec<i32> = order.iter().cycle().skip(rot).take(keep).copied().collect();
                if op.get(4).copied().unwrap_or(0) % 2 == 1 {
                    new.reverse();
                }
                let n = normal(new.clone());
                let twin = self
                    .held
                    .iter()
                    .find(|(_, o)| o.lits == n && n.len() == 2)
                    .map(|(i, _)| *i);
                let mut v: Vec<Lit> = new.iter().map(|l| lit(*l)).collect();
                self.count("replacements");
                match self
                    .cdb
                    .transform_by_replacement(ClauseId::from(i), &mut v)
                {
                    RefClause::RegisteredClause(cid) if Some(usize::from(cid)) == twin => {
                        self.remove(i)?;
                    }
                    RefClause::Clause(cid) if usize::from(cid) == i && twin.is_none() => {
                        let e = self.held.get_mut(&i).unwrap();
                        e.lits = n;
                    }
                    r => {
                        return Err(format!("replacing {:?} by {new:?} gave {r:?}", h.lits));
                    }
                }
            }
            // a clause for a while, as vivification uses it
            10 => {
                if !self.ready()? {
                    return Ok(());
                }
                let mut v: Vec<Lit> = Vec::new();
                for x in &op[1..] {
                    let l = self.pick_lit(*x);
                    if self.value(l).is_none() && !v.contains(&lit(l)) && !v.contains(&lit(-l)) {
                        v.push(lit(l));
                    }
                }
                if v.len() < 2 {
                    return Ok(());
                }
                let n = normal(ints(&v));
                let twin = n.len() == 2 && self.held.values().any(|h| h.lits == n);
                self.count("sandbox clauses");
                match self.cdb.new_clause_sandbox(&mut self.asg, &mut v) {
                    RefClause::RegisteredClause(_) if twin => (),
                    RefClause::Clause(cid) if !twin && !self.held.contains_key(&usize::from(cid)) => {
                        self.last_scratch = usize::from(cid);
                        need!(
                            self.live().get(&self.last_scratch) == Some(&n),
                            "the sandbox clause {n:?} is stored as {:?}",
                            self.live().get(&self.last_scratch)
                        );
                        self.cdb.remove_clause_sandbox(cid);
                    }
                    r => return Err(format!("the sandbox clause {n:?} gave {r:?}")),
                }
            }
            // a learnt clause: a consequence of a held one
            11 => {
                if !self.ready()? {
                    return Ok(());
                }
                let Some(i) = self.nth_held(a) else {
                    return Ok(());
                };
                let mut c = self.held[&i].lits.clone();
                for x in &op[2..] {
                    let l = self.pick_lit(*x);
                    if !c.contains(&l) && !c.contains(&-l) && self.value(l).is_none() {
                        c.push(l);
                    }
                }
                if c.len() > 2 {
                    let k = b.unsigned_abs() as usize % c.len();
                    c.rotate_left(k);
                    self.add(&c, true)?;
                    self.count("weakened copies learnt");
                }
            }
            // forgetting
            12 => {
                if !self.ready()? {
                    return Ok(());
                }
                let x = b.unsigned_abs() as usize;
                let how = match a.rem_euclid(5) {
                    0 => Some(ReductionType::RASonADD(x % 8)),
                    1 => Some(ReductionType::LBDonADD(x % 8)),
                    2 => Some(ReductionType::RASonALL(
                        (x % 9) as f64 / 2.0,
                        (x / 9 % 11) as f64 / 10.0,
                    )),
                    3 => Some(ReductionType::LBDonALL(
                        (x % 9) as u16,
                        (x / 9 % 11) as f64 / 10.0,
                    )),
                    _ => None,
                };
                let before: Vec<(usize, Held)> =
                    self.held.iter().map(|(i, h)| (*i, h.clone())).collect();
                match how {
                    Some(h) => {
                        self.cdb.reduce(&mut self.asg, h);
                        self.count("reductions");
                    }
                    None => {
                        if self.cdb.len() < 2 {
                            return Ok(());
                        }
                        self.cdb.reset();
                        self.count("resets");
                    }
                }
                let live = self.live();
                for (i, h) in before {
                    if !live.contains_key(&i) {
                        if h.learnt {
                            self.held.remove(&i);
                            self.count("clauses forgotten");
                        } else if self.watch.growth || self.watch.structure {
                            return Err(format!(
                                "the clause {:?} of the problem was forgotten",
                                h.lits
                            ));
                        }
                    }
                }
                if self.watch.growth {
                    for (i, h) in &self.held {
                        need!(
                            live[i] == h.lits,
                            "forgetting turned {:?} into {:?}",
                            h.lits,
                            live[i]
                        );
                    }
                    need!(
                        live.len() == self.held.len(),
                        "forgetting brought in a clause"
                    );
                }
            }
            // a direct call of the simplification of one clause
            13 => {
                self.to_root()?;
                self.asg.handle(SolverEvent::Reinitialize);
                // now and then before the literals of level 0 have been propagated
                let early = b % 2 == 1;
                if !self.closed && !early && !self.propagate()? {
                    return Ok(());
                }
                let Some(i) = self.nth_held(a) else {
                    return Ok(());
                };
                let h = self.held[&i].clone();
                if early {
                    self.count("simplified before propagation");
                    for k in 0..(b / 2) % 4 {
                        // watched literals first
                        let c = &self.cdb[ClauseId::from(i)];
                        let l = int(c.iter().nth(k as usize % c.len()).copied().unwrap());
                        if self.value(l).is_none() && !self.assign_root(-l)? {
                            return Ok(());
                        }
                    }
                    let open = h.lits.iter().filter(|l| self.value(**l) != Some(false)).count();
                    if open < 2 && h.lits.iter().all(|l| self.value(*l) != Some(true)) {
                        self.propagate()?;
                        return Ok(());
                    }
                }
                let set = self.assigned();
                let sat = h.lits.iter().any(|l| set.contains(l));
                let short: Vec<i32> = h.lits.iter().copied().filter(|l| !set.contains(&-l)).collect();
                let twin = self
                    .held
                    .iter()
                    .find(|(j, o)| **j != i && o.lits == short && short.len() == 2)
                    .map(|(i, _)| *i);
                self.count("simplifications");
                let r = self
                    .cdb
                    .transform_by_simplification(&mut self.asg, ClauseId::from(i));
                match r {
                    RefClause::Dead if sat => {
                        self.held.remove(&i);
                    }
                    RefClause::RegisteredClause(cid)
                        if !sat && Some(usize::from(cid)) == twin && short.len() < h.lits.len() =>
                    {
                        self.held.remove(&i);
                    }
                    RefClause::Clause(cid)
                        if !sat && usize::from(cid) == i && short.len() >= 2 =>
                    {
                        let e = self.held.get_mut(&i).unwrap();
                        e.lits = short;
                    }
                    r => {
                        return Err(format!(
                            "simplifying {:?} under {set:?} gave {r:?}",
                            h.lits
                        ));
                    }
                }
            }
            _ => (),
        }
        Ok(())
    }

    pub fn after_step(&mut self) -> Check {
        if self.over {
            return Ok(());
        }
        if self.watch.structure {
            self.check_structure()?;
        }
        if self.watch.counters {
            self.check_counts()?;
        }
        if self.watch.growth && self.closed {
            self.check_closed()?;
        }
        Ok(())
    }

    pub fn run(&mut self, ops: &[Vec<i64>]) -> Check {
        for (k, op) in ops.iter().enumerate() {
            if op.is_empty() {
                continue;
            }
            let r = self.step(op).and_then(|_| self.after_step());
            r.map_err(|e| format!("operation {k} {op:?}: {e}"))?;
            if self.over {
                break;
            }
        }
        Ok(())
    }
}

/// every live clause is found through exactly its two watched literals or its binary links,
/// nothing else is found, and the counts agree
pub fn structure(asg: &AssignStack, cdb: &mut ClauseDB, nv: usize) -> Check {
    let live: BTreeMap<usize, Vec<i32>> = cdb
        .iter()
        .enumerate()
        .skip(1)
        .filter(|(_, c)| !c.is_dead())
        .map(|(i, c)| (i, normal(Vec::<i32>::from(c))))
        .collect();
    // links and watches
    let mut found: HashMap<(usize, i32), usize> = HashMap::new();
    for v in 1..=nv as i32 {
        for x in [v, -v] {
            let l = lit(x);
            for (o, cid) in cdb.binary_links(l) {
                let i = usize::from(*cid);
                match live.get(&i) {
                    Some(c) => need!(
                        *c == normal(vec![x, int(*o)]),
                        "the binary link {x} {} leads to {c:?}",
                        int(*o)
                    ),
                    None => {
                        return Err(format!(
                            "the binary link {x} {} leads to a removed clause",
                            int(*o)
                        ));
                    }
                }
                *found.entry((i, x)).or_default() += 1;
            }
            let mut it = cdb.watch_cache_iter(l);
            while let Some(ix) = it.next() {
                let (cid, blocker) = cdb.fetch_watch_cache_entry(l, ix);
                it.restore_entry();
                let i = usize::from(cid);
                match live.get(&i) {
                    Some(c) => {
                        need!(
                            c.len() > 2,
                            "the two-literal clause {c:?} is among the watched clauses of {x}"
                        );
                        // a literal that can never become true does no harm
                        let gone = asg.var(blocker.vi()).is(FlagVar::ELIMINATED)
                            || asg.assigned(blocker) == Some(false)
                                && asg.level(blocker.vi()) == 0;
                        need!(
                            (c.contains(&int(blocker)) || gone) && int(blocker) != -x,
                            "the watch of {c:?} at {x} caches {}",
                            int(blocker)
                        );
                    }
                    None => return Err(format!("a watch of {x} leads to a removed clause")),
                }
                *found.entry((i, -x)).or_default() += 1;
            }
        }
    }
    for i in live.keys() {
        let c = &cdb[ClauseId::from(*i)];
        for l in [c.lit0(), c.lit1()] {
            let n = found.remove(&(*i, int(l))).unwrap_or(0);
            need!(
                n == 1,
                "the clause {:?} is found {n} times through its literal {}",
                live[i],
                int(l)
            );
        }
    }
    if let Some(((i, l), _)) = found.iter().next() {
        return Err(format!(
            "the clause {:?} is found through {l}, which it does not watch",
            live[i]
        ));
    }
    let n = live.len();
    let n2 = live.values().filter(|c| c.len() == 2).count();
    let nl = live
        .keys()
        .filter(|i| cdb[ClauseId::from(**i)].is(FlagClause::LEARNT))
        .count();
    for (k, name, want) in [
        (cp::Tusize::NumClause, "clauses", n),
        (cp::Tusize::NumBiClause, "binary clauses", n2),
        (cp::Tusize::NumLearnt, "learnt clauses", nl),
    ] {
        let got = cdb.derefer(k);
        need!(got == want, "{got} {name} are reported, there are {want}");
    }
    Ok(())
}
