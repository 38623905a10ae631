//! Compares the oracles with definitions written as plainly as possible (`splrcheck selftest`).
use super::{drat, refsat, table, table_empty};
use crate::{gen_cnf, rng::Rng};

fn naive_sat(nv: usize, cls: &[Vec<i32>]) -> bool {
    (0..1u32 << nv).any(|m| {
        cls.iter()
            .all(|c| c.iter().any(|l| (m >> (l.unsigned_abs() - 1) & 1 == 1) == (*l > 0)))
    })
}

/// does unit propagation on the clauses and the negation of `c` end in a conflict?
fn naive_rup(cls: &[Vec<i32>], c: &[i32]) -> bool {
    let mut t: Vec<i32> = c.iter().map(|l| -l).collect();
    loop {
        if t.iter().any(|l| t.contains(&-l)) {
            return true;
        }
        let mut changed = false;
        for d in cls {
            if d.iter().any(|l| t.contains(l)) {
                continue;
            }
            let mut open: Vec<i32> = d.iter().copied().filter(|l| !t.contains(&-l)).collect();
            open.sort_unstable();
            open.dedup();
            match open.len() {
                0 => return true,
                1 => {
                    t.push(open[0]);
                    changed = true;
                }
                _ => (),
            }
        }
        if !changed {
            return false;
        }
    }
}

fn key(c: &[i32]) -> Vec<i32> {
    let mut k = c.to_vec();
    k.sort_unstable();
    k.dedup();
    k
}

/// the first step that does not hold (None: all do), and whether the empty clause was reached
fn naive_drat(formula: &[Vec<i32>], proof: &[drat::Step]) -> (Option<usize>, bool) {
    let mut db: Vec<Vec<i32>> = formula.iter().map(|c| key(c)).collect();
    for (i, s) in proof.iter().enumerate() {
        if naive_rup(&db, &[]) {
            return (None, true);
        }
        match s {
            drat::Step::Add(c) => {
                let ok = naive_rup(&db, c)
                    || c.first().is_some_and(|p| {
                        db.iter().filter(|d| d.contains(&-p) && !d.contains(p)).all(|d| {
                            let mut r = c.clone();
                            r.extend(d.iter().filter(|l| **l != -p));
                            naive_rup(&db, &r)
                        })
                    });
                if !ok {
                    return (Some(i), false);
                }
                db.push(key(c));
            }
            drat::Step::Del(c) => {
                // only deletions which change nothing at the top level are generated
                let k = key(c);
                if let Some(p) = db.iter().position(|d| *d == k) {
                    db.remove(p);
                }
            }
        }
    }
    (None, naive_rup(&db, &[]))
}

fn units(cls: &[Vec<i32>], nv: usize) -> Vec<i32> {
    (1..=nv as i32)
        .flat_map(|v| [v, -v])
        .filter(|l| naive_rup(cls, &[*l]))
        .collect()
}

pub fn run(seed: u64, cases: u64) -> i32 {
    let (mut sat, mut unsat, mut accepted, mut rejected, mut refuted) = (0, 0, 0, 0, 0);
    for i in 0..cases {
        let mut r = Rng::for_case(seed, "selftest", i);
        let nv = r.range(1, 9) as usize;
        let m = r.range(1, 4 * nv as i64 + 4) as usize;
        let cls = if r.chance(1, 2) {
            gen_cnf::messy(&mut r, nv, m)
        } else {
            gen_cnf::mixed(&mut r, nv, m, 4)
        };
        let nv = nv.max(gen_cnf::max_var(&cls));
        if nv > 14 {
            continue;
        }
        let truth = naive_sat(nv, &cls);
        if truth { sat += 1 } else { unsat += 1 }
        assert_eq!(!table_empty(&table(nv, &cls)), truth, "truth table: {cls:?}");
        match refsat::solve(nv, &cls, 100_000) {
            refsat::Answer::Unsat => assert!(!truth, "refsat: {cls:?}"),
            refsat::Answer::Sat(m) => {
                assert!(truth && super::falsified(&cls, &m).is_none(), "refsat: {cls:?}")
            }
            refsat::Answer::Unknown => panic!("refsat gave up: {cls:?}"),
        }
        // a random "proof": short lemmas, and deletions of clauses that are not at work
        let mut db: Vec<Vec<i32>> = cls.iter().map(|c| key(c)).collect();
        let mut proof = Vec::new();
        for _ in 0..r.range(1, 8) {
            if r.chance(1, 3) && !db.is_empty() {
                let p = r.range(0, db.len() as i64 - 1) as usize;
                let mut rest = db.clone();
                let c = rest.remove(p);
                // the checker ignores deletions of units and reasons: draw none that matter
                if c.len() > 1 && units(&rest, nv) == units(&db, nv) && units(&db, nv).is_empty() {
                    proof.push(drat::Step::Del(c));
                    db = rest;
                }
            } else {
                let len = r.range(0, 3) as usize;
                let mut c: Vec<i32> = Vec::new();
                for _ in 0..len {
                    let v = r.range(1, nv as i64) as i32;
                    if !c.contains(&v) && !c.contains(&-v) {
                        c.push(if r.chance(1, 2) { v } else { -v });
                    }
                }
                // mostly lemmas that hold
                if c.is_empty() && !naive_rup(&db, &[]) && !r.chance(1, 10)
                    || !c.is_empty() && naive_drat(&db, &[drat::Step::Add(c.clone())]).0.is_some() && !r.chance(1, 10)
                {
                    continue;
                }
                db.push(key(&c));
                proof.push(drat::Step::Add(c));
            }
        }
        let (bad, end) = naive_drat(&cls, &proof);
        match drat::derive(nv, &cls, &proof) {
            Ok(d) => {
                assert!(bad.is_none() && d.refuted == end, "drat accepts {cls:?} {proof:?}");
                accepted += 1;
                refuted += end as u64;
                assert!(!end || !truth, "refuted a satisfiable formula: {cls:?} {proof:?}");
            }
            Err(e) => {
                assert!(bad.is_some(), "drat rejects {cls:?} {proof:?}: {e}");
                rejected += 1;
            }
        }
        for s in &proof {
            if let drat::Step::Add(c) = s {
                let line = c.iter().map(|l| format!("{l} ")).collect::<String>() + "0\n";
                assert_eq!(drat::parse(line.as_bytes()), Ok(vec![s.clone()]));
            }
        }
    }
    println!(
        "selftest: {sat} satisfiable, {unsat} not; proofs: {accepted} accepted ({refuted} refutations), {rejected} rejected"
    );
    0
}
