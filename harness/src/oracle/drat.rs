//! A forward DRAT checker.
//!
//! Every lemma must be RUP with respect to the clauses active at that point, or RAT on its
//! first literal.  As in drat-trim, deletions of unit clauses and of clauses which are the
//! reason of a literal assigned at the top level are ignored, and so is the deletion of a
//! clause which is not present.  Clauses with two complementary literals do not take part.
use std::collections::HashMap;

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Step {
    Add(Vec<i32>),
    Del(Vec<i32>),
}

/// parse a textual DRAT proof strictly
pub fn parse(text: &[u8]) -> Result<Vec<Step>, String> {
    let s = std::str::from_utf8(text).map_err(|_| "proof is not text".to_string())?;
    let mut steps = Vec::new();
    for (no, line) in s.lines().enumerate() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('c') {
            continue;
        }
        let (del, rest) = match line.strip_prefix('d') {
            Some(r) => (true, r),
            None => (false, line),
        };
        let mut v = Vec::new();
        let mut closed = false;
        for w in rest.split_whitespace() {
            if closed {
                return Err(format!("proof line {}: tokens after 0", no + 1));
            }
            let x: i32 = w
                .parse()
                .map_err(|_| format!("proof line {}: bad token {w:?}", no + 1))?;
            if x == 0 {
                closed = true;
            } else {
                v.push(x);
            }
        }
        if !closed {
            return Err(format!("proof line {}: not terminated by 0", no + 1));
        }
        steps.push(if del { Step::Del(v) } else { Step::Add(v) });
    }
    Ok(steps)
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub lemmas: usize,
    pub deletions: usize,
    pub rat: usize,
    pub missing_deletions: usize,
    pub ignored_deletions: usize,
    pub after_conflict: usize,
}

struct Ck {
    cls: Vec<Vec<u32>>, // normalised; empty = deleted
    watch: Vec<Vec<u32>>,
    val: Vec<i8>,
    reason: Vec<u32>,
    trail: Vec<u32>,
    qhead: usize,
    index: HashMap<Vec<u32>, Vec<u32>>,
    /// clauses by literal, made when first needed
    occ: Option<Vec<Vec<u32>>>,
}
const NONE: u32 = u32::MAX;

impl Ck {
    fn value(&self, l: u32) -> i8 {
        let v = self.val[(l >> 1) as usize];
        if l & 1 == 1 { -v } else { v }
    }
    fn assign(&mut self, l: u32, r: u32) {
        let v = (l >> 1) as usize;
        self.val[v] = if l & 1 == 1 { -1 } else { 1 };
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> bool {
        while self.qhead < self.trail.len() {
            let np = self.trail[self.qhead] ^ 1;
            self.qhead += 1;
            let mut ws = std::mem::take(&mut self.watch[np as usize]);
            let (mut i, mut j) = (0, 0);
            let mut ok = true;
            'next: while i < ws.len() {
                let ci = ws[i];
                i += 1;
                let c = ci as usize;
                if self.cls[c].is_empty() {
                    continue; // deleted
                }
                if self.cls[c][0] == np {
                    self.cls[c].swap(0, 1);
                }
                if self.cls[c][1] != np {
                    continue; // stale watch
                }
                let first = self.cls[c][0];
                if self.value(first) == 1 {
                    ws[j] = ci;
                    j += 1;
                    continue;
                }
                for k in 2..self.cls[c].len() {
                    let l = self.cls[c][k];
                    if self.value(l) != -1 {
                        self.cls[c].swap(1, k);
                        self.watch[l as usize].push(ci);
                        continue 'next;
                    }
                }
                ws[j] = ci;
                j += 1;
                if self.value(first) == -1 {
                    ok = false;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                } else {
                    self.assign(first, ci);
                }
            }
            ws.truncate(j);
            self.watch[np as usize] = ws;
            if !ok {
                return false;
            }
        }
        true
    }
    fn undo(&mut self, n: usize) {
        while self.trail.len() > n {
            let l = self.trail.pop().unwrap();
            self.val[(l >> 1) as usize] = 0;
        }
        self.qhead = n;
    }
    /// adds a clause and propagates at top level; false if the formula became refuted
    fn add(&mut self, lits: &[u32]) -> bool {
        let mut key = lits.to_vec();
        key.sort_unstable();
        key.dedup();
        let id = self.cls.len() as u32;
        self.index.entry(key.clone()).or_default().push(id);
        let mut c = key;
        if let Some(occ) = &mut self.occ {
            for l in &c {
                occ[*l as usize].push(id);
            }
        }
        if c.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            self.cls.push(c); // tautology: never watched
            return true;
        }
        // non-false literals first
        c.sort_by_key(|l| self.value(*l) == -1);
        let free = c.iter().filter(|l| self.value(**l) != -1).count();
        let sat = c.iter().any(|l| self.value(*l) == 1);
        if c.len() >= 2 {
            self.watch[c[0] as usize].push(id);
            self.watch[c[1] as usize].push(id);
        }
        let c0 = c.first().copied();
        self.cls.push(c);
        if sat {
            // a satisfied clause may be watched by a false literal: the trail is permanent
            return true;
        }
        match free {
            0 => false,
            1 => {
                self.assign(c0.unwrap(), id);
                self.propagate()
            }
            _ => true,
        }
    }
    /// is the clause implied by unit propagation? `extra` literals are assumed false as well
    fn rup(&mut self, lits: &[u32]) -> bool {
        let n = self.trail.len();
        for &l in lits {
            match self.value(l) {
                1 => {
                    self.undo(n);
                    return true;
                }
                0 => self.assign(l ^ 1, NONE),
                _ => (),
            }
        }
        let r = !self.propagate();
        self.undo(n);
        r
    }
}

/// checks that `proof` derives the empty clause from `formula`
pub fn check(nv: usize, formula: &[Vec<i32>], proof: &[Step]) -> Result<Stats, String> {
    let d = derive(nv, formula, proof)?;
    if d.refuted {
        Ok(d.stats)
    } else {
        Err(format!(
            "the proof ({} steps) never reaches the empty clause",
            proof.len()
        ))
    }
}

/// the state of the checker after a whole proof, every line of which holds
pub struct Derivation {
    k: Ck,
    pub stats: Stats,
    pub refuted: bool,
    /// the lemmas which are no consequences by unit propagation
    pub rat: Vec<Vec<i32>>,
}

impl Derivation {
    /// does the clause stand among the active ones?
    pub fn holds(&self, c: &[i32]) -> bool {
        let mut key: Vec<u32> = c.iter().map(enc).collect();
        key.sort_unstable();
        key.dedup();
        self.k.index.get(&key).is_some_and(|v| !v.is_empty())
    }
    /// is the clause implied by unit propagation?
    pub fn rup(&mut self, c: &[i32]) -> bool {
        let lits: Vec<u32> = c.iter().map(enc).collect();
        self.refuted || self.k.rup(&lits)
    }
}

fn enc(l: &i32) -> u32 {
    2 * l.unsigned_abs() + (*l < 0) as u32
}

/// checks every line of `proof`, whether or not it ends in the empty clause
pub fn derive(nv: usize, formula: &[Vec<i32>], proof: &[Step]) -> Result<Derivation, String> {
    let maxv = formula
        .iter()
        .map(|c| c.as_slice())
        .chain(proof.iter().map(|s| match s {
            Step::Add(c) | Step::Del(c) => c.as_slice(),
        }))
        .flat_map(|c| c.iter().map(|l| l.unsigned_abs() as usize))
        .max()
        .unwrap_or(0)
        .max(nv);
    if maxv > nv.max(1) * 4 + 1000 {
        return Err(format!("proof mentions variable {maxv} of a formula over {nv}"));
    }
    let mut st = Stats::default();
    let mut k = Ck {
        cls: Vec::new(),
        watch: vec![Vec::new(); 2 * maxv + 2],
        val: vec![0; maxv + 1],
        reason: vec![NONE; maxv + 1],
        trail: Vec::new(),
        qhead: 0,
        index: HashMap::new(),
        occ: None,
    };
    let mut rat = Vec::new();
    let mut refuted = false;
    for c in formula {
        let c: Vec<u32> = c.iter().map(enc).collect();
        if !k.add(&c) {
            refuted = true;
            break;
        }
    }
    for (no, s) in proof.iter().enumerate() {
        if refuted {
            st.after_conflict = proof.len() - no;
            break;
        }
        match s {
            Step::Add(c) => {
                st.lemmas += 1;
                let lits: Vec<u32> = c.iter().map(enc).collect();
                if !k.rup(&lits) {
                    // RAT on the first literal
                    let Some(&p) = lits.first() else {
                        return Err(format!(
                            "step {} of {}: the empty clause is not implied by unit propagation",
                            no + 1,
                            proof.len()
                        ));
                    };
                    if k.occ.is_none() {
                        let mut occ = vec![Vec::new(); k.watch.len()];
                        for (i, c) in k.cls.iter().enumerate() {
                            for l in c {
                                occ[*l as usize].push(i as u32);
                            }
                        }
                        k.occ = Some(occ);
                    }
                    let cands = k.occ.as_ref().unwrap()[(p ^ 1) as usize].clone();
                    for i in cands.into_iter().map(|i| i as usize) {
                        // deleted clauses are empty
                        if k.cls[i].is_empty() || k.cls[i].contains(&p) {
                            continue;
                        }
                        let mut r = lits.clone();
                        r.extend(k.cls[i].iter().copied().filter(|l| *l != p ^ 1));
                        r.sort_unstable();
                        r.dedup();
                        if r.windows(2).any(|w| w[0] ^ 1 == w[1]) {
                            continue;
                        }
                        if !k.rup(&r) {
                            return Err(format!(
                                "step {} of {}: lemma {:?} is neither RUP nor RAT on its first literal",
                                no + 1,
                                proof.len(),
                                c
                            ));
                        }
                    }
                    st.rat += 1;
                    rat.push(c.clone());
                }
                if !k.add(&lits) {
                    refuted = true;
                }
            }
            Step::Del(c) => {
                st.deletions += 1;
                let mut key: Vec<u32> = c.iter().map(enc).collect();
                key.sort_unstable();
                key.dedup();
                if key.len() == 1 {
                    st.ignored_deletions += 1;
                    continue;
                }
                let ids = k.index.get(&key).cloned().unwrap_or_default();
                let Some(pos) = ids.iter().position(|id| {
                    !key.iter()
                        .any(|l| k.value(*l) == 1 && k.reason[(*l >> 1) as usize] == *id)
                }) else {
                    if ids.is_empty() {
                        st.missing_deletions += 1;
                    } else {
                        st.ignored_deletions += 1;
                    }
                    continue;
                };
                let id = ids[pos];
                k.index.get_mut(&key).unwrap().remove(pos);
                k.cls[id as usize] = Vec::new();
            }
        }
    }
    Ok(Derivation {
        k,
        stats: st,
        refuted,
        rat,
    })
}
