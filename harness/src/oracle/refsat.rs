//! An independent reference SAT solver: a plain CDCL (two watched literals, first UIP,
//! VSIDS with a linear-time heap substitute, geometric restarts, no clause deletion and no
//! pre- or in-processing).  The models it returns are checked by the caller, so nothing
//! rests on its soundness when it answers SAT.

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Answer {
    Sat(Vec<bool>),
    Unsat,
    Unknown,
}

struct S {
    cls: Vec<Vec<u32>>,
    watch: Vec<Vec<u32>>,
    val: Vec<i8>,
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<u32>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<u32>,
    pos: Vec<i32>,
    seen: Vec<bool>,
}

const NONE: u32 = u32::MAX;

fn enc(l: i32) -> u32 {
    2 * l.unsigned_abs() + (l < 0) as u32
}

impl S {
    fn value(&self, l: u32) -> i8 {
        let v = self.val[(l >> 1) as usize];
        if l & 1 == 1 { -v } else { v }
    }
    fn assign(&mut self, l: u32, r: u32) {
        let v = (l >> 1) as usize;
        self.val[v] = if l & 1 == 1 { -1 } else { 1 };
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            let np = p ^ 1;
            let mut ws = std::mem::take(&mut self.watch[np as usize]);
            let mut i = 0;
            let mut j = 0;
            let mut confl = NONE;
            'next: while i < ws.len() {
                let ci = ws[i];
                i += 1;
                let c = ci as usize;
                if self.cls[c][0] == np {
                    self.cls[c].swap(0, 1);
                }
                let first = self.cls[c][0];
                if self.value(first) == 1 {
                    ws[j] = ci;
                    j += 1;
                    continue;
                }
                for k in 2..self.cls[c].len() {
                    let l = self.cls[c][k];
                    if self.value(l) != -1 {
                        self.cls[c].swap(1, k);
                        self.watch[l as usize].push(ci);
                        continue 'next;
                    }
                }
                ws[j] = ci;
                j += 1;
                if self.value(first) == -1 {
                    confl = ci;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                } else {
                    self.assign(first, ci);
                }
            }
            ws.truncate(j);
            self.watch[np as usize] = ws;
            if confl != NONE {
                return confl;
            }
        }
        NONE
    }
    fn cancel(&mut self, lv: usize) {
        if self.lim.len() <= lv {
            return;
        }
        let to = self.lim[lv];
        while self.trail.len() > to {
            let l = self.trail.pop().unwrap();
            let v = (l >> 1) as usize;
            self.phase[v] = l & 1 == 0;
            self.val[v] = 0;
            if self.pos[v] < 0 {
                self.heap_push(v as u32);
            }
        }
        self.lim.truncate(lv);
        self.qhead = to;
    }
    fn heap_push(&mut self, v: u32) {
        self.pos[v as usize] = self.heap.len() as i32;
        self.heap.push(v);
        self.up(self.heap.len() - 1);
    }
    fn up(&mut self, mut i: usize) {
        while i > 0 {
            let q = (i - 1) / 2;
            if self.act[self.heap[q] as usize] >= self.act[self.heap[i] as usize] {
                break;
            }
            self.heap.swap(i, q);
            self.pos[self.heap[i] as usize] = i as i32;
            self.pos[self.heap[q] as usize] = q as i32;
            i = q;
        }
    }
    fn down(&mut self, mut i: usize) {
        loop {
            let mut m = i;
            for c in [2 * i + 1, 2 * i + 2] {
                if c < self.heap.len()
                    && self.act[self.heap[c] as usize] > self.act[self.heap[m] as usize]
                {
                    m = c;
                }
            }
            if m == i {
                break;
            }
            self.heap.swap(i, m);
            self.pos[self.heap[i] as usize] = i as i32;
            self.pos[self.heap[m] as usize] = m as i32;
            i = m;
        }
    }
    fn pop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let v = self.heap[0];
        let last = self.heap.pop().unwrap();
        self.pos[v as usize] = -1;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.pos[last as usize] = 0;
            self.down(0);
        }
        Some(v)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.pos[v] >= 0 {
            self.up(self.pos[v] as usize);
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<u32>, usize) {
        let mut learnt = vec![0u32];
        let mut n = 0;
        let mut idx = self.trail.len();
        let mut p = NONE;
        let cur = self.lim.len() as u32;
        loop {
            let c = self.cls[confl as usize].clone();
            for &q in c.iter() {
                if q == p {
                    continue;
                }
                let v = (q >> 1) as usize;
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    self.bump(v);
                    if self.level[v] == cur {
                        n += 1;
                    } else {
                        learnt.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] {
                    break;
                }
            }
            p = self.trail[idx];
            self.seen[(p >> 1) as usize] = false;
            n -= 1;
            if n == 0 {
                break;
            }
            confl = self.reason[(p >> 1) as usize];
        }
        learnt[0] = p ^ 1;
        let all = learnt.clone();
        // local minimisation
        let mut k = 1;
        for i in 1..learnt.len() {
            let l = learnt[i];
            let r = self.reason[(l >> 1) as usize];
            let redundant = r != NONE
                && self.cls[r as usize].iter().all(|&q| {
                    q >> 1 == l >> 1
                        || self.seen[(q >> 1) as usize]
                        || self.level[(q >> 1) as usize] == 0
                });
            if !redundant {
                learnt[k] = l;
                k += 1;
            }
        }
        learnt.truncate(k);
        for l in all {
            self.seen[(l >> 1) as usize] = false;
        }
        let mut bt = 0;
        for i in 1..learnt.len() {
            let lv = self.level[(learnt[i] >> 1) as usize] as usize;
            if lv > bt {
                bt = lv;
                learnt.swap(1, i);
            }
        }
        (learnt, bt)
    }
}

/// decide a formula over variables 1..=nv within `max_conflicts` conflicts
pub fn solve(nv: usize, formula: &[Vec<i32>], max_conflicts: usize) -> Answer {
    let mut s = S {
        cls: Vec::new(),
        watch: vec![Vec::new(); 2 * nv + 2],
        val: vec![0; nv + 1],
        level: vec![0; nv + 1],
        reason: vec![NONE; nv + 1],
        trail: Vec::new(),
        lim: Vec::new(),
        qhead: 0,
        act: vec![0.0; nv + 1],
        inc: 1.0,
        phase: vec![false; nv + 1],
        heap: Vec::new(),
        pos: vec![-1; nv + 1],
        seen: vec![false; nv + 1],
    };
    for v in 1..=nv {
        s.heap_push(v as u32);
    }
    for c in formula {
        let mut c: Vec<u32> = c.iter().map(|l| enc(*l)).collect();
        c.sort_unstable();
        c.dedup();
        if c.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            continue;
        }
        match c.len() {
            0 => return Answer::Unsat,
            1 => match s.value(c[0]) {
                -1 => return Answer::Unsat,
                0 => s.assign(c[0], NONE),
                _ => (),
            },
            _ => {
                let i = s.cls.len() as u32;
                s.watch[c[0] as usize].push(i);
                s.watch[c[1] as usize].push(i);
                s.cls.push(c);
            }
        }
    }
    // clauses were attached before all units were known: propagate from the start
    let mut conflicts = 0;
    let mut until = 100.0f64;
    let mut since = 0.0;
    loop {
        let confl = s.propagate();
        if confl != NONE {
            if s.lim.is_empty() {
                return Answer::Unsat;
            }
            conflicts += 1;
            since += 1.0;
            if conflicts > max_conflicts {
                return Answer::Unknown;
            }
            let (learnt, bt) = s.analyze(confl);
            s.cancel(bt);
            if learnt.len() == 1 {
                s.assign(learnt[0], NONE);
            } else {
                let i = s.cls.len() as u32;
                s.watch[learnt[0] as usize].push(i);
                s.watch[learnt[1] as usize].push(i);
                let l0 = learnt[0];
                s.cls.push(learnt);
                s.assign(l0, i);
            }
            s.inc /= 0.95;
        } else {
            if since > until {
                since = 0.0;
                until *= 1.2;
                s.cancel(0);
                continue;
            }
            let v = loop {
                match s.pop() {
                    None => {
                        return Answer::Sat(
                            (0..=nv).map(|v| s.val[v] == 1).collect::<Vec<bool>>(),
                        );
                    }
                    Some(v) if s.val[v as usize] == 0 => break v,
                    _ => (),
                }
            };
            s.lim.push(s.trail.len());
            let l = 2 * v + (!s.phase[v as usize]) as u32;
            s.assign(l, NONE);
        }
    }
}
