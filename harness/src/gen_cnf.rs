//! Generators of CNF formulas.
use crate::rng::Rng;

pub type Cnf = Vec<Vec<i32>>;

#[derive(Clone, Debug)]
pub struct Formula {
    pub nv: usize,
    pub cls: Cnf,
    pub family: &'static str,
}

fn lit(r: &mut Rng, n: usize) -> i32 {
    let v = r.us(1, n) as i32;
    if r.bool() { v } else { -v }
}

fn distinct_clause(r: &mut Rng, n: usize, k: usize) -> Vec<i32> {
    let k = k.min(n);
    let mut c: Vec<i32> = Vec::with_capacity(k);
    while c.len() < k {
        let l = lit(r, n);
        if !c.contains(&l) && !c.contains(&-l) {
            c.push(l);
        }
    }
    c
}

/// uniform random k-SAT
pub fn ksat(r: &mut Rng, n: usize, k: usize, m: usize) -> Cnf {
    (0..m).map(|_| distinct_clause(r, n, k)).collect()
}

pub fn planted(r: &mut Rng, n: usize, k: usize, m: usize) -> Cnf {
    let model: Vec<bool> = (0..=n).map(|_| r.bool()).collect();
    (0..m)
        .map(|_| {
            let mut c = distinct_clause(r, n, k);
            if !c.iter().any(|l| model[l.unsigned_abs() as usize] == (*l > 0)) {
                let i = r.below(c.len());
                c[i] = -c[i];
            }
            c
        })
        .collect()
}

pub fn mixed(r: &mut Rng, n: usize, m: usize, maxw: usize) -> Cnf {
    (0..m)
        .map(|_| {
            let w = match r.weighted(&[1, 6, 10, 4, 2]) {
                0 => 1,
                1 => 2,
                2 => 3,
                3 => r.us(3, 6),
                _ => r.us(4, maxw.max(4)),
            };
            distinct_clause(r, n, w)
        })
        .collect()
}

pub fn pigeon(p: usize, h: usize) -> (usize, Cnf) {
    let v = |i: usize, j: usize| (i * h + j + 1) as i32;
    let mut f = Vec::new();
    for i in 0..p {
        f.push((0..h).map(|j| v(i, j)).collect());
    }
    for j in 0..h {
        for a in 0..p {
            for b in a + 1..p {
                f.push(vec![-v(a, j), -v(b, j)]);
            }
        }
    }
    (p * h, f)
}

fn xor_clauses(vars: &[i32], rhs: bool, f: &mut Cnf) {
    let k = vars.len();
    for m in 0..1u32 << k {
        // forbid the assignment m if its parity is wrong
        let par = m.count_ones() % 2 == 1;
        if par != rhs {
            f.push(
                (0..k)
                    .map(|i| if m >> i & 1 == 1 { -vars[i] } else { vars[i] })
                    .collect(),
            );
        }
    }
}

/// a random system of parity constraints
pub fn xors(r: &mut Rng, n: usize, m: usize, k: usize) -> Cnf {
    let mut f = Vec::new();
    for _ in 0..m {
        let c: Vec<i32> = distinct_clause(r, n, k).iter().map(|l| l.abs()).collect();
        xor_clauses(&c, r.bool(), &mut f);
    }
    f
}

pub fn coloring(r: &mut Rng, nodes: usize, k: usize, edges: usize) -> (usize, Cnf) {
    let v = |i: usize, c: usize| (i * k + c + 1) as i32;
    let mut f = Vec::new();
    for i in 0..nodes {
        f.push((0..k).map(|c| v(i, c)).collect());
        for a in 0..k {
            for b in a + 1..k {
                f.push(vec![-v(i, a), -v(i, b)]);
            }
        }
    }
    for _ in 0..edges {
        let a = r.below(nodes);
        let b = r.below(nodes);
        if a != b {
            for c in 0..k {
                f.push(vec![-v(a, c), -v(b, c)]);
            }
        }
    }
    (nodes * k, f)
}

/// an equivalence miter of two random re-bracketings of the same circuit (mostly UNSAT),
/// or a single circuit with its output forced
pub fn circuit(r: &mut Rng, inputs: usize, gates: usize, miter: bool) -> (usize, Cnf) {
    let mut f: Cnf = Vec::new();
    let mut n = inputs as i32;
    let plan: Vec<(usize, usize, usize, bool, bool)> = (0..gates)
        .map(|g| {
            let total = inputs + g;
            (
                r.weighted(&[3, 3, 2, 1]),
                r.below(total),
                if total > 6 && r.chance(2, 3) { total - 1 - r.below(5) } else { r.below(total) },
                r.bool(),
                r.bool(),
            )
        })
        .collect();
    let mut outs = Vec::new();
    for side in 0..(1 + miter as usize) {
        let mut node: Vec<i32> = (1..=inputs as i32).collect();
        for (op, a, b, sa, sb) in &plan {
            let x = if *sa { node[*a] } else { -node[*a] };
            let y = if *sb { node[*b] } else { -node[*b] };
            n += 1;
            let z = n;
            // the second side uses De Morgan duals and swapped operands
            let (x, y, z, op) = if side == 1 {
                match op {
                    0 => (-y, -x, -z, 1),
                    1 => (-y, -x, -z, 0),
                    _ => (y, x, z, *op),
                }
            } else {
                (x, y, z, *op)
            };
            match op {
                0 => {
                    f.push(vec![-z, x]);
                    f.push(vec![-z, y]);
                    f.push(vec![z, -x, -y]);
                }
                1 => {
                    f.push(vec![z, -x]);
                    f.push(vec![z, -y]);
                    f.push(vec![-z, x, y]);
                }
                2 => {
                    f.push(vec![-z, x, y]);
                    f.push(vec![-z, -x, -y]);
                    f.push(vec![z, -x, y]);
                    f.push(vec![z, x, -y]);
                }
                _ => {
                    // a buffer
                    f.push(vec![-z, x]);
                    f.push(vec![z, -x]);
                }
            }
            node.push(n);
        }
        outs.push(n);
    }
    if miter {
        f.push(vec![outs[0], outs[1]]);
        f.push(vec![-outs[0], -outs[1]]);
    } else {
        f.push(vec![if r.bool() { outs[0] } else { -outs[0] }]);
    }
    // operands may coincide: drop tautologies and repeated literals here
    f.retain(|c| !c.iter().any(|l| c.contains(&-l)));
    for c in f.iter_mut() {
        c.sort_unstable();
        c.dedup();
    }
    (n as usize, f)
}

/// implication chains triggered by units
pub fn chains(r: &mut Rng, n: usize) -> Cnf {
    let mut f = Vec::new();
    let mut order: Vec<i32> = (1..=n as i32).map(|v| if r.bool() { v } else { -v }).collect();
    r.shuffle(&mut order);
    for w in order.windows(2) {
        if r.chance(9, 10) {
            f.push(vec![-w[0], w[1]]);
        }
    }
    for _ in 0..n / 3 {
        let k = r.us(2, 5);
        f.push(distinct_clause(r, n, k));
    }
    for _ in 0..r.below(4) {
        f.push(vec![lit(r, n)]);
    }
    f
}

/// long clauses together with at-most-one constraints (exact cover like)
pub fn cover(r: &mut Rng, groups: usize, size: usize) -> (usize, Cnf) {
    let n = groups * size;
    let mut f = Vec::new();
    for g in 0..groups {
        let vs: Vec<i32> = (0..size).map(|i| (g * size + i + 1) as i32).collect();
        f.push(vs.clone());
        for i in 0..size {
            for j in i + 1..size {
                f.push(vec![-vs[i], -vs[j]]);
            }
        }
    }
    for _ in 0..n * 2 {
        let k = r.us(2, 3);
        let c: Vec<i32> = distinct_clause(r, n, k).iter().map(|l| -l.abs()).collect();
        f.push(c);
    }
    (n, f)
}

/// literals repeated, tautologies, units and duplicates all mixed
pub fn messy(r: &mut Rng, n: usize, m: usize) -> Cnf {
    let mut f: Cnf = Vec::new();
    for _ in 0..m {
        if !f.is_empty() && r.chance(1, 8) {
            let c = r.pick(&f).clone();
            f.push(c);
            continue;
        }
        let k = r.weighted(&[0, 2, 5, 7, 3, 1, 1]);
        let mut c: Vec<i32> = (0..k).map(|_| lit(r, n)).collect();
        if r.chance(1, 6) {
            let l = c[r.below(c.len())];
            c.push(if r.bool() { l } else { -l });
        }
        f.push(c);
    }
    f
}

/// rename, flip and shuffle; adds duplicated, subsumed and extended clauses now and then
pub fn scramble(r: &mut Rng, nv: usize, cls: Cnf) -> Cnf {
    let mut map: Vec<i32> = (1..=nv as i32).collect();
    r.shuffle(&mut map);
    for m in map.iter_mut() {
        if r.bool() {
            *m = -*m;
        }
    }
    let mut out: Cnf = cls
        .into_iter()
        .map(|c| {
            c.into_iter()
                .map(|l| map[(l.unsigned_abs() - 1) as usize] * l.signum())
                .collect()
        })
        .collect();
    if !out.is_empty() && r.chance(1, 3) {
        for _ in 0..r.us(1, 1 + out.len() / 8) {
            let mut c = r.pick(&out).clone();
            let k = r.below(3);
            for _ in 0..k {
                let l = lit(r, nv);
                if !c.contains(&l) && !c.contains(&-l) {
                    c.push(l);
                }
            }
            out.push(c);
        }
    }
    r.shuffle(&mut out);
    for c in out.iter_mut() {
        if r.chance(1, 2) {
            r.shuffle(c);
        }
    }
    out
}

/// long clauses, most literals of which are made false by implications from few variables
pub fn wide(r: &mut Rng, n: usize) -> Cnf {
    let sel = r.us(1, 6.min(n - 1));
    let mut f = Vec::new();
    let body: Vec<i32> = (sel + 1..=n).map(|v| if r.bool() { v as i32 } else { -(v as i32) }).collect();
    for _ in 0..r.us(1, 4) {
        let keep = *r.pick(&[1000usize, 999, 950, 500]);
        let mut c: Vec<i32> = body
            .iter()
            .copied()
            .filter(|_| r.below(1000) < keep)
            .collect();
        if keep < 900 {
            for l in c.iter_mut() {
                if r.chance(1, 50) {
                    *l = -*l;
                }
            }
        }
        if r.chance(1, 3) {
            c.push(lit(r, sel));
        }
        r.shuffle(&mut c);
        f.push(c);
    }
    let spare = r.us(0, 3);
    for (i, l) in body.iter().enumerate() {
        if i < spare {
            continue;
        }
        let s = lit(r, sel);
        f.push(vec![s, -l]);
        if r.chance(1, 3) {
            f.push(vec![-s, -l]);
        }
    }
    for _ in 0..r.below(2 * sel) {
        let k = r.us(1, 3);
        f.push(distinct_clause(r, sel, k));
    }
    f
}

/// formulas far beyond the sizes of the other families, but easy to decide
fn giant(r: &mut Rng) -> (usize, Cnf, &'static str) {
    match r.below(7) {
        0 => {
            let n = [260, 700, 1100, 4200, 15_000, 66_000][r.weighted(&[6, 6, 6, 6, 3, 1])];
            (n, wide(r, n), "wide")
        }
        1 => {
            let n = *r.pick(&[5_000, 33_000, 70_000]);
            (n, chains(r, n), "long chains")
        }
        2 => {
            let n = *r.pick(&[3_000, 9_000, 20_000]);
            let m = n * r.us(15, 28) / 10;
            (n, ksat(r, n, 3, m), "sparse ksat")
        }
        3 => {
            let n = r.us(60, 300);
            let m = r.us(66_000, 80_000);
            (n, ksat(r, n, 12, m), "many clauses")
        }
        4 => {
            let (i, g) = (r.us(10, 200), r.us(1_000, 20_000));
            let (n, f) = circuit(r, i, g, false);
            (n, f, "large circuit")
        }
        5 => {
            // a few variables with very many occurrences
            let n = [1_000, 5_000, 20_000][r.weighted(&[3, 3, 1])];
            let mut f: Cnf = Vec::new();
            for v in 4..=n as i32 {
                let h = lit(r, 3);
                let l = if r.bool() { v } else { -v };
                f.push(if r.bool() { vec![h, l] } else { vec![h, l, lit(r, n)] });
            }
            f.retain(|c| !c.iter().any(|l| c.contains(&-l)));
            for c in f.iter_mut() {
                c.sort_unstable();
                c.dedup();
            }
            (n, f, "hubs")
        }
        _ => {
            let (p, h) = (r.us(2, 25), r.us(50, 60));
            let (n, f) = pigeon(p, h);
            (n, f, "large matching")
        }
    }
}

/// `scale`: 0 tiny (<=8 variables), 1 small (<=30), 2 medium (hundreds of conflicts),
/// 3 hard (thousands of conflicts), 4 giant
pub fn formula(r: &mut Rng, scale: usize) -> Formula {
    let (nv, cls, family): (usize, Cnf, &'static str) = match scale {
        0 => {
            let n = r.us(1, 8);
            match r.below(4) {
                0 => {
                    let m = r.us(0, n * 5);
                    (n, messy(r, n, m), "messy")
                }
                1 => {
                    let m = r.us(0, n * 5);
                    (n, mixed(r, n, m, n), "mixed")
                }
                2 => {
                    let k = r.us(1, 3);
                    let m = r.us(0, n * 6);
                    (n, ksat(r, n, k, m), "ksat")
                }
                _ => (n, chains(r, n), "chains"),
            }
        }
        1 => {
            let n = r.us(6, 30);
            match r.below(9) {
                0 => {
                    let m = n * r.us(20, 55) / 10;
                    (n, ksat(r, n, 3, m), "ksat")
                }
                1 => {
                    let m = n * r.us(10, 45) / 10;
                    (n, mixed(r, n, m, 12), "mixed")
                }
                2 => {
                    let m = n * r.us(10, 45) / 10;
                    (n, messy(r, n, m), "messy")
                }
                3 => (n, chains(r, n), "chains"),
                4 => {
                    let h = r.us(2, 4);
                    let p = h + r.below(2);
                    let (n, f) = pigeon(p, h);
                    (n, f, "pigeon")
                }
                5 => {
                    let n = r.us(6, 18);
                    let m = r.us(n / 2, n + 2);
                    (n, xors(r, n, m, 3), "xor")
                }
                6 => {
                    let nodes = r.us(3, 10);
                    let e = nodes * r.us(10, 30) / 10;
                    let (n, f) = coloring(r, nodes, 3, e);
                    (n, f, "coloring")
                }
                7 => {
                    let (i, g, m) = (r.us(2, 6), r.us(4, 12), r.bool());
                    let (n, f) = circuit(r, i, g, m);
                    (n, f, "circuit")
                }
                _ => {
                    let (g, s) = (r.us(2, 5), r.us(2, 6));
                    let (n, f) = cover(r, g, s);
                    (n, f, "cover")
                }
            }
        }
        2 => match r.below(8) {
            0 => {
                let n = r.us(50, 130);
                let m = n * r.us(400, 450) / 100;
                (n, ksat(r, n, 3, m), "ksat")
            }
            1 => {
                let n = r.us(40, 120);
                let m = n * r.us(28, 42) / 10;
                (n, mixed(r, n, m, 20), "mixed")
            }
            2 => {
                let n = r.us(80, 250);
                let m = n * r.us(380, 430) / 100;
                (n, planted(r, n, 3, m), "planted")
            }
            3 => {
                let (p, h) = *r.pick(&[(6, 5), (7, 6), (6, 6), (8, 7), (7, 7)]);
                let (n, f) = pigeon(p, h);
                (n, f, "pigeon")
            }
            4 => {
                let n = r.us(20, 45);
                let m = n + r.below(4) - 2;
                (n, xors(r, n, m, 3), "xor")
            }
            5 => {
                let nodes = r.us(20, 60);
                let e = nodes * r.us(20, 26) / 10;
                let (n, f) = coloring(r, nodes, 3, e);
                (n, f, "coloring")
            }
            6 => {
                let (i, g, m) = (r.us(5, 16), r.us(30, 120), r.chance(3, 4));
                let (n, f) = circuit(r, i, g, m);
                (n, f, "circuit")
            }
            _ => {
                let n = r.us(30, 60);
                let m = n * r.us(90, 100) / 10;
                (n, ksat(r, n, 4, m), "ksat4")
            }
        },
        4 => {
            let (n, mut f, name) = giant(r);
            if r.chance(1, 3) {
                // a small part of it is most likely contradictory
                let k = r.us(10, 40).min(n);
                let mut vs: Vec<i32> = Vec::new();
                while vs.len() < k {
                    let v = lit(r, n);
                    if !vs.contains(&v) && !vs.contains(&-v) {
                        vs.push(v);
                    }
                }
                let core = ksat(r, k, 3, 5 * k);
                f.extend(core.iter().map(|c| {
                    c.iter().map(|l| vs[l.unsigned_abs() as usize - 1] * l.signum()).collect()
                }));
            }
            (n, f, name)
        }
        _ => match r.below(6) {
            0 => {
                let n = r.us(130, 200);
                let m = n * r.us(415, 435) / 100;
                (n, ksat(r, n, 3, m), "ksat")
            }
            1 => {
                let n = r.us(60, 80);
                let m = n * r.us(94, 99) / 10;
                (n, ksat(r, n, 4, m), "ksat4")
            }
            2 => {
                let n = r.us(40, 60);
                let m = n + r.below(3) - 1;
                (n, xors(r, n, m, 3), "xor")
            }
            3 => {
                let nodes = r.us(80, 140);
                let e = nodes * r.us(22, 24) / 10;
                let (n, f) = coloring(r, nodes, 3, e);
                (n, f, "coloring")
            }
            4 => {
                let (i, g) = (r.us(12, 20), r.us(120, 300));
                let (n, f) = circuit(r, i, g, true);
                (n, f, "circuit")
            }
            _ => {
                let (p, h) = *r.pick(&[(8, 7), (9, 8), (8, 8)]);
                let (n, f) = pigeon(p, h);
                (n, f, "pigeon")
            }
        },
    };
    let cls = scramble(r, nv, cls);
    Formula { nv, cls, family }
}

/// largest variable used
pub fn max_var(cls: &[Vec<i32>]) -> usize {
    cls.iter()
        .flat_map(|c| c.iter().map(|l| l.unsigned_abs() as usize))
        .max()
        .unwrap_or(0)
}

/// DIMACS text with the given number of variables
pub fn dimacs(nv: usize, cls: &[Vec<i32>]) -> String {
    let mut s = format!("p cnf {nv} {}\n", cls.len());
    for c in cls {
        for l in c {
            s.push_str(&format!("{l} "));
        }
        s.push_str("0\n");
    }
    s
}
