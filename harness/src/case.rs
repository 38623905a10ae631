//! A test case: plain data, with a text form used for replay files and for the
//! worker protocol, and generic shrinking candidates.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Eq, PartialEq)]
pub struct Case {
    /// named integer parameters
    pub p: BTreeMap<String, i64>,
    /// clauses
    pub cls: Vec<Vec<i32>>,
    /// a sequence of operations
    pub ops: Vec<Vec<i64>>,
    /// raw text (a file, an argument list ...)
    pub txt: Vec<u8>,
}

impl Case {
    pub fn new() -> Case {
        Case::default()
    }
    pub fn get(&self, k: &str) -> i64 {
        *self.p.get(k).unwrap_or(&0)
    }
    pub fn has(&self, k: &str) -> bool {
        self.p.contains_key(k)
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.p.insert(k.to_string(), v);
        self
    }
    pub fn nv(&self) -> usize {
        self.get("nv").max(0) as usize
    }
    /// so small that it must be answered at once
    pub fn is_small(&self) -> bool {
        let lits: usize = self.cls.iter().map(|c| c.len() + 1).sum();
        let ops: usize = self.ops.iter().map(|o| o.len() + 1).sum();
        lits + ops + self.txt.len() <= 600
            && self.nv() <= 40
            && !self.has("giant")
            && !self.has("long")
            && self.cls.iter().flatten().all(|l| l.unsigned_abs() <= 40)
    }
    pub fn encode(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.p {
            s.push_str(&format!("p {k} {v}\n"));
        }
        for c in &self.cls {
            s.push('c');
            for l in c {
                s.push_str(&format!(" {l}"));
            }
            s.push('\n');
        }
        for o in &self.ops {
            s.push('o');
            for l in o {
                s.push_str(&format!(" {l}"));
            }
            s.push('\n');
        }
        if !self.txt.is_empty() {
            s.push_str("t ");
            for b in &self.txt {
                match b {
                    b'\\' => s.push_str("\\\\"),
                    b'\n' => s.push_str("\\n"),
                    0x20..=0x7e => s.push(*b as char),
                    _ => s.push_str(&format!("\\x{b:02x}")),
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn decode(s: &str) -> Case {
        let mut c = Case::new();
        for line in s.lines() {
            let (tag, rest) = if line.len() >= 2 {
                line.split_at(2)
            } else {
                (line, "")
            };
            match tag.trim_end() {
                "p" => {
                    let mut it = rest.split(' ');
                    let k = it.next().unwrap();
                    let v = it.next().unwrap().parse().unwrap();
                    c.set(k, v);
                }
                "c" => c.cls.push(
                    rest.split_whitespace()
                        .map(|x| x.parse().unwrap())
                        .collect(),
                ),
                "o" => c.ops.push(
                    rest.split_whitespace()
                        .map(|x| x.parse().unwrap())
                        .collect(),
                ),
                "t" => {
                    let b = rest.as_bytes();
                    let mut i = 0;
                    while i < b.len() {
                        if b[i] == b'\\' {
                            match b[i + 1] {
                                b'n' => {
                                    c.txt.push(b'\n');
                                    i += 2;
                                }
                                b'x' => {
                                    let h = std::str::from_utf8(&b[i + 2..i + 4]).unwrap();
                                    c.txt.push(u8::from_str_radix(h, 16).unwrap());
                                    i += 4;
                                }
                                x => {
                                    c.txt.push(x);
                                    i += 2;
                                }
                            }
                        } else {
                            c.txt.push(b[i]);
                            i += 1;
                        }
                    }
                }
                _ => (),
            }
        }
        c
    }
    /// Simpler variants, most aggressive first. `keep` lists parameters which
    /// must not be changed.
    pub fn shrinks(&self, keep: &[&str]) -> Vec<Case> {
        let mut out: Vec<Case> = Vec::new();
        fn chunks(n: usize) -> Vec<(usize, usize)> {
            let mut v = Vec::new();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i < n {
                    v.push((i, (i + size).min(n)));
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size = size.div_ceil(2);
            }
            v
        }
        for (a, b) in chunks(self.ops.len()) {
            let mut c = self.clone();
            c.ops.drain(a..b);
            out.push(c);
        }
        for (a, b) in chunks(self.cls.len()) {
            let mut c = self.clone();
            c.cls.drain(a..b);
            out.push(c);
        }
        if !self.txt.is_empty() {
            let lines: Vec<&[u8]> = self.txt.split_inclusive(|b| *b == b'\n').collect();
            for (a, b) in chunks(lines.len()) {
                let mut c = self.clone();
                c.txt = lines[..a]
                    .iter()
                    .chain(lines[b..].iter())
                    .flat_map(|l| l.iter().copied())
                    .collect();
                out.push(c);
            }
            if self.txt.len() <= 400 {
                for (a, b) in chunks(self.txt.len()) {
                    let mut c = self.clone();
                    c.txt.drain(a..b);
                    out.push(c);
                }
            }
        }
        // the highest variable, renamed to an unused one or dropped
        if self.has("nv") && !keep.contains(&"nv") {
            let used: std::collections::BTreeSet<i32> = self
                .cls
                .iter()
                .flat_map(|c| c.iter().map(|l| l.saturating_abs()))
                .collect();
            let m = used.len() as i64;
            if self.ops.is_empty() && self.txt.is_empty() && m < self.get("nv") {
                let map: BTreeMap<i32, i32> = used
                    .iter()
                    .enumerate()
                    .map(|(i, v)| (*v, i as i32 + 1))
                    .collect();
                let mut c = self.clone();
                for cl in c.cls.iter_mut() {
                    for l in cl.iter_mut() {
                        if *l != 0 {
                            *l = l.signum() * map[&l.saturating_abs()];
                        }
                    }
                }
                c.set("nv", m);
                out.push(c);
            }
        }
        if self.cls.iter().map(|c| c.len()).sum::<usize>() <= 600 {
            for (i, cl) in self.cls.iter().enumerate() {
                if cl.len() > 1 {
                    for j in 0..cl.len() {
                        let mut c = self.clone();
                        c.cls[i].remove(j);
                        out.push(c);
                    }
                }
            }
        }
        for (k, v) in &self.p {
            if keep.contains(&k.as_str()) || k == "nv" || *v == 0 {
                continue;
            }
            for w in [0, v / 2, v - v.signum()] {
                if w != *v {
                    let mut c = self.clone();
                    c.set(k, w);
                    out.push(c);
                }
            }
        }
        if self.ops.len() <= 60 {
            for (i, o) in self.ops.iter().enumerate() {
                for (j, x) in o.iter().enumerate().skip(1) {
                    for w in [0, x / 2, x - x.signum()] {
                        if w != *x {
                            let mut c = self.clone();
                            c.ops[i][j] = w;
                            out.push(c);
                        }
                    }
                }
                if o.len() > 2 {
                    let mut c = self.clone();
                    c.ops[i].pop();
                    out.push(c);
                }
            }
        }
        out
    }
}
