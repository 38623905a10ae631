//! C12 (CNF objects), C13 (dump_cnf), C14 (identifiers), C15 (Luby, stages), C16 (averages).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, guarded, scratch},
    ensure, fail, gen_cnf,
    props::loading::layout,
    rng::Rng,
    util::*,
};
use splr::{
    SatSolverIF, SolveIF, Solver,
    cnf::{CNF, CNFOperationError, CnfIf},
    solver::StageManager,
    types::*,
};
use std::collections::BTreeSet;

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C12), Box::new(C13), Box::new(C14), Box::new(C15), Box::new(C16)]
}

/// a strict DIMACS reader: header with the true counts, one comment syntax, clauses ended by 0
pub fn strict_dimacs(text: &str) -> Result<(usize, Vec<Vec<i32>>), String> {
    let mut head: Option<(usize, usize)> = None;
    let mut cls = Vec::new();
    let mut cur: Vec<i32> = Vec::new();
    for (n, line) in text.lines().enumerate() {
        if line.starts_with('c') {
            continue;
        }
        if let Some(rest) = line.strip_prefix('p') {
            let w: Vec<&str> = rest.split_whitespace().collect();
            if head.is_some() || w.len() != 3 || w[0] != "cnf" {
                return Err(format!("line {}: bad header {line:?}", n + 1));
            }
            let f = |s: &str| s.parse().map_err(|_| format!("bad header {line:?}"));
            head = Some((f(w[1])?, f(w[2])?));
            continue;
        }
        for w in line.split_whitespace() {
            let l: i32 = w.parse().map_err(|_| format!("line {}: bad literal {w:?}", n + 1))?;
            match head {
                None => return Err("a clause before the header".into()),
                Some((nv, _)) if l.unsigned_abs() as usize > nv => {
                    return Err(format!("line {}: literal {l} but {nv} variables declared", n + 1));
                }
                _ if l == 0 => cls.push(std::mem::take(&mut cur)),
                _ => cur.push(l),
            }
        }
    }
    let Some((nv, nc)) = head else {
        return Err("no header".into());
    };
    if !cur.is_empty() {
        return Err(format!("the last clause {cur:?} is not terminated"));
    }
    if cls.len() != nc {
        return Err(format!("{nc} clauses declared, {} written", cls.len()));
    }
    Ok((nv, cls))
}

fn key(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort_unstable();
    c
}

pub struct C12;
impl C12 {
    /// compare the object with the list of clauses it should hold
    fn compare(cnf: &CNF, want: &[Vec<i32>], what: &str) -> Result<(), String> {
        let nv = gen_cnf::max_var(want);
        if cnf.num_vars() as usize != nv {
            return Err(format!("{what}: {} vars instead of {nv}", cnf.num_vars()));
        }
        if cnf.num_clauses() != want.len() {
            return Err(format!(
                "{what}: {} clauses instead of {}",
                cnf.num_clauses(),
                want.len()
            ));
        }
        let s = cnf.to_string();
        if s != format!("CNF({nv} vars, {} clauses)", want.len()) {
            return Err(format!("{what}: displayed as {s}"));
        }
        let (n, cls) = strict_dimacs(&cnf.dump_to_string())
            .map_err(|e| format!("{what}: dump is not DIMACS: {e}"))?;
        if n != nv {
            return Err(format!("{what}: the dump declares {n} variables instead of {nv}"));
        }
        let mut a: Vec<Vec<i32>> = cls.iter().map(|c| key(c)).collect();
        let mut b: Vec<Vec<i32>> = want.iter().map(|c| key(c)).collect();
        a.sort();
        b.sort();
        if a != b {
            let x = b.iter().find(|c| !a.contains(c));
            let y = a.iter().find(|c| !b.contains(c));
            return Err(format!("{what}: missing {x:?}, superfluous {y:?} (or wrong multiplicity)"));
        }
        Ok(())
    }
}
impl C12 {
    /// a file that must be refused
    fn malformed(&self, c: &Case, src: &[Vec<i32>], file: &std::path::Path) -> Outcome {
        let nv = gen_cnf::max_var(src) + c.get("spare").max(0) as usize;
        let text = layout(nv, src, c.get("lay"), c.get("ls") as u64);
        let (mut at, mut end) = (0, text.len());
        for line in text.split_inclusive(|b| *b == b'\n') {
            if line.trim_ascii_start().starts_with(b"p") {
                end = at + line.len() - line.ends_with(b"\n") as usize;
                break;
            }
            at += line.len();
        }
        let (by, nc) = (c.get("by").max(0) as usize, src.len());
        let mut bytes = text.clone();
        let mut wrong_header = false;
        let mut header = |h: String| {
            bytes.splice(at..end, h.into_bytes());
        };
        match c.get("flaw") {
            0 => {
                wrong_header = true;
                let h = ["", "p cnf", "p cnf x 1", "p dnf 3 2", "p cnf 3", "p cnf -1 2", "cnf 3 2", "p cnf 3 -2"];
                header(match by {
                    0..8 => h[by].to_string(),
                    8 => format!("p cnf {nv} x"),
                    9 => format!("p {nv} {nc}"),
                    10 => format!("p cnf {nv} 99999999999999999999999"),
                    11 => format!("p cnf 99999999999999999999999 {nc}"),
                    12 => format!("pcnf {nv} {nc}"),
                    13 => format!("P CNF {nv} {nc}"),
                    14 => format!("q cnf {nv} {nc}"),
                    _ => format!("p cnf {nv}.0 {nc}"),
                });
            }
            // fewer clauses than there are
            1 => {
                if nc == 0 {
                    return finish(false, vec![]);
                }
                header(format!("p cnf {nv} {}", by % nc));
            }
            2 => header(format!("p cnf {nv} {}", nc + 1 + by * by)),
            // not a text
            3 => {
                let i = (c.get("ls") as usize) % (bytes.len() + 1);
                bytes.splice(i..i, [[0xffu8, 0xc0, 0x80][by % 3]]);
            }
            4 => {
                let _ = std::fs::remove_file(file);
                let r = guarded(|| CNF::load(file));
                ensure!(
                    matches!(r, Ok(Err(CNFOperationError::ReadingCNFFile))),
                    "a missing file is loaded as {r:?}"
                );
                return finish(true, vec!["missing file".into()]);
            }
            _ => {
                let r = guarded(|| CNF::load(file.parent().expect("dir")));
                ensure!(matches!(r, Ok(Err(_))), "a directory is loaded as {r:?}");
                return finish(true, vec!["directory".into()]);
            }
        }
        std::fs::write(file, &bytes).expect("scratch");
        let mut seen = BTreeSet::new();
        let repeated = !src.iter().all(|x| seen.insert(key(x)));
        let shown = String::from_utf8_lossy(&bytes);
        match guarded(|| CNF::load(file)) {
            Err(e) => fail!("load panicked by {e} for\n{shown}"),
            // (counts are not compared if there are repeated clauses)
            Ok(Ok(k)) => {
                let flaw = c.get("flaw");
                ensure!(repeated && (flaw == 1 || flaw == 2), "load accepts\n{shown}");
                finish(k.num_clauses() > 1, vec!["repeated clause".into()])
            }
            Ok(Err(e)) => {
                ensure!(
                    !wrong_header || matches!(e, CNFOperationError::ParsingCNF),
                    "load gives {e:?} for\n{shown}"
                );
                finish(true, vec!["malformed file".into()])
            }
        }
    }
}
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "A CNF object made from clauses, loaded from a laid out file, or empty; then a sequence of add_clause (new, repeated, reordered, empty, unit, far variables), dump-and-reload and save-and-reload steps; after each step counts, display and dump are compared with a list of clauses, at the end the dump is loaded into a Solver. One case in twelve is a file to be refused: broken header, wrong counts, bytes that are no text, a missing file, a directory. Now and then an object around the 100000 clause mark of its uniqueness check. Non-trivial: at least two clauses added and one reload."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(500000, 6000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        if idx % 20000 == 777 {
            c.set("bulk", 99_998 + r.range(0, 5));
        }
        let f = gen_cnf::formula(r, if idx % 10 == 0 { 1 } else { 0 });
        c.cls = f.cls;
        c.set("src", r.range(0, 2));
        if r.chance(1, 12) {
            c.set("src", 3);
            let (flaw, by) = (r.range(0, 5), r.range(0, 15));
            c.set("flaw", flaw).set("by", by);
        }
        c.set("lay", r.range(0, 511) & r.range(0, 511));
        c.set("ls", r.range(0, 1 << 30));
        c.set("spare", if r.chance(1, 4) { r.range(1, 5) } else { 0 });
        let nv = (gen_cnf::max_var(&c.cls) as i64).max(2);
        let mut known: Vec<Vec<i32>> = c.cls.clone();
        for _ in 0..r.us(0, 12) {
            match r.below(10) {
                0 => c.ops.push(vec![1]),
                1 => c.ops.push(vec![2]),
                2 if !known.is_empty() => {
                    // an old clause, perhaps in another order
                    let mut k = r.pick(&known).clone();
                    r.shuffle(&mut k);
                    c.ops.push(std::iter::once(0).chain(k.iter().map(|l| *l as i64)).collect());
                }
                _ => {
                    let w = if r.chance(1, 20) { 0 } else { r.us(1, 5) };
                    let far = r.chance(1, 15);
                    let k: Vec<i32> = (0..w)
                        .map(|_| {
                            let v = if far && r.bool() {
                                *r.pick(&[nv + 1, nv + 7, 1000, 1 << 20, i32::MAX as i64])
                            } else {
                                r.range(1, nv)
                            };
                            (if r.bool() { v } else { -v }) as i32
                        })
                        .collect();
                    known.push(k.clone());
                    c.ops.push(std::iter::once(0).chain(k.iter().map(|l| *l as i64)).collect());
                }
            }
        }
        if c.get("bulk") > 0 {
            // growing such an object clause by clause takes minutes
            c.set("src", 0);
            c.ops.retain(|o| o[0] == 0);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.cls.iter().flatten().any(|l| *l == 0 || *l == i32::MIN) {
            return finish(false, vec![]);
        }
        let mut tags = Vec::new();
        let mut src = c.cls.clone();
        if c.get("bulk") > 0 {
            // pairwise different clauses
            for i in 0..c.get("bulk") as i32 {
                src.push(vec![i % 400 + 1, -(i / 400 + 500)]);
            }
            tags.push("around 100000 clauses".to_string());
        }
        let dir = scratch();
        let file = dir.join("c12.cnf");
        let mut model: Vec<Vec<i32>> = Vec::new();
        let mut seen: BTreeSet<Vec<i32>> = BTreeSet::new();
        let has_empty = src.iter().any(|x| x.is_empty());
        let mut cnf = match c.get("src") {
            0 => {
                let units: BTreeSet<i32> =
                    src.iter().filter(|x| x.len() == 1).map(|x| x[0]).collect();
                let clash = units.iter().any(|l| units.contains(&-l));
                match CNF::from_vec_i32(src.as_slice()) {
                    Ok(k) => {
                        ensure!(
                            !has_empty && !clash,
                            "from_vec_i32 accepted an empty clause or contradictory units"
                        );
                        model = src.clone();
                        tags.push("from_vec_i32".into());
                        k
                    }
                    Err(CNFOperationError::AddingEmptyClause) if has_empty => {
                        return finish(false, vec!["empty clause".into()]);
                    }
                    Err(CNFOperationError::AddignConflictingAssingment) if clash => {
                        return finish(false, vec!["contradictory units".into()]);
                    }
                    Err(e) => fail!("from_vec_i32({src:?}) gave {e:?}"),
                }
            }
            1 => {
                let nv = gen_cnf::max_var(&src) + c.get("spare").max(0) as usize;
                let text = layout(nv, &src, c.get("lay"), c.get("ls") as u64);
                std::fs::write(&file, &text).expect("scratch");
                match CNF::load(&file) {
                    Ok(k) => {
                        ensure!(!has_empty, "load accepted an empty clause");
                        for x in &src {
                            if seen.insert(key(x)) || c.get("bulk") > 0 {
                                model.push(x.clone());
                            }
                        }
                        if c.get("bulk") > 0 && k.num_clauses() != model.len() {
                            // with duplicates the object may keep either count
                            model.clear();
                            seen.clear();
                            for x in &src {
                                if seen.insert(key(x)) {
                                    model.push(x.clone());
                                }
                            }
                        }
                        tags.push("load".into());
                        k
                    }
                    Err(CNFOperationError::AddingEmptyClause) if has_empty => {
                        return finish(false, vec!["empty clause".into()]);
                    }
                    Err(e) => fail!("load gave {e:?} for\n{}", String::from_utf8_lossy(&text)),
                }
            }
            3 => return self.malformed(c, &src, &file),
            _ => {
                tags.push("empty at first".into());
                CNF::default()
            }
        };
        if let Err(e) = C12::compare(&cnf, &model, "at first") {
            fail!("{e}");
        }
        seen = model.iter().map(|x| key(x)).collect();
        let (mut added, mut reloads) = (0, 0);
        for (i, o) in c.ops.iter().enumerate() {
            let what = format!("step {i} {o:?}");
            match o[0] {
                0 => {
                    let k: Vec<i32> = o[1..].iter().map(|l| *l as i32).collect();
                    if k.iter().any(|l| *l == 0 || *l == i32::MIN) {
                        continue;
                    }
                    let dup = seen.contains(&key(&k));
                    match cnf.add_clause(&k) {
                        Ok(_) => {
                            ensure!(!k.is_empty(), "{what}: accepted an empty clause");
                            ensure!(
                                !dup || model.len() >= 100_000,
                                "{what}: accepted a clause which it holds"
                            );
                            seen.insert(key(&k));
                            model.push(k);
                            added += 1;
                        }
                        Err(CNFOperationError::AddingClauseExists) if dup => {
                            tags.push("repeated clause".into())
                        }
                        Err(CNFOperationError::AddingEmptyClause) if k.is_empty() => (),
                        Err(e) => fail!("{what}: {e:?}"),
                    }
                }
                n => {
                    if n == 1 {
                        std::fs::write(&file, cnf.dump_to_string()).expect("scratch");
                    } else {
                        if c.get("ls") % 2 == 0 {
                            let _ = std::fs::remove_file(&file);
                        } else {
                            let old = cnf.dump_to_string() + "1 2 0\n";
                            std::fs::write(&file, old).expect("scratch");
                        }
                        if let Err(e) = cnf.save(&file) {
                            fail!("{what}: save gave {e:?}");
                        }
                        let bad = dir.join("no such directory").join("x.cnf");
                        ensure!(
                            cnf.save(&bad) == Err(CNFOperationError::CreatingCNFFile),
                            "{what}: saving into a missing directory succeeded"
                        );
                        ensure!(
                            matches!(CNF::load(&bad), Err(CNFOperationError::ReadingCNFFile)),
                            "{what}: loading a missing file"
                        );
                    }
                    cnf = match CNF::load(&file) {
                        Ok(k) => k,
                        Err(e) => fail!("{what}: reading its own file gave {e:?}"),
                    };
                    reloads += 1;
                    // reading drops repeated clauses
                    if cnf.num_clauses() != model.len() {
                        let mut s = BTreeSet::new();
                        model.retain(|x| s.insert(key(x)));
                    }
                }
            }
            if c.get("bulk") == 0
                && let Err(e) = C12::compare(&cnf, &model, &what)
            {
                fail!("{e}");
            }
        }
        if let Err(e) = C12::compare(&cnf, &model, "in the end") {
            fail!("{e}");
        }
        // the solver reads the dump as the same formula
        let nv = gen_cnf::max_var(&model);
        if nv <= 2000 && c.get("bulk") == 0 {
            std::fs::write(&file, cnf.dump_to_string()).expect("scratch");
            match Solver::build(&{
                let mut k = quiet();
                k.cnf_file = file.clone();
                k
            }) {
                Ok(s) => {
                    ensure!(
                        s.asg.num_vars == nv,
                        "the solver finds {} variables in the dump instead of {nv}",
                        s.asg.num_vars
                    );
                    if nv <= 12
                        && let Err(e) = same_models(nv, &model, &content(&s))
                    {
                        fail!("the solver loads something else from the dump: {e}");
                    }
                    tags.push("loaded into a solver".into());
                }
                Err(e) => {
                    let e = early_verdict(e);
                    ensure!(e.is_ok(), "loading the dump into a solver: {e:?}");
                    ensure!(
                        nv > 40 || reference(nv, &model) != Some(true),
                        "the dump of a satisfiable formula is reported contradictory"
                    );
                    tags.push("contradictory".into());
                }
            }
        }
        if reloads > 0 {
            tags.push("reloaded".into());
        }
        finish(added >= 2 && reloads >= 1, tags)
    }
}

pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "A solver built over one of the loading routes, then a sequence of add_var, add_clause and add_assignment calls with dumps in between; each dump is read by a strict DIMACS reader (true counts in the header) and its models compared with the accepted parts (truth table up to 14 variables, clause-wise implication above); before and after the dump the solver's content and answer are compared. In a third of the cases the solver then solves and is dumped again: well-formed with true counts, with a model where the problem has one, and with the same models where the eliminator was off. Non-trivial: a dump with at least one unit on the trail and two clauses."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600000, 10000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(r, if idx % 12 == 0 { 1 } else { 0 });
        let mut c = formula_case(&f);
        c.set("src", r.range(0, 2));
        c.set("spare", if r.chance(1, 3) { r.range(1, 4) } else { 0 });
        let mut nv = c.get("nv") + c.get("spare");
        for _ in 0..r.us(0, 8) {
            match r.below(6) {
                0 => {
                    c.ops.push(vec![0]);
                    nv += 1;
                }
                1 => c.ops.push(vec![3]),
                k if nv > 0 => {
                    let w = if k == 2 { 1 } else { r.us(1, 4) };
                    let mut o = vec![if k == 2 && r.bool() { 2 } else { 1 }];
                    for _ in 0..w {
                        let v = r.range(1, nv);
                        o.push(if r.bool() { v } else { -v });
                    }
                    c.ops.push(o);
                }
                _ => (),
            }
        }
        c.ops.push(vec![3]);
        // a dump after the search
        if r.chance(1, 3) {
            c.set("solve", r.range(1, 4));
            if r.chance(1, 2) {
                let f = gen_cnf::formula(r, 1);
                c.cls = f.cls;
                c.set("nv", f.nv as i64);
            }
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["src"]
    }
    fn run(&self, c: &Case) -> Outcome {
        let dir = scratch();
        let file = dir.join("c13.cnf");
        let mut cfg = quiet();
        let after = c.get("solve");
        // 1, 3: without elimination; 3, 4: ended by a clause limit now and then
        cfg.enable_eliminator = after % 2 == 0;
        if after > 2 {
            cfg.c_cls_lim = c.cls.len() * 2;
        }
        let mut nv = gen_cnf::max_var(&c.cls);
        let mut acc: Vec<Vec<i32>> = c.cls.clone();
        let built = match c.get("src") {
            0 => Solver::try_from((cfg, c.cls.as_slice())).map_err(|_| ()),
            1 => {
                nv += c.get("spare").max(0) as usize;
                cfg.cnf_file = file.clone();
                std::fs::write(&file, gen_cnf::dimacs(nv, &c.cls)).expect("scratch");
                Solver::build(&cfg).map_err(|_| ())
            }
            _ => {
                nv += c.get("spare").max(0) as usize;
                let mut s = Solver::instantiate(
                    &cfg,
                    &CNFDescription { num_of_variables: nv, ..CNFDescription::default() },
                );
                acc.clear();
                for x in &c.cls {
                    if s.add_clause(x).is_ok() {
                        acc.push(x.clone());
                    } else {
                        return finish(false, vec!["contradictory".into()]);
                    }
                }
                Ok(s)
            }
        };
        let Ok(mut s) = built else {
            return finish(false, vec!["contradictory".into()]);
        };
        let (mut units, mut most) = (0, 0);
        for (i, o) in c.ops.iter().enumerate() {
            match o[0] {
                0 => {
                    s.add_var();
                    nv += 1;
                }
                3 => {
                    let out = dir.join("dump.cnf");
                    let _ = std::fs::remove_file(&out);
                    let before = content(&s);
                    s.dump_cnf(&out);
                    ensure!(before == content(&s), "step {i}: dumping changed the solver");
                    let text = std::fs::read_to_string(&out).unwrap_or_default();
                    let (n, cls) = match strict_dimacs(&text) {
                        Ok(x) => x,
                        Err(e) => fail!("step {i}: {e}\n{text}"),
                    };
                    ensure!(n == nv, "step {i}: {n} variables declared instead of {nv}\n{text}");
                    let all = cls.len();
                    if let Err(e) = same_models(nv, &acc, &cls) {
                        fail!("step {i}: the dump (second) differs from the problem {acc:?} (first): {e}\n{text}");
                    }
                    let u = cls.iter().filter(|x| x.len() == 1).count();
                    if u > 0 && all > u + 1 {
                        units += 1;
                    }
                    most = most.max(all);
                    // a copy made after the dump and the dump read again agree
                    if nv <= 14 {
                        let mut k = quiet();
                        k.cnf_file = out.clone();
                        match Solver::build(&k) {
                            Ok(t) => {
                                if let Err(e) = same_models(nv, &acc, &content(&t)) {
                                    fail!("step {i}: loading the dump gives another problem: {e}\n{text}");
                                }
                            }
                            Err(e) => {
                                ensure!(
                                    early_verdict(e).is_ok()
                                        && reference(nv, &acc) == Some(false),
                                    "step {i}: the dump cannot be loaded\n{text}"
                                );
                            }
                        }
                    }
                }
                k => {
                    let lits: Vec<i32> = o[1..]
                        .iter()
                        .map(|l| *l as i32)
                        .filter(|l| *l != 0 && l.unsigned_abs() as usize <= nv)
                        .collect();
                    if lits.is_empty() {
                        continue;
                    }
                    let ok = if k == 2 {
                        s.add_assignment(lits[0]).is_ok()
                    } else {
                        s.add_clause(&lits).is_ok()
                    };
                    if !ok {
                        return finish(units > 0, vec!["ended by a conflict".into()]);
                    }
                    acc.push(if k == 2 { vec![lits[0]] } else { lits });
                }
            }
        }
        let mut searched = None;
        if after > 0 {
            let res = s.solve();
            let out = dir.join("dump.cnf");
            let _ = std::fs::remove_file(&out);
            s.dump_cnf(&out);
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            let (n, cls) = match strict_dimacs(&text) {
                Ok(x) => x,
                Err(e) => fail!("after solving ({res:?}): {e}\n{text}"),
            };
            ensure!(n == nv, "after solving: {n} variables declared instead of {nv}\n{text}");
            // elimination includes pure literals
            let eliminated = after % 2 == 0;
            if let Ok(splr::Certificate::SAT(_)) = res {
                if !eliminated {
                    if let Err(e) = same_models(nv, &acc, &cls) {
                        fail!("after solving: the dump (second) differs from the problem {acc:?} (first): {e}\n{text}");
                    }
                } else {
                    ensure!(
                        reference(nv, &cls) != Some(false),
                        "after solving: the dump has no model, the problem {acc:?} has\n{text}"
                    );
                }
            }
            searched = Some(if eliminated { "dumped after elimination" } else { "dumped after a search" });
        }
        let mut tags = vec![["vector", "file", "add_clause"][c.get("src").clamp(0, 2) as usize].into()];
        if units > 0 {
            tags.push("units and clauses".into());
        }
        tags.extend(searched.map(|t| t.to_string()));
        if most > 100 {
            tags.push("more than 100 clauses".into());
        }
        finish(units > 0, tags)
    }
}

pub struct C14;
const TOP: i64 = (1 << 30) - 1;
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Numbers over the whole supported range 1..2^30-1 (small ones, powers of two and their neighbours, the ends, uniform) with signs: all conversions of each, order and distinctness of each pair, indexing by literals, clause identifiers, flags of variables and clauses under random switch sequences, removal from unordered lists, wrapped sort keys. Every case holds dozens of numbers and is non-trivial if it holds two or more."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(4000000, 60000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        let num = |r: &mut Rng| -> i64 {
            match r.below(5) {
                0 => r.range(1, 8),
                1 => r.range(1, 2000),
                2 => ((1i64 << r.below(30)) + r.range(-2, 2)).clamp(1, TOP),
                3 => TOP - r.range(0, 3),
                _ => r.range(1, TOP),
            }
        };
        match idx % 6 {
            0..=2 => {
                for _ in 0..r.us(1, 20) {
                    let v = num(r);
                    c.ops.push(vec![0, if r.bool() { v } else { -v }]);
                }
            }
            3 => {
                let n = r.us(1, 40);
                let mut o = vec![1, n as i64];
                for _ in 0..r.us(1, 30) {
                    let v = r.range(1, n as i64);
                    o.push(if r.bool() { v } else { -v });
                }
                c.ops.push(o);
                c.ops.push(std::iter::once(2).chain((0..r.us(1, 30)).map(|_| r.range(0, 6))).collect());
            }
            4 => {
                c.ops.push(
                    std::iter::once(3).chain((0..r.us(1, 30)).map(|_| r.range(0, 63))).collect(),
                );
            }
            _ => {
                let mut o = vec![4];
                for _ in 0..r.us(1, 30) {
                    o.push(match r.below(12) {
                        0 => i64::MAX,
                        1 => 0,
                        _ => r.range(-1000, 1000),
                    });
                }
                c.ops.push(o);
            }
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let mut lits: Vec<(i32, Lit)> = Vec::new();
        let mut size = 0;
        for o in &c.ops {
            size += o.len();
            match o[0] {
                0 if o.len() > 1 => {
                    let x = o[1].clamp(-TOP, TOP) as i32;
                    if x == 0 {
                        continue;
                    }
                    let (v, b) = (x.unsigned_abs() as usize, x > 0);
                    let l = Lit::from(x);
                    ensure!(i32::from(l) == x && i32::from(&l) == x, "{x} becomes {l}");
                    ensure!(l.vi() == v, "vi of {x} is {}", l.vi());
                    ensure!(l.as_bool() == b && bool::from(l) == b, "sign of {x}");
                    ensure!(l == Lit::from((v, b)), "({v}, {b}) is not {x}");
                    ensure!(usize::from(l) == 2 * v + b as usize, "index of {x} is {}", usize::from(l));
                    ensure!(Lit::from(usize::from(l)) == l, "usize and back: {x}");
                    ensure!(Lit::from(usize::from(l) as u32) == l, "u32 and back: {x}");
                    ensure!(
                        i32::from(!l) == -x && !!l == l && (!l).vi() == v && (!l).as_bool() != b,
                        "negation of {x} is {}",
                        !l
                    );
                    ensure!(usize::from(!l) ^ usize::from(l) == 1, "indices of {x} and its negation");
                    ensure!(i32s(&[l, !l]) == vec![x, -x], "i32s of {x}");
                    ensure!(
                        format!("{l}").contains(&x.to_string()) && format!("{l:?}").contains(&x.to_string()),
                        "{x} is displayed as {l} and {l:?}"
                    );
                    let id = ClauseId::from(l);
                    ensure!(id.is_lifted_lit(), "{x} lifted is not recognised");
                    ensure!(Lit::from(id) == l, "{x} lifted and back is {}", Lit::from(id));
                    // a clause id of the same number is not a lifted literal
                    let id = ClauseId::from(v);
                    ensure!(usize::from(id) == v && !id.is_lifted_lit(), "clause id {v}");
                    ensure!(ClauseId::from(usize::from(id)) == id, "clause id {v} and back");
                    ensure!(id != ClauseId::from(l), "clause id {v} equals a lifted literal");
                    for (y, k) in &lits {
                        ensure!((*k == l) == (*y == x), "{x} and {y} collide");
                        let ord = (v, b).cmp(&(y.unsigned_abs() as usize, *y > 0));
                        ensure!(l.cmp(k) == ord && l.partial_cmp(k) == Some(ord), "order of {x} and {y}");
                        let oi = ClauseId::from(v).cmp(&ClauseId::from(k.vi()));
                        ensure!(oi == v.cmp(&k.vi()), "order of clause ids {v} and {}", k.vi());
                    }
                    lits.push((x, l));
                }
                1 if o.len() > 2 => {
                    // a bool array indexed by literals
                    let n = o[1].clamp(1, 1000) as usize;
                    let mut a = vec![false; 2 * n + 2];
                    let mut m = std::collections::HashMap::new();
                    for x in &o[2..] {
                        let x = (*x as i32).clamp(-(n as i32), n as i32);
                        if x == 0 {
                            continue;
                        }
                        let l = Lit::from(x);
                        let old = *m.get(&x).unwrap_or(&false);
                        ensure!(a[l] == old && a.as_slice()[l] == old, "array at {x}");
                        m.insert(x, !old);
                        if old {
                            a.as_mut_slice()[l] = false;
                        } else {
                            a[l] = true;
                        }
                    }
                    for x in 1..=n as i32 {
                        for s in [x, -x] {
                            ensure!(
                                a[Lit::from(s)] == *m.get(&s).unwrap_or(&false),
                                "array at {s} in the end"
                            );
                        }
                    }
                }
                2 => {
                    // delete_unstable removes one matching element and keeps the others
                    let mut v: Vec<i64> = o[1..].to_vec();
                    for x in 0..7 {
                        let mut want = v.clone();
                        if let Some(i) = want.iter().position(|y| *y == x) {
                            want.remove(i);
                        }
                        v.delete_unstable(|y| *y == x);
                        let mut got = v.clone();
                        got.sort();
                        want.sort();
                        ensure!(got == want, "delete_unstable({x}): {got:?} instead of {want:?}");
                    }
                }
                3 => {
                    let mut var = Var::default();
                    let mut cl = Clause::default();
                    let vf = [
                        FlagVar::PHASE,
                        FlagVar::USED,
                        FlagVar::ELIMINATED,
                        FlagVar::ENQUEUED,
                        FlagVar::CA_SEEN,
                    ];
                    let cf = [
                        FlagClause::LEARNT,
                        FlagClause::USED,
                        FlagClause::ENQUEUED,
                        FlagClause::OCCUR_LINKED,
                    ];
                    let (mut vm, mut cm) = ([false; 5], [false; 4]);
                    for x in &o[1..] {
                        let x = (*x).max(0) as usize;
                        let (i, j, how) = (x % 5, x % 4, x / 5 % 5);
                        match how {
                            0 => {
                                var.turn_on(vf[i].clone());
                                cl.turn_on(cf[j].clone());
                                vm[i] = true;
                                cm[j] = true;
                            }
                            1 => {
                                var.turn_off(vf[i].clone());
                                cl.turn_off(cf[j].clone());
                                vm[i] = false;
                                cm[j] = false;
                            }
                            2 => {
                                var.toggle(vf[i].clone());
                                cl.toggle(cf[j].clone());
                                vm[i] ^= true;
                                cm[j] ^= true;
                            }
                            _ => {
                                let b = how == 3;
                                var.set(vf[i].clone(), b);
                                cl.set(cf[j].clone(), b);
                                vm[i] = b;
                                cm[j] = b;
                            }
                        }
                        for k in 0..5 {
                            ensure!(var.is(vf[k].clone()) == vm[k], "flag {k} of a var after {o:?}");
                        }
                        for k in 0..4 {
                            ensure!(cl.is(cf[k].clone()) == cm[k], "flag {k} of a clause after {o:?}");
                        }
                    }
                }
                4 => {
                    let val = |x: i64| if x == i64::MAX { f64::NAN } else { x as f64 / 8.0 };
                    let mut a: Vec<OrderedProxy<usize>> = Vec::new();
                    let mut d: Vec<OrderedProxy<usize>> = Vec::new();
                    for (i, x) in o[1..].iter().enumerate() {
                        a.push(OrderedProxy::new(i, val(*x)));
                        d.push(OrderedProxy::new_invert(i, val(*x)));
                    }
                    a.sort();
                    d.sort();
                    for (w, up) in [(&a, true), (&d, false)] {
                        let ids: BTreeSet<usize> = w.iter().map(|p| p.to()).collect();
                        ensure!(ids.len() == o.len() - 1, "sorting lost an element");
                        let vals: Vec<f64> = w.iter().map(|p| val(o[1 + p.to()])).collect();
                        for (p, x) in w.iter().zip(&vals) {
                            let y = if up { *x } else { -*x };
                            ensure!(
                                p.value() == y || (p.value().is_nan() && y.is_nan()),
                                "value() of {x}"
                            );
                        }
                        for (x, y) in vals.iter().zip(vals.iter().skip(1)) {
                            ensure!(
                                if up { x <= y } else { x >= y } || y.is_nan(),
                                "sorted into {vals:?}"
                            );
                        }
                    }
                }
                _ => (),
            }
        }
        let tag = match c.ops.first().map(|o| o[0]) {
            Some(0) => "literals",
            Some(1) => "arrays and lists",
            Some(3) => "flags",
            Some(4) => "sort keys",
            _ => "other",
        };
        finish(size > 3, vec![tag.into()])
    }
}

/// the mathematical Luby sequence, one-based
fn luby(mut i: u64) -> u64 {
    loop {
        if (i + 1).is_power_of_two() {
            return i.div_ceil(2);
        }
        // the largest 2^k - 1 below i is a complete prefix
        let k = 63 - (i + 1).leading_zeros() as u64;
        i -= (1 << k) - 1;
    }
}

pub struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Luby iterators advanced by a drawn mixture of next, next_unchecked and reset up to thousands (rarely millions) of steps against the recursive definition; stage managers with drawn unit sizes driven by histories of clause counts (stages ended on time, early or late) against a reference schedule. Non-trivial: at least 15 steps or 8 stages."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600000, 10000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        let mut c = Case::new();
        if idx % 3 == 0 {
            c.set("mode", 0);
            for _ in 0..r.us(1, 4) {
                let n = match r.below(10) {
                    0 => r.range(1, 10),
                    1..=5 => r.range(1, 300),
                    _ => (1i64 << r.us(4, 12)) + r.range(-3, 3),
                };
                c.ops.push(vec![r.range(0, 2), n]);
                if r.chance(1, 4) {
                    c.ops.push(vec![3]);
                }
            }
            if idx % 20001 == 0 {
                c.ops.push(vec![0, t.pick(3_000_000, 40_000_000)]);
            }
        } else {
            c.set("mode", 1);
            c.set("unit", *r.pick(&[0, 1, 2, 3, 7, 16, 100, 1000, 31622]));
            c.set("init", r.range(0, 2));
            let style = r.below(3);
            let most = if r.chance(1, 10) { 600 } else { 60 };
            for _ in 0..r.us(1, most) {
                // how far after (or before) the end of the stage the next one is prepared
                c.ops.push(vec![match style {
                    0 => 0,
                    1 => r.range(0, 5),
                    _ => r.range(-20, 200),
                }]);
            }
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["mode"]
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.get("mode") == 0 {
            let mut l = LubySeries::default();
            let (mut n, mut max, mut total) = (0u64, 1u64, 0);
            let mut reset = false;
            for o in &c.ops {
                if o[0] == 3 {
                    l.reset();
                    n = 0;
                    reset = true;
                    continue;
                }
                for k in 0..o.get(1).copied().unwrap_or(0).max(0) as u64 {
                    let un = o[0] == 1 || (o[0] == 2 && k % 3 == 0);
                    let got = if un {
                        l.next_unchecked() as u64
                    } else {
                        match l.next() {
                            Some(x) => x.get() as u64,
                            None => fail!("the sequence ends after {n} elements"),
                        }
                    };
                    n += 1;
                    total += 1;
                    let want = luby(n + 1);
                    ensure!(got == want, "element {n} is {got} instead of {want}");
                    max = max.max(want);
                    ensure!(
                        reset || l.max_value() as u64 == max,
                        "max_value is {} instead of {max} after {n} elements",
                        l.max_value()
                    );
                }
            }
            let mut tags = vec!["luby".to_string()];
            if reset {
                tags.push("reset".into());
            }
            if total > 1_000_000 {
                tags.push("more than a million elements".into());
            }
            return finish(total >= 15, tags);
        }
        let u = c.get("unit").max(0) as usize;
        let mut m = match c.get("init") {
            0 => StageManager::new(u),
            1 => {
                let mut m = StageManager::new(3);
                m.initialize(u);
                m
            }
            _ => {
                let mut m = StageManager::instantiate(
                    &quiet(),
                    &CNFDescription { num_of_variables: u * u + u, ..CNFDescription::default() },
                );
                m.initialize(u);
                m
            }
        };
        let (mut stage, mut cycle, mut segment) = (0usize, 0usize, 0usize);
        let (mut cyc_stage, mut seg_stage, mut seg_cyc) = (0, 0, 0);
        let mut top = 1;
        let mut complete = c.get("init") != 0;
        let mut end = u;
        ensure!(m.stage_ended(end), "the first stage does not end after {end}");
        for (i, o) in c.ops.iter().enumerate() {
            let now = (end as i64 + o[0]).max(0) as usize;
            for x in end.saturating_sub(2)..end + 3 {
                ensure!(
                    m.stage_ended(x) == (x == end),
                    "stage {stage} of end {end}: stage_ended({x}) is {}",
                    m.stage_ended(x)
                );
            }
            let got = m.prepare_new_stage(now);
            stage += 1;
            let scale = luby(stage as u64 + 1) as usize;
            let mut want = None;
            if scale == 1 {
                cycle += 1;
                cyc_stage = stage;
                want = Some(false);
                if complete {
                    segment += 1;
                    top *= 2;
                    complete = false;
                    seg_stage = stage;
                    seg_cyc = cycle;
                    want = Some(true);
                }
            }
            if scale == top {
                complete = true;
            }
            let span = cycle * u;
            end = now + span;
            ensure!(got == want, "stage {i}: prepare_new_stage gave {got:?} instead of {want:?}");
            let have = [
                m.current_stage(),
                m.current_cycle(),
                m.current_segment(),
                m.current_scale(),
                m.current_span(),
                m.max_scale(),
                m.cycle_starting_stage(),
                m.segment_starting_stage(),
                m.segment_starting_cycle(),
            ];
            let model = [
                stage, cycle, segment, scale, span, top, cyc_stage, seg_stage, seg_cyc,
            ];
            ensure!(
                have == model,
                "stage {i}: stage, cycle, segment, scale, span, max_scale, starts are {have:?} instead of {model:?}"
            );
            for f in [0.0, 0.1, 0.5, 0.9, 1.0] {
                let keep = (span as f64).powf(1.0 - f) as usize;
                let n = m.num_reducible(f);
                ensure!(
                    n.abs_diff(span - keep.min(span)) <= 1 && n <= span,
                    "num_reducible({f}) of span {span} is {n}"
                );
            }
        }
        finish(stage >= 8, vec!["stages".into()])
    }
}

pub struct C16;
impl C16 {
    fn close(a: f64, b: f64, scale: f64) -> bool {
        (a - b).abs() <= 1e-9 * scale.max(1e-300) || a == b
    }
    /// the window average over N values
    fn ewa<const N: usize>(c: &Case) -> Result<(), String> {
        let init = c.get("init") as f64 / 16.0;
        let mut e = Ewa::<N>::new(init);
        let mut e2 = Ewa2::<N>::new(init);
        let mut se = 1.0 / N as f64;
        if c.get("slow") > 0 {
            e2 = e2.with_slow(c.get("slow") as usize);
            se = 1.0 / c.get("slow") as f64;
        }
        let mut w = vec![init; N];
        let mut w2 = w.clone();
        let mut slow = init;
        let mut scale = init.abs();
        for (i, o) in c.ops.iter().enumerate() {
            let x = o[1] as f64 / 16.0;
            scale = scale.max(x.abs());
            match o[0] {
                1 => {
                    e2.reset_to(x);
                    w2 = vec![x; N];
                }
                2 => {
                    e2.reset_slow();
                    slow = w2.iter().sum::<f64>() / N as f64;
                }
                _ => {
                    e.update(x);
                    e2.update(x);
                    w.remove(0);
                    w.push(x);
                    w2.remove(0);
                    w2.push(x);
                    slow += se * (x - slow);
                }
            }
            let f = w.iter().sum::<f64>() / N as f64;
            let f2 = w2.iter().sum::<f64>() / N as f64;
            if !C16::close(e.get_fast(), f, scale)
                || !C16::close(EmaIF::get(&e), f, scale)
                || !C16::close(e.as_view().get_fast(), f, scale)
            {
                return Err(format!("step {i}: Ewa<{N}> reports {} instead of {f}", e.get()));
            }
            if !C16::close(e2.get_fast(), f2, scale) || !C16::close(e2.get(), f2, scale) {
                return Err(format!("step {i}: Ewa2<{N}> reports {} instead of {f2}", e2.get()));
            }
            if !C16::close(e2.as_view().get_slow(), slow, scale) {
                return Err(format!(
                    "step {i}: the slow average of Ewa2<{N}> is {} instead of {slow}",
                    e2.as_view().get_slow()
                ));
            }
            if slow.abs() > 1e-3 * scale
                && ((e2.trend() - f2 / slow).abs() > 1e-5 * (1.0 + (f2 / slow).abs())
                    || (e2.as_view().trend() - f2 / slow).abs() > 1e-5 * (1.0 + (f2 / slow).abs()))
            {
                return Err(format!("step {i}: trend {} instead of {}", e2.trend(), f2 / slow));
            }
        }
        Ok(())
    }
    fn ema(c: &Case) -> Result<(), String> {
        let s = c.get("len").max(1) as usize;
        let slow = c.get("slow").max(0) as usize;
        let init = c.get("init") as f64 / 16.0;
        let with = c.get("with") != 0;
        let mut e = Ema::new(s);
        let mut e2 = Ema2::new(s);
        if slow > 0 {
            e2 = e2.with_slow(slow);
        }
        if with {
            e = e.with_value(init);
            e2 = e2.with_value(init);
        }
        let v0 = if with { init } else { 0.0 };
        let (mut a, mut f, mut w) = (v0, v0, v0);
        let k = 1.0 / s as f64;
        let ks = if slow > 0 { 1.0 / slow as f64 } else { k };
        let mut scale = v0.abs();
        let (mut lo, mut hi) = (v0, v0);
        for (i, o) in c.ops.iter().enumerate() {
            let x = o[1] as f64 / 16.0;
            scale = scale.max(x.abs());
            lo = lo.min(x);
            hi = hi.max(x);
            match o[0] {
                1 => {
                    e2.reset_to(x);
                    f = x;
                }
                2 => {
                    e2.reset_slow();
                    w = f;
                }
                3 => {
                    e2.reset_fast();
                    f = w;
                }
                4 => {
                    e.set_value(x);
                    a = x;
                }
                _ => {
                    e.update(x);
                    e2.update(x);
                    a += k * (x - a);
                    f += k * (x - f);
                    w += ks * (x - w);
                }
            }
            if !C16::close(e.get_fast(), a, scale)
                || !C16::close(e.get(), a, scale)
                || !C16::close(e.as_view().get_fast(), a, scale)
            {
                return Err(format!("step {i}: Ema reports {} instead of {a}", e.get()));
            }
            if !C16::close(e2.get_fast(), f, scale)
                || !C16::close(e2.get(), f, scale)
                || !C16::close(e2.as_view().get_fast(), f, scale)
            {
                return Err(format!("step {i}: Ema2 reports {} instead of {f}", e2.get()));
            }
            for got in [e2.get_slow(), EmaIF::get_slow(&e2), e2.as_view().get_slow()] {
                if !C16::close(got, w, scale) {
                    return Err(format!("step {i}: the slow average is {got} instead of {w}"));
                }
            }
            for got in [e.get(), e2.get(), e2.get_slow()] {
                if got < lo - 1e-9 * scale || got > hi + 1e-9 * scale {
                    return Err(format!("step {i}: {got} is outside of {lo}..{hi}"));
                }
            }
            if w.abs() > 1e-3 * scale {
                for got in [e2.trend(), e2.as_view().trend()] {
                    if (got - f / w).abs() > 1e-5 * (1.0 + (f / w).abs()) {
                        return Err(format!("step {i}: trend {got} instead of {}", f / w));
                    }
                }
            }
        }
        Ok(())
    }
    fn su(c: &Case) -> Result<(), String> {
        let s = c.get("len").max(1) as usize;
        let mut e = EmaSU::new(s);
        let (mut last, mut a, mut scale) = (0f64, 0f64, 0f64);
        for (i, o) in c.ops.iter().enumerate() {
            let x = o[1].unsigned_abs() as usize;
            scale = scale.max(x as f64);
            if o[0] == 1 {
                e.update_base(x);
            } else {
                e.update(x);
                a += (x as f64 - last - a) / s as f64;
            }
            last = x as f64;
            for got in [e.get_fast(), e.get(), e.get_ema().get(), e.as_view().get_fast()] {
                if !C16::close(got, a, scale) {
                    return Err(format!("step {i}: EmaSU reports {got} instead of {a}"));
                }
            }
        }
        Ok(())
    }
}
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Sequences of updates (constant, ramps, alternating, spread over twelve orders of magnitude), resets and value settings on Ema, Ema2, EmaSU, Ewa and Ewa2 of drawn lengths, initial values and slow spans, compared after every step with the defining average (tolerance 1e-9 of the largest value fed). Non-trivial: at least five updates."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2500000, 40000000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        let kind = r.range(0, 3);
        c.set("kind", kind);
        c.set("len", *r.pick(&[1, 2, 3, 8, 16, 32, 100, 1000, 8192]));
        c.set("slow", *r.pick(&[0, 0, 1, 2, 10, 160, 4000, 100000]));
        let mag = *r.pick(&[1i64, 16, 1000, 1 << 20, 1 << 40]);
        c.set("init", if r.bool() { 0 } else { r.range(-mag, mag) });
        c.set("with", r.range(0, 1));
        let n = if r.chance(1, 20) { r.us(1, 2000) } else { r.us(1, 80) };
        let shape = r.below(4);
        let base = r.range(-mag, mag);
        for i in 0..n {
            let x = match shape {
                0 => base,
                1 => base + i as i64,
                2 => {
                    if i % 2 == 0 {
                        base
                    } else {
                        -base
                    }
                }
                _ => r.range(-mag, mag),
            };
            let k = if r.chance(1, 12) { r.range(1, 4) } else { 0 };
            c.ops.push(vec![k, x]);
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["kind"]
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.ops.iter().any(|o| o.len() < 2) {
            return finish(false, vec![]);
        }
        let (tag, res) = match c.get("kind") {
            0 | 1 => ("Ema and Ema2", C16::ema(c)),
            2 => ("EmaSU", C16::su(c)),
            _ => (
                "Ewa and Ewa2",
                guarded(|| match c.get("len") {
                    ..2 => C16::ewa::<1>(c),
                    2 => C16::ewa::<2>(c),
                    3 => C16::ewa::<3>(c),
                    4..=8 => C16::ewa::<8>(c),
                    9..=16 => C16::ewa::<16>(c),
                    _ => C16::ewa::<32>(c),
                })
                .unwrap_or_else(Err),
            ),
        };
        if let Err(e) = res {
            fail!("{tag}: {e}");
        }
        finish(
            c.ops.iter().filter(|o| o[0] == 0).count() >= 5,
            vec![tag.into()],
        )
    }
}
