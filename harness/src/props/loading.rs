//! C04 (loading routes and layouts), C05 (building step by step), C06 (malformed input).
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, guarded, scratch},
    ensure, fail, gen_cnf,
    rng::Rng,
    util::*,
};
use splr::{Certificate, SatSolverIF, SolveIF, Solver, SolverError, types::*};
use std::path::Path;

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C04), Box::new(C05), Box::new(C06)]
}

const L_NEWLINE: i64 = 1; // line breaks between the literals of a clause
const L_SAMELINE: i64 = 2; // several clauses on a line
const L_COMMENT: i64 = 4; // comment lines between lines of clauses
const L_BLANK: i64 = 8; // blank lines
const L_TABS: i64 = 16; // tabs and runs of blanks
const L_LEAD: i64 = 32; // leading and trailing blanks
const L_CRLF: i64 = 64;
const L_NOEOL: i64 = 128; // no newline at the end
const L_PRE: i64 = 256; // comments before the header

/// the text of a DIMACS file with a layout drawn by `seed` from the features in `lay`
pub fn layout(nv: usize, cls: &[Vec<i32>], lay: i64, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let on = |b: i64| lay & b != 0;
    let eol = if on(L_CRLF) { "\r\n" } else { "\n" };
    let mut o = String::new();
    let comments = [
        "c", "c a comment", "c 1 -2 0", "c p cnf 1 1", "c 0", "c\tx", "c p cnf 2 2 0", "ccc 7 0",
    ];
    let gap = |r: &mut Rng| -> &'static str {
        if on(L_TABS) {
            *r.pick(&[" ", "  ", "\t", " \t ", "    "])
        } else {
            " "
        }
    };
    if on(L_PRE) {
        for _ in 0..r.us(1, 3) {
            o.push_str(*r.pick(&comments));
            o.push_str(eol);
            if on(L_BLANK) && r.bool() {
                o.push_str(eol);
            }
        }
    }
    if on(L_LEAD) && r.chance(1, 4) {
        o.push(' ');
    }
    o.push_str(&format!("p{}cnf{}{nv}{}{}", gap(&mut r), gap(&mut r), gap(&mut r), cls.len()));
    if on(L_LEAD) && r.bool() {
        o.push(' ');
    }
    o.push_str(eol);
    let mut fresh = true; // at the beginning of a line
    fn extra(o: &mut String, r: &mut Rng, lay: i64, eol: &str, comments: &[&str]) {
        if lay & L_BLANK != 0 && r.chance(1, 4) {
            o.push_str(eol);
        }
        if lay & L_COMMENT != 0 && r.chance(1, 3) {
            o.push_str(*r.pick(comments));
            o.push_str(eol);
        }
        if lay & L_BLANK != 0 && r.chance(1, 8) {
            o.push_str(if lay & L_LEAD != 0 { "  " } else { "" });
            o.push_str(eol);
        }
    }
    for c in cls {
        if fresh {
            extra(&mut o, &mut r, lay, eol, &comments);
        }
        for (i, l) in c.iter().chain(std::iter::once(&0)).enumerate() {
            if i > 0 || !fresh {
                if on(L_NEWLINE) && r.chance(1, 3) {
                    o.push_str(eol);
                    extra(&mut o, &mut r, lay, eol, &comments);
                    if on(L_LEAD) && r.chance(1, 3) {
                        o.push_str(gap(&mut r));
                    }
                } else {
                    o.push_str(gap(&mut r));
                }
            } else if on(L_LEAD) && r.chance(1, 3) {
                o.push_str(gap(&mut r));
            }
            fresh = false;
            o.push_str(&l.to_string());
        }
        if on(L_LEAD) && r.chance(1, 4) {
            o.push_str(gap(&mut r));
        }
        if !(on(L_SAMELINE) && r.chance(2, 3)) {
            o.push_str(eol);
            fresh = true;
        }
    }
    if !on(L_NOEOL) && !fresh {
        o.push_str(eol);
    }
    if on(L_NOEOL) && fresh {
        while o.ends_with('\n') || o.ends_with('\r') {
            o.pop();
        }
    }
    o.into_bytes()
}

fn small_formula(r: &mut Rng, idx: u64) -> gen_cnf::Formula {
    gen_cnf::formula(
        r,
        match idx % 16 {
            0 => 2,
            1..=4 => 1,
            _ => 0,
        },
    )
}

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A formula, a drawn layout of its DIMACS text (line breaks inside clauses, several clauses per line, comments and blank lines anywhere, tabs, leading/trailing blanks, CRLF, missing last newline, comments before the header, spare declared variables); loaded over seven routes and solved, and for up to 14 variables what each route loaded is compared with the formula by truth table. Non-trivial: at least three clauses and three layout features."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(100000, 2000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = small_formula(r, idx);
        let mut c = formula_case(&f);
        let spare = if r.chance(1, 4) { r.range(1, 4) } else { 0 };
        let nv = c.get("nv") + spare;
        c.set("nv", nv);
        let lay = if r.chance(1, 10) { 0 } else { r.range(0, 511) & r.range(0, 511) | 1 << r.below(9) };
        c.set("lay", lay).set("ls", r.range(0, 1 << 30));
        if r.chance(1, 4) {
            gen_config(r, &mut c);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let nv = c.nv().max(gen_cnf::max_var(&c.cls));
        let want = reference(nv, &c.cls);
        if want.is_none() {
            return Outcome::Skip("reference solver gave up".into());
        }
        let text = layout(nv, &c.cls, c.get("lay"), c.get("ls") as u64);
        let file = scratch().join("f.cnf");
        std::fs::write(&file, &text).expect("scratch");
        let show = || String::from_utf8_lossy(&text).into_owned();
        let top = gen_cnf::max_var(&c.cls);
        let mut config = config(c);
        config.cnf_file = file.clone();
        let empty = |n: usize| {
            Solver::instantiate(
                &config,
                &CNFDescription {
                    num_of_variables: n,
                    ..CNFDescription::default()
                },
            )
        };
        let fill = |mut s: Solver| -> Result<Solver, SolverError> {
            for x in &c.cls {
                s.add_clause(x)?;
            }
            Ok(s)
        };
        let routes: Vec<(&str, usize, Result<Solver, SolverError>)> = vec![
            (
                "Solver::try_from((config, clauses))",
                top,
                Solver::try_from((config.clone(), c.cls.as_slice())).map_err(|e| match e {
                    Ok(_) => SolverError::EmptyClause,
                    Err(e) => e,
                }),
            ),
            ("Solver::build", nv, Solver::build(&config)),
            ("add_clause to an empty solver", nv, fill(empty(nv))),
            ("add_var and add_clause", nv, {
                let mut s = empty(0);
                for i in 0..nv {
                    let n = s.add_var() as usize;
                    if n != i + 1 {
                        fail!("add_var number {} returned {n}", i + 1);
                    }
                }
                fill(s)
            }),
        ];
        for (what, n, res) in routes {
            let got = match res {
                Ok(mut s) => {
                    if s.asg.num_vars != n {
                        fail!("{what}: {} variables instead of {n}\n{}", s.asg.num_vars, show());
                    }
                    if nv <= 14
                        && let Err(e) = same_models(nv, &c.cls, &content(&s))
                    {
                        fail!("{what}: loaded something else: {e}\n{}", show());
                    }
                    s.solve()
                }
                Err(e) => early_verdict(e),
            };
            if let Err(e) = judge(n, &c.cls, want, &got) {
                fail!("{what}: {e}\n{}", show());
            }
        }
        // the two entry points with default settings (and progress messages)
        let got = Certificate::try_from(c.cls.clone());
        if let Err(e) = judge(top, &c.cls, want, &got) {
            fail!("Certificate::try_from(clauses): {e}");
        }
        let got = match Solver::try_from(file.as_path() as &Path) {
            Ok(mut s) => s.solve(),
            Err(e) => early_verdict(e),
        };
        if let Err(e) = judge(nv, &c.cls, want, &got) {
            fail!("Solver::try_from(path): {e}\n{}", show());
        }
        let lay = c.get("lay");
        let mut tags = vec![if want == Some(true) { "sat" } else { "unsat" }.to_string()];
        for (b, n) in [
            (L_NEWLINE, "line breaks in clauses"),
            (L_SAMELINE, "clauses share lines"),
            (L_COMMENT, "comments"),
            (L_BLANK, "blank lines"),
            (L_TABS, "tabs"),
            (L_LEAD, "leading blanks"),
            (L_CRLF, "CRLF"),
            (L_NOEOL, "no final newline"),
            (L_PRE, "comments before header"),
        ] {
            if lay & b != 0 {
                tags.push(n.into());
            }
        }
        finish(lay.count_ones() >= 3 && c.cls.len() >= 3, tags)
    }
}

pub struct C05;
impl C05 {
    /// one literal; out of range or zero now and then
    fn lit(r: &mut Rng, nv: i64) -> i64 {
        let s = if r.bool() { 1 } else { -1 };
        match r.below(30) {
            0 => 0,
            1 => s * (nv + 1),
            2 => s * *r.pick(&[nv + 2, nv + 100, 1 << 20, (1 << 31) - 1]),
            3 if r.chance(1, 3) => -(1 << 31),
            _ if nv > 0 => s * r.range(1, nv),
            _ => s,
        }
    }
}
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "A starting formula (possibly empty), then a sequence of add_var, add_clause and add_assignment with valid and invalid arguments, then solve; after every call the result and (up to 14 variables) the content of the solver are compared with the list of accepted parts. Non-trivial: at least one clause or assignment accepted after an added variable, or a rejected call."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(700000, 6000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mut c = if r.chance(1, 3) {
            let mut c = Case::new();
            c.set("nv", 0);
            c
        } else {
            formula_case(&small_formula(r, idx))
        };
        if c.nv() == 0 || r.chance(1, 3) {
            let n = r.range(0, 6);
            c.set("spare", n);
        }
        let mut nv = c.get("nv") + c.get("spare");
        let most = if r.chance(1, 3) { 60 } else { 14 };
        let n = r.us(1, most);
        let wide = r.range(2, 6);
        for _ in 0..n {
            match r.below(12) {
                0 | 1 if nv < 400 => {
                    c.ops.push(vec![0]);
                    nv += 1;
                }
                2 => {
                    let l = C05::lit(r, nv);
                    c.ops.push(vec![2, l]);
                }
                _ => {
                    let w = if r.chance(1, 25) { 0 } else { r.range(1, wide) };
                    let mut o = vec![1];
                    for _ in 0..w {
                        o.push(C05::lit(r, nv));
                    }
                    c.ops.push(o);
                }
            }
        }
        if r.chance(1, 4) {
            gen_config(r, &mut c);
        }
        if r.chance(1, 5) {
            c.set("cert", 1);
        }
        c
    }
    fn run(&self, c: &Case) -> Outcome {
        let mut nv = gen_cnf::max_var(&c.cls) + c.get("spare").max(0) as usize;
        let mut config = config(c);
        let pf = scratch().join("c05.drat");
        if c.get("cert") != 0 {
            config.use_certification = true;
            config.io_odir = scratch();
            config.io_pfile = "c05.drat".into();
            let _ = std::fs::remove_file(&pf);
        }
        let mut s = Solver::instantiate(
            &config,
            &CNFDescription {
                num_of_variables: nv,
                ..CNFDescription::default()
            },
        );
        let mut ops: Vec<Vec<i64>> = c
            .cls
            .iter()
            .map(|x| std::iter::once(1).chain(x.iter().map(|l| *l as i64)).collect())
            .collect();
        ops.extend(c.ops.iter().cloned());
        let mut acc: Vec<Vec<i32>> = Vec::new();
        let mut asserted: Vec<i32> = Vec::new();
        let (mut rejected, mut invalid, mut grown, mut late) = (0, 0, 0, 0);
        for (i, o) in ops.iter().enumerate() {
            let lits: Vec<i32> = o[1..].iter().map(|l| *l as i32).collect();
            let bad = |n: usize| lits.iter().any(|l| *l == 0 || l.unsigned_abs() as usize > n);
            match o[0] {
                0 => {
                    let n = s.add_var() as usize;
                    nv += 1;
                    grown += 1;
                    ensure!(n == nv, "step {i}: add_var returned {n} instead of {nv}");
                }
                k => {
                    if k == 2 && lits.is_empty() {
                        continue;
                    }
                    let (name, got) = if k == 2 {
                        ("add_assignment", s.add_assignment(lits[0]).map(|_| ()))
                    } else {
                        ("add_clause", s.add_clause(&lits).map(|_| ()))
                    };
                    let lits = if k == 2 { vec![lits[0]] } else { lits.clone() };
                    if bad(nv) {
                        invalid += 1;
                        ensure!(
                            matches!(got, Err(SolverError::InvalidLiteral)),
                            "step {i}: {name}({lits:?}) with {nv} variables gave {got:?}"
                        );
                    } else if lits.is_empty() {
                        rejected += 1;
                        ensure!(
                            matches!(got, Err(SolverError::EmptyClause)),
                            "step {i}: the empty clause gave {got:?}"
                        );
                    } else if got.is_ok() {
                        ensure!(
                            !lits.iter().all(|l| asserted.contains(&-l)),
                            "step {i}: {name}({lits:?}) was accepted against the assignments {asserted:?}"
                        );
                        let u = sorted(&lits);
                        if u.len() == 1 {
                            asserted.push(u[0]);
                        }
                        acc.push(lits);
                        late += (grown > 0) as usize;
                    } else {
                        rejected += 1;
                        let documented = if k == 2 {
                            matches!(
                                got,
                                Err(SolverError::RootLevelConflict(_) | SolverError::Inconsistent)
                            )
                        } else {
                            matches!(
                                got,
                                Err(SolverError::EmptyClause
                                    | SolverError::RootLevelConflict(_)
                                    | SolverError::Inconsistent)
                            )
                        };
                        ensure!(documented, "step {i}: {name}({lits:?}) gave {got:?}");
                        let mut f = acc.clone();
                        f.push(lits.clone());
                        if reference(nv, &f) == Some(true) {
                            fail!("step {i}: {name}({lits:?}) gave {got:?} but it is consistent");
                        }
                    }
                }
            }
            if nv <= 14
                && (i + 1 == ops.len() || i % 4 == 3 || i >= c.cls.len())
                && let Err(e) = same_models(nv, &acc, &content(&s))
            {
                fail!("after step {i} {o:?} the solver holds something else: {e}");
            }
        }
        let want = reference(nv, &acc);
        let got = s.solve();
        if let Err(e) = judge(nv, &acc, want, &got) {
            fail!("solving {acc:?} over {nv} variables: {e}");
        }
        let mut tags = vec![match &got {
            Ok(Certificate::SAT(_)) => "sat".to_string(),
            _ => "unsat".to_string(),
        }];
        if c.get("cert") != 0 && got == Ok(Certificate::UNSAT) {
            s.save_certification();
            let text = std::fs::read(&pf).unwrap_or_default();
            let ok = crate::oracle::drat::parse(&text)
                .and_then(|st| crate::oracle::drat::check(nv, &acc, &st).map(|_| ()));
            if let Err(e) = ok {
                fail!("the certificate of {acc:?}: {e}");
            }
            tags.push("certificate checked".into());
        }
        for (n, t) in [
            (rejected, "conflicting calls"),
            (invalid, "invalid literals"),
            (grown, "added variables"),
            (late, "clauses after added variables"),
        ] {
            if n > 0 {
                tags.push(t.into());
            }
        }
        finish(rejected + invalid + late > 0, tags)
    }
}

pub struct C06;
const HEADERS: [&str; 16] = [
    "p cnf",
    "p cnf 3",
    "p cnf x 3",
    "p cnf 3 x",
    "p cnf -3 2",
    "p cnf 3 -2",
    "p sat 3 2",
    "cnf 3 2",
    "p 3 2",
    "pcnf 3 2",
    "p cnf 3.5 2",
    "p cnf 99999999999999999999999 2",
    "P CNF 3 2",
    "p cnf # 3 2",
    "P cnf 3 2",
    "p cnf 3,2",
];
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A well-formed formula and layout with one damage put in at a drawn place: literal 0, out-of-range literal or overflowing number (vector, add_clause, add_assignment, file), missing file, directory, empty file, damaged or missing header, text that is not UTF-8, an empty clause (vector, file, add_clause), the literal -2^31 (vector), a header with more variables than literals can express or with a wrong number of clauses. Non-trivial: the damage is not in the first clause, or is in the file structure."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(900000, 8000000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let f = gen_cnf::formula(r, if idx % 8 == 0 { 1 } else { 0 });
        let mut c = formula_case(&f);
        if c.cls.is_empty() {
            c.cls.push(vec![1]);
            c.set("nv", 1);
        }
        c.set("dmg", r.range(0, 17));
        c.set("at", r.below(c.cls.len()) as i64);
        c.set("pos", r.below(4) as i64);
        c.set("k", r.range(0, 1 << 16));
        c.set("lay", r.range(0, 511) & r.range(0, 511));
        c.set("ls", r.range(0, 1 << 30));
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["dmg"]
    }
    fn run(&self, c: &Case) -> Outcome {
        let nv = c.nv().max(gen_cnf::max_var(&c.cls)).max(1);
        if c.cls.is_empty() {
            return finish(false, vec![]);
        }
        let at = (c.get("at").max(0) as usize).min(c.cls.len() - 1);
        let pos = (c.get("pos").max(0) as usize).min(c.cls[at].len());
        let k = c.get("k").max(0) as usize;
        let dir = scratch();
        let file = dir.join("bad.cnf");
        let sat = reference(nv, &c.cls) == Some(true);
        let mut rest = c.cls.clone();
        rest.remove(at);
        // contradictory clauses may be reported instead of the damage
        let excuse = reference(nv, &rest) == Some(false);
        let text = layout(nv, &c.cls, c.get("lay"), c.get("ls") as u64);
        let show = |t: &[u8]| String::from_utf8_lossy(t).into_owned();
        let load = |t: Option<&[u8]>, path: &Path| -> Result<Result<Solver, SolverError>, String> {
            if let Some(t) = t {
                std::fs::write(path, t).expect("scratch");
            }
            let mut cfg = quiet();
            cfg.cnf_file = path.to_path_buf();
            let a = guarded(|| Solver::build(&cfg))?;
            let b = guarded(|| Solver::try_from(path))?;
            let name = |x: &Result<Solver, SolverError>| match x {
                Ok(_) => "Ok".to_string(),
                Err(e) => format!("{e:?}"),
            };
            if name(&a) != name(&b) {
                return Err(format!("build gives {} and try_from {}", name(&a), name(&b)));
            }
            Ok(a)
        };
        let big = [
            nv as i64 + 1,
            nv as i64 + 2,
            2 * nv as i64 + 1,
            nv as i64 + 1000,
            1 << 30,
            (1 << 31) - 1,
        ][k % 6]
            * if k & 64 != 0 { -1 } else { 1 };
        let conflict = |e: &SolverError| {
            matches!(
                e,
                SolverError::EmptyClause
                    | SolverError::RootLevelConflict(_)
                    | SolverError::Inconsistent
            )
        };
        let dmg = c.get("dmg");
        let mut trivial = at == 0;
        match dmg {
            0 => {
                let mut v = c.cls.clone();
                v[at].insert(pos, 0);
                let got = match guarded(|| Solver::try_from((quiet(), v.as_slice()))) {
                    Ok(x) => x,
                    Err(e) => fail!("{v:?}: {e}"),
                };
                match got {
                    Err(Err(SolverError::InvalidLiteral)) => (),
                    Err(Err(e)) if excuse && conflict(&e) => (),
                    Err(Ok(Certificate::UNSAT)) if excuse => (),
                    Ok(_) => fail!("a vector with a literal 0 was accepted: {v:?}"),
                    Err(e) => fail!("a vector with a literal 0 gave {e:?}: {v:?}"),
                }
                match guarded(|| Certificate::try_from(v.clone())) {
                    Ok(Err(SolverError::InvalidLiteral)) => (),
                    Ok(Ok(Certificate::UNSAT)) if excuse => (),
                    e => fail!("Certificate::try_from with a literal 0 gave {e:?}: {v:?}"),
                }
            }
            1 | 2 => {
                // add_clause / add_assignment with a bad literal
                let Ok(mut s) = Solver::try_from((quiet(), c.cls.as_slice())) else {
                    return finish(false, vec!["contradictory".into()]);
                };
                let n = s.asg.num_vars as i64;
                let bad = if k & 128 != 0 { 0 } else { big.signum() * (n + big.abs() - nv as i64) };
                let bad = if k & 0x700 == 0 { i64::from(i32::MIN) } else { bad };
                let bad = bad.clamp(-(1 << 31), (1 << 31) - 1) as i32;
                let before = content(&s);
                let got = if dmg == 1 {
                    let mut x = c.cls[at].clone();
                    x.insert(pos, bad);
                    match guarded(|| s.add_clause(&x).map(|_| ())) {
                        Ok(r) => r,
                        Err(e) => fail!("add_clause({x:?}): {e}"),
                    }
                } else {
                    match guarded(|| s.add_assignment(bad).map(|_| ())) {
                        Ok(r) => r,
                        Err(e) => fail!("add_assignment({bad}): {e}"),
                    }
                };
                ensure!(
                    matches!(got, Err(SolverError::InvalidLiteral)),
                    "the literal {bad} with {n} variables gave {got:?}"
                );
                ensure!(before == content(&s), "a rejected call changed the solver");
                if let Err(e) = judge(n as usize, &c.cls, Some(sat), &s.solve()) {
                    fail!("after a rejected literal {bad}: {e}");
                }
                trivial = false;
            }
            3 | 4 => {
                // out of range in a file
                let word = if dmg == 3 {
                    big.to_string()
                } else {
                    [
                        "2147483648",
                        "-2147483648",
                        "-2147483649",
                        "4294967296",
                        "4294967297",
                        "-4294967295",
                        "9223372036854775807",
                        "18446744073709551617",
                        "99999999999999999999999999",
                        "-99999999999999999999999999",
                    ][k % 10]
                        .to_string()
                };
                // put in through a placeholder that the layout writes like any literal
                let mark = 1_987_654_321;
                let mut v = c.cls.clone();
                v[at].insert(pos, mark);
                let t = show(&layout(nv, &v, c.get("lay"), c.get("ls") as u64))
                    .replace(&mark.to_string(), &word);
                match load(Some(t.as_bytes()), &file) {
                    Err(e) => fail!("{e}\n{t}"),
                    Ok(Err(SolverError::InvalidLiteral)) => (),
                    Ok(Err(e)) if excuse && conflict(&e) => (),
                    Ok(Ok(_)) => fail!("a file with the literal {word} was accepted\n{t}"),
                    Ok(Err(e)) => fail!("a file with the literal {word} gave {e:?}\n{t}"),
                }
            }
            5 | 6 | 7 => {
                let (p, t): (_, Option<&[u8]>) = match dmg {
                    5 => (dir.join("no-such-file.cnf"), None),
                    6 => {
                        let d = dir.join("dir.cnf");
                        let _ = std::fs::create_dir_all(&d);
                        (d, None)
                    }
                    _ => (file.clone(), Some([&b""[..], b"\n", b"\n\n\n", b"c\n", b"   "][k % 5])),
                };
                match load(t, &p) {
                    Ok(Err(SolverError::IOError)) => (),
                    Err(e) => fail!("{e}"),
                    Ok(Ok(_)) => fail!("{p:?} was accepted"),
                    Ok(Err(e)) => fail!("{p:?} gave {e:?}"),
                }
                trivial = false;
            }
            8 | 9 => {
                // damaged header, or no header at all
                let t = show(&text);
                let good: Vec<&str> = t.split_inclusive('\n').collect();
                let h = good
                    .iter()
                    .position(|l| l.trim_start().starts_with('p'))
                    .expect("header");
                let head = format!("{}\n", HEADERS[k % HEADERS.len()]);
                let t: String = good
                    .iter()
                    .enumerate()
                    .map(|(i, l)| {
                        if i != h {
                            l
                        } else if dmg == 8 {
                            head.as_str()
                        } else {
                            ""
                        }
                    })
                    .collect();
                match load(Some(t.as_bytes()), &file) {
                    Ok(Err(SolverError::IOError)) => (),
                    Err(e) => fail!("{e}\n{t}"),
                    Ok(Ok(_)) => fail!("a file without a good header was accepted\n{t}"),
                    Ok(Err(e)) => fail!("a file without a good header gave {e:?}\n{t}"),
                }
                trivial = false;
            }
            10 => {
                // bytes that are not UTF-8
                let mut t = text.clone();
                let p = k % (t.len() + 1);
                let junk: &[u8] = [&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\x80\x80", b"\xfe\xff"][k / 7 % 5];
                t.splice(p..p, junk.iter().copied());
                if std::str::from_utf8(&t).is_ok() {
                    return finish(false, vec!["still UTF-8".into()]);
                }
                match load(Some(&t), &file) {
                    Ok(Err(SolverError::IOError)) => (),
                    Ok(Err(e)) if !sat && conflict(&e) => (),
                    Err(e) => fail!("{e}\n{}", show(&t)),
                    Ok(Ok(_)) => fail!("a file that is not UTF-8 was accepted\n{}", show(&t)),
                    Ok(Err(e)) => fail!("a file that is not UTF-8 gave {e:?}\n{}", show(&t)),
                }
                trivial = false;
            }
            11 => {
                // an empty clause in a vector
                let mut v = c.cls.clone();
                v.insert(at, vec![]);
                match guarded(|| Solver::try_from((quiet(), v.as_slice()))) {
                    Ok(Err(Err(SolverError::EmptyClause)) | Err(Ok(Certificate::UNSAT))) => (),
                    Ok(Ok(_)) => fail!("an empty clause was accepted: {v:?}"),
                    Ok(Err(e)) => fail!("an empty clause gave {e:?}: {v:?}"),
                    Err(e) => fail!("an empty clause: {e}: {v:?}"),
                }
                match guarded(|| Certificate::try_from(v.clone())) {
                    Ok(Ok(Certificate::UNSAT)) => (),
                    e => fail!("Certificate::try_from with an empty clause gave {e:?}"),
                }
            }
            12 => {
                // an empty clause in a file
                let mut v = c.cls.clone();
                v.insert(at, vec![]);
                let t = layout(nv, &v, c.get("lay"), c.get("ls") as u64);
                match load(Some(&t), &file) {
                    Ok(Err(e)) if conflict(&e) => (),
                    Err(e) => fail!("{e}\n{}", show(&t)),
                    Ok(Err(e)) => fail!("a file with an empty clause gave {e:?}\n{}", show(&t)),
                    Ok(Ok(mut s)) => {
                        let got = s.solve();
                        ensure!(
                            got == Ok(Certificate::UNSAT),
                            "a file with an empty clause gave {got:?}\n{}",
                            show(&t)
                        );
                    }
                }
            }
            13 => {
                // fewer variables declared than used
                let top = gen_cnf::max_var(&c.cls);
                if top == 0 {
                    return finish(false, vec![]);
                }
                let declared = k % top;
                let t = layout(declared, &c.cls, c.get("lay"), c.get("ls") as u64);
                match load(Some(&t), &file) {
                    Ok(Err(SolverError::InvalidLiteral)) => (),
                    Ok(Err(e)) if !sat && conflict(&e) => (),
                    Err(e) => fail!("{e}\n{}", show(&t)),
                    Ok(Ok(_)) => fail!("variables beyond the declared were accepted\n{}", show(&t)),
                    Ok(Err(e)) => fail!("variables beyond the declared gave {e:?}\n{}", show(&t)),
                }
                trivial = false;
            }
            15 => {
                // the integer that has no negation
                let mut v = c.cls.clone();
                match k % 3 {
                    0 => v[at].insert(pos, i32::MIN),
                    1 => v = vec![vec![i32::MIN; pos + 1]],
                    _ => v.iter_mut().flatten().for_each(|l| *l = i32::MIN),
                }
                if v.iter().any(|c| c.is_empty()) {
                    return finish(false, vec![]);
                }
                match guarded(|| Solver::try_from((quiet(), v.as_slice()))) {
                    Err(e) => fail!("{v:?}: {e}"),
                    Ok(Err(Err(SolverError::InvalidLiteral))) => (),
                    Ok(Err(Err(e))) if excuse && conflict(&e) => (),
                    Ok(Err(Ok(Certificate::UNSAT))) if excuse => (),
                    Ok(Ok(_)) => fail!("a vector with the literal -2^31 was accepted: {v:?}"),
                    Ok(Err(e)) => fail!("a vector with the literal -2^31 gave {e:?}: {v:?}"),
                }
                trivial = false;
            }
            16 | 17 => {
                // a header with a number of variables beyond all literals (16), or with a wrong
                // number of clauses (17)
                let n = c.cls.len() as u64;
                let t = show(&text);
                let good: Vec<&str> = t.split_inclusive('\n').collect();
                let h = good
                    .iter()
                    .position(|l| l.trim_start().starts_with('p'))
                    .expect("header");
                let head = if dmg == 16 {
                    let v = [
                        1u64 << 31,
                        (1 << 31) + 1,
                        3_000_000_000,
                        (1 << 32) - 1,
                        1 << 32,
                        (1 << 32) + nv as u64,
                        (1 << 63) - 1,
                        1 << 63,
                        u64::MAX,
                    ][k % 9];
                    format!("p cnf {v} {n}\n")
                } else {
                    let m = [
                        0,
                        1,
                        n / 2,
                        n + 1,
                        2 * n + 1,
                        n + 1_000_000,
                        1 << 31,
                        (1 << 32) + n,
                        1 << 40,
                        1 << 62,
                        (1 << 63) + 1,
                        u64::MAX,
                    ][k % 12];
                    format!("p cnf {nv} {m}\n")
                };
                let t: String =
                    good.iter().enumerate().map(|(i, l)| if i != h { l } else { head.as_str() }).collect();
                match load(Some(t.as_bytes()), &file) {
                    Err(e) => fail!("{e}\n{t}"),
                    Ok(Err(SolverError::IOError)) => (),
                    Ok(Err(e)) if dmg == 17 && !sat && conflict(&e) => (),
                    Ok(Err(e)) => fail!("a file with the header {head:?} gave {e:?}\n{t}"),
                    Ok(Ok(_)) if dmg == 16 => fail!("the header {head:?} was accepted\n{t}"),
                    Ok(Ok(mut s)) => {
                        if let Err(e) = judge(nv, &c.cls, Some(sat), &s.solve()) {
                            fail!("with the header {head:?}: {e}\n{t}");
                        }
                    }
                }
                trivial = false;
            }
            _ => {
                // the empty clause as an argument
                let Ok(mut s) = Solver::try_from((quiet(), c.cls.as_slice())) else {
                    return finish(false, vec!["contradictory".into()]);
                };
                let v: Vec<i32> = vec![];
                match guarded(|| s.add_clause(v).map(|_| ())) {
                    Ok(Err(SolverError::EmptyClause)) => (),
                    e => fail!("add_clause of the empty clause gave {e:?}"),
                }
                trivial = false;
            }
        }
        let names = [
            "literal 0 in vector",
            "bad literal in add_clause",
            "bad literal in add_assignment",
            "out of range in file",
            "overflow in file",
            "missing file",
            "directory",
            "empty file",
            "damaged header",
            "no header",
            "not UTF-8",
            "empty clause in vector",
            "empty clause in file",
            "too few declared",
            "empty clause to add_clause",
            "literal -2^31 in vector",
            "too many variables in header",
            "wrong number of clauses in header",
        ];
        finish(!trivial, vec![names[dmg.clamp(0, 17) as usize].into()])
    }
}

