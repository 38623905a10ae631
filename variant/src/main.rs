//! A driver for a build of splr with some set of features. Reads one request per line:
//!   solve <certificate file name or -> <directory> k=v,... ; 1 2 0 -1 0
//!   sls <limit> <bits of the assignment> ; clauses
//!   complete ; clauses ; learnt binary clauses
//! and answers with one line.
#[cfg(not(feature = "no_IO"))]
use splr::SatSolverIF;
use splr::{
    Certificate, Config, PropertyDereference, SolveIF, Solver, SolverError,
    assign::{VarManipulateIF, property as ap},
    cdb::{ClauseDBIF, property as cp},
    types::*,
};
use std::io::{BufRead, Write};

unsafe extern "C" {
    fn alarm(seconds: u32) -> u32;
    fn prctl(option: i32, a: u64, ...) -> i32;
}

fn clauses(s: &str) -> Vec<Vec<i32>> {
    let mut out = Vec::new();
    let mut c = Vec::new();
    for w in s.split_whitespace() {
        match w.parse::<i32>().expect("literal") {
            0 => out.push(std::mem::take(&mut c)),
            l => c.push(l),
        }
    }
    out
}

fn config(s: &str) -> Config {
    let mut k = Config {
        quiet_mode: true,
        c_timeout: 100_000.0,
        ..Config::default()
    };
    for kv in s.split(',').filter(|x| !x.is_empty()) {
        let (n, v) = kv.split_once('=').expect("setting");
        let v: i64 = v.parse().expect("value");
        match n {
            "k_elim" => k.enable_eliminator = k.enable_eliminator && v != 0,
            "k_ecl" => k.elm_cls_lim = v.max(0) as usize,
            "k_evl" => k.elm_grw_lim = v.max(0) as usize,
            "k_evo" => k.elm_var_occ = v.max(0) as usize,
            "k_crl" => k.cls_rdc_lbd = v.max(0) as u16,
            "k_cr1" => k.cls_rdc_rm1 = v as f64 / 100.0,
            "k_cr2" => k.cls_rdc_rm2 = v as f64 / 100.0,
            "k_rlt" => k.rst_lbd_thr = v as f64 / 100.0,
            "k_vdr" => k.vrw_dcy_rat = v as f64 / 1000.0,
            "k_vds" => k.vrw_dcy_stp = v as f64 / 100_000.0,
            "k_cdr" => k.crw_dcy_rat = v as f64 / 1000.0,
            "k_cbt" => k.c_cbt_thr = v.max(0) as u32,
            _ => (),
        }
    }
    k
}

fn solve(head: &str, body: &str) -> String {
    let mut it = head.split(' ');
    let (file, dir) = (it.next().unwrap_or("-"), it.next().unwrap_or("."));
    let mut k = config(it.next().unwrap_or(""));
    if file != "-" {
        k.use_certification = true;
        k.io_odir = dir.into();
        k.io_pfile = file.into();
    }
    let cls = clauses(body);
    let (r, n, e, red) = match Solver::try_from((k, cls.as_slice())) {
        Ok(mut s) => {
            let r = s.solve();
            #[cfg(not(feature = "no_IO"))]
            if file != "-" {
                s.save_certification();
            }
            (
                r,
                s.asg.derefer(ap::Tusize::NumConflict),
                s.asg.derefer(ap::Tusize::NumEliminatedVar),
                s.cdb.derefer(cp::Tusize::NumReduction),
            )
        }
        Err(Err(SolverError::EmptyClause)) => (Ok(Certificate::UNSAT), 0, 0, 0),
        Err(e) => (e, 0, 0, 0),
    };
    let stats = format!("{n} {e} {red}");
    match r {
        Ok(Certificate::SAT(m)) => {
            let m: Vec<String> = m.iter().map(|l| l.to_string()).collect();
            format!("sat {stats} ; {}", m.join(" "))
        }
        Ok(Certificate::UNSAT) => format!("unsat {stats} ;"),
        Err(e) => format!("error {stats} ; {e:?}"),
    }
}

fn content(s: &Solver) -> String {
    let mut o = String::new();
    for c in s.cdb.iter().skip(1).filter(|c| !c.is_dead()) {
        for l in c.iter() {
            o.push_str(&format!("{} ", i32::from(*l)));
        }
        o.push_str("0 ");
    }
    o
}

#[cfg(feature = "stochastic_local_search")]
fn sls(head: &str, body: &str) -> String {
    use splr::cdb::StochasticLocalSearchIF;
    let mut it = head.split(' ');
    let limit: usize = it.next().unwrap().parse().unwrap();
    let bits = it.next().unwrap_or("");
    let cls = clauses(body);
    let Ok(mut s) = Solver::try_from((config(""), cls.as_slice())) else {
        return "unsat at loading".into();
    };
    let before = content(&s);
    let mut a: std::collections::HashMap<VarId, bool> = bits
        .bytes()
        .enumerate()
        .map(|(i, b)| (i + 1, b == b'1'))
        .collect();
    let Solver { asg, cdb, .. } = &mut s;
    let (x, y) = cdb.stochastic_local_search(asg, &mut a, limit);
    let n = bits.len();
    let total = a.len() == n && (1..=n).all(|v| a.contains_key(&v));
    let m: String = (1..=n)
        .map(|v| match a.get(&v) {
            Some(true) => '1',
            Some(false) => '0',
            None => '?',
        })
        .collect();
    let after = content(&s);
    format!(
        "sls {x} {y} {} {} {m} ; {after}",
        total as u8,
        (before == after) as u8
    )
}
#[cfg(not(feature = "stochastic_local_search"))]
fn sls(_: &str, _: &str) -> String {
    "no sls".into()
}

/// the clauses in the database after completing the network of binary clauses
fn complete(body: &str, learnt: &str) -> String {
    let cls = clauses(body);
    let Ok(mut s) = Solver::try_from((config(""), cls.as_slice())) else {
        return "unsat at loading".into();
    };
    let mut out = String::new();
    for c in clauses(learnt) {
        let mut v: Vec<Lit> = c.iter().map(|l| Lit::from(*l)).collect();
        if v.iter().any(|l| s.asg.assigned(*l).is_some()) {
            continue;
        }
        if v.is_empty() {
            let Solver { asg, cdb, .. } = &mut s;
            cdb.complete_bi_clauses(asg);
            out.push_str(&content(&s));
            out.push_str("| ");
        } else {
            let Solver { asg, cdb, .. } = &mut s;
            cdb.new_clause(asg, &mut v, true);
        }
    }
    format!("complete ; {out}")
}

fn main() {
    unsafe {
        prctl(1, 9);
    }
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        unsafe {
            alarm(120);
        }
        let answer = std::panic::catch_unwind(|| {
            let mut parts = line.trim_end().split(" ;");
            let head = parts.next().unwrap_or("");
            let body = parts.next().unwrap_or("");
            match head.split_once(' ').unwrap_or((head, "")) {
                ("solve", h) => solve(h, body),
                ("sls", h) => sls(h, body),
                ("complete", _) => complete(body, parts.next().unwrap_or("")),
                (x, _) => format!("unknown request {x}"),
            }
        })
        .unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic {}", m.replace('\n', " "))
        });
        println!("\u{1}{answer}");
        let _ = std::io::stdout().flush();
    }
}
