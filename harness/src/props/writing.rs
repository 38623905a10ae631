//! C30: files that can't be written completely.
use super::commands::{Said, command_limited, fresh_dir, read_result, verdicts};
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier, guarded},
    ensure, fail, gen_cnf,
    rng::Rng,
    util::*,
};
use splr::{
    Certificate, Config, SatSolverIF, SolveIF, Solver, SolverError,
    cnf::{CNF, CNFOperationError, CnfIf},
};
use std::path::Path;

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C30)]
}

unsafe extern "C" {
    fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;

/// No file of this process grows beyond `n` bytes; writing beyond is an error.
/// Returns the limit there was.
pub fn limit_files(n: u64) -> u64 {
    unsafe {
        // SIGXFSZ, ignored
        signal(25, 1);
        let mut l = [0; 2];
        getrlimit(RLIMIT_FSIZE, &mut l);
        let old = l[0];
        setrlimit(RLIMIT_FSIZE, &[n.min(l[1]), l[1]]);
        old
    }
}

/// `f` under a limit on the size of files; `Err` if it panicked
fn limited<T>(n: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    let old = limit_files(n);
    let r = guarded(f);
    limit_files(old);
    r
}

/// the limit of a case, for a file of `size` bytes
fn cut(c: &Case, size: usize) -> u64 {
    let size = size as i64;
    (match c.get("kind") {
        0 => size * c.get("cut").clamp(0, 999) / 1000,
        1 => size - c.get("cut").clamp(0, 999) % 8,
        _ => size + c.get("cut").clamp(0, 999),
    })
    .max(0) as u64
}

/// Does a certificate have its last line?
fn closed(t: &[u8]) -> bool {
    t == b"0\n" || t.ends_with(b"\n0\n")
}

pub struct C30;

impl C30 {
    fn cnf(&self, c: &Case, dir: &Path) -> Outcome {
        let mut cnf = CNF::default();
        for x in &c.cls {
            let _ = cnf.add_clause(x.clone());
        }
        let want = cnf.dump_to_string();
        let (full, part) = (dir.join("full.cnf"), dir.join("part.cnf"));
        let r = cnf.save(&full);
        ensure!(r.is_ok(), "CNF::save gives {r:?}");
        let got = std::fs::read_to_string(&full).unwrap_or_default();
        ensure!(got == want, "CNF::save leaves {} of {} bytes", got.len(), want.len());
        let r = cnf.save(&dir.join("missing/x.cnf"));
        ensure!(
            matches!(r, Err(CNFOperationError::CreatingCNFFile)),
            "CNF::save to a directory that doesn't exist gives {r:?}"
        );
        if c.get("stale") != 0 {
            std::fs::write(&part, want.repeat(2)).expect("write");
        }
        let n = cut(c, want.len());
        match limited(n, || cnf.save(&part)) {
            Err(e) => fail!("CNF::save panicked at a file that takes {n} of {} bytes: {e}", want.len()),
            Ok(Ok(())) => {
                let got = std::fs::read_to_string(&part).unwrap_or_default();
                ensure!(
                    got == want,
                    "CNF::save succeeds, and the file has {} of {} bytes",
                    got.len(),
                    want.len()
                );
                finish(false, vec!["cnf saved".into()])
            }
            Ok(Err(e)) => {
                ensure!(
                    matches!(e, CNFOperationError::WritingCNFFile),
                    "CNF::save gives {e:?} for a file that takes {n} of {} bytes",
                    want.len()
                );
                ensure!(n < want.len() as u64, "CNF::save gives {e:?} for a file that takes all bytes");
                finish(true, vec!["cnf refused".into()])
            }
        }
    }
    fn dump(&self, c: &Case, dir: &Path) -> Outcome {
        let Ok(mut s) = Solver::try_from((quiet(), c.cls.as_slice())) else {
            return finish(false, vec!["unsat at loading".into()]);
        };
        if c.get("solve") != 0 {
            let _ = s.solve();
        }
        let (full, part) = (dir.join("full.cnf"), dir.join("part.cnf"));
        if let Err(e) = guarded(|| s.dump_cnf(&full)) {
            fail!("dump_cnf panicked: {e}");
        }
        let want = std::fs::read(&full).unwrap_or_default();
        ensure!(want.starts_with(b"p cnf "), "dump_cnf leaves no file");
        let n = cut(c, want.len());
        match limited(n, || s.dump_cnf(&part)) {
            Ok(()) => {
                let got = std::fs::read(&part).unwrap_or_default();
                ensure!(
                    got == want,
                    "dump_cnf says nothing, and the file has {} of {} bytes",
                    got.len(),
                    want.len()
                );
                finish(false, vec!["dumped".into()])
            }
            Err(e) => {
                ensure!(n < want.len() as u64, "dump_cnf panicked: {e}");
                finish(true, vec!["dump refused".into()])
            }
        }
    }
    fn library(&self, c: &Case, dir: &Path) -> Outcome {
        let k = |odir: &Path| Config {
            use_certification: true,
            io_odir: odir.to_path_buf(),
            io_pfile: "p.drat".into(),
            ..config(c)
        };
        let run = |odir: &Path| match Solver::try_from((k(odir), c.cls.as_slice())) {
            Ok(mut s) => {
                let r = s.solve();
                (Some(s.save_certification()), Some(r))
            }
            Err(Ok(Certificate::UNSAT)) | Err(Err(SolverError::EmptyClause)) => (None, None),
            Err(e) => (None, Some(e)),
        };
        let bytes = |odir: &Path| std::fs::read(odir.join("p.drat")).unwrap_or_default();
        let (a, b) = (dir.join("a"), dir.join("b"));
        std::fs::create_dir(&a).expect("mkdir");
        std::fs::create_dir(&b).expect("mkdir");
        let start = std::time::Instant::now();
        let (saved, full) = run(&a);
        let Some(full) = full else {
            return finish(false, vec!["unsat at loading".into()]);
        };
        ensure!(saved == Some(true), "the certificate is not saved: {saved:?}, {full:?}");
        let want = bytes(&a);
        let (saved, r) = if c.get("nodir") != 0 {
            run(&dir.join("missing"))
        } else {
            let n = cut(c, want.len());
            match limited(n, || run(&b)) {
                Ok(x) => x,
                Err(e) => fail!("panicked with a certificate that takes {n} of {} bytes: {e}", want.len()),
            }
        };
        // the eliminator stops by the clock
        let fast = start.elapsed() < std::time::Duration::from_millis(80);
        let same = match (&r, &full) {
            (Some(Ok(Certificate::SAT(_))), Ok(Certificate::SAT(_))) if !fast => true,
            _ => r.as_ref() == Some(&full),
        };
        ensure!(
            same,
            "{:?} with a certificate that can't be written, {:?} otherwise",
            r,
            full
        );
        let complete = closed(&bytes(&b)) && (!fast || bytes(&b) == want);
        ensure!(
            saved == Some(complete),
            "save_certification() gives {saved:?} for {} of {} bytes",
            bytes(&b).len(),
            want.len()
        );
        finish(!complete, vec![if complete { "certificate saved" } else { "certificate refused" }.into()])
    }
    fn command(&self, c: &Case, dir: &Path) -> Outcome {
        let nv = c.nv().max(gen_cnf::max_var(&c.cls));
        let mut text = format!("p cnf {nv} {}\n", c.cls.len());
        for x in &c.cls {
            for l in x {
                text += &format!("{l} ");
            }
            text += "0\n";
        }
        std::fs::write(dir.join("a.cnf"), text).expect("write");
        let args = |to: &str| {
            let mut v: Vec<String> = Vec::new();
            if c.get("quiet") != 0 {
                v.push("-q".into());
            }
            if c.get("certify") != 0 {
                v.push("-c".into());
            }
            for a in ["-o", to, "-r", "r.txt", "a.cnf"] {
                v.push(a.into());
            }
            v
        };
        std::fs::create_dir(dir.join("f")).expect("mkdir");
        std::fs::create_dir(dir.join("g")).expect("mkdir");
        let read = |d: &str, f: &str| std::fs::read(dir.join(d).join(f)).unwrap_or_default();
        let a = command_limited("splr", &args("f"), dir, None, None, None);
        let said = verdicts(&a.out);
        let told = match a.code {
            Some(10) => Said::Sat,
            Some(20) => Said::Unsat,
            x => fail!("splr exits with {x:?}"),
        };
        ensure!(!said.is_empty() && said.iter().all(|v| *v == told), "splr says {said:?}");
        let complaint = |s: &str| s.lines().filter(|l| l.contains("failed to save")).count();
        let announced = |s: &str| s.contains("Certificate|file");
        ensure!(complaint(&a.out) == 0, "splr complains: {:?}", a.out);
        let proof = told == Said::Unsat && c.get("certify") != 0;
        ensure!(
            announced(&a.out) == proof,
            "splr {} a certificate",
            if proof { "doesn't announce" } else { "announces" }
        );
        let (result, drat) = (read("f", "r.txt"), read("f", "proof.drat"));
        let whole = |t: &[u8]| {
            t.ends_with(b"0\n")
                && read_result(&String::from_utf8_lossy(t), true).is_ok_and(|x| x.0 == told)
        };
        ensure!(whole(&result), "splr's result file is not complete");
        ensure!(!proof || closed(&drat), "splr's certificate is not complete");
        let big = if c.get("which") != 0 && proof { drat.len() } else { result.len() };
        let n = cut(c, big);
        let to = if c.get("nodir") != 0 { "missing" } else { "g" };
        let b = command_limited("splr", &args(to), dir, None, Some(n), None);
        ensure!(
            b.code == a.code,
            "splr exits with {:?} if a file takes only {n} bytes, with {:?} otherwise: {:?}",
            b.code,
            a.code,
            b.out
        );
        let said = verdicts(&b.out);
        ensure!(
            !said.is_empty() && said.iter().all(|v| *v == told),
            "splr says {said:?} if a file takes only {n} bytes"
        );
        let mut want = 0;
        let mut tags = Vec::new();
        if to == "missing" {
            // a result that has no file goes to the standard output
            match read_result(&b.out, false) {
                Ok((v, _)) => ensure!(v == told, "splr writes {v:?}"),
                Err(e) => fail!("a result that has no file isn't on the standard output: {e}"),
            }
            tags.push("result redirected".to_string());
        } else if !whole(&read("g", "r.txt")) {
            want += 1;
            tags.push("result refused".to_string());
        }
        if proof {
            let complete = closed(&read("g", "proof.drat"));
            ensure!(
                announced(&b.out) == complete,
                "splr {} a certificate of {} of {} bytes",
                if complete { "doesn't announce" } else { "announces" },
                read("g", "proof.drat").len(),
                drat.len()
            );
            if !complete {
                want += 1;
                tags.push("proof refused".to_string());
            }
        }
        ensure!(
            complaint(&b.out) == want,
            "{want} files could not be written completely (limit {n}), and splr says {:?}",
            b.out.lines().filter(|l| l.contains('|') || l.contains("save")).collect::<Vec<_>>()
        );
        if want == 0 {
            tags.push("command wrote".to_string());
        }
        finish(want > 0, tags)
    }
}

impl Prop for C30 {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "A formula (the families of C01 at three sizes, sometimes thousands of clauses) is saved as a CNF object, dumped from a solver, or solved by the library with certification or by the splr command, once without a limit, and once where files take only a drawn number of bytes (anywhere, just below the size needed, or enough); or in a directory that doesn't exist (certificates, and the command). The fault is injected by RLIMIT_FSIZE with SIGXFSZ ignored, so writing fails with an error at that byte. A file shorter than the one of the first run must be reported as not saved, a complete one must not; answers and exit codes must be those of the first run (the same model only if both runs took less than 80 ms, because the eliminator stops by the clock). A certificate is complete if it has its final line, a result file if it can be read back. Non-trivial: a file was cut short."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(150_000, 4_000_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, _t: Tier) -> Case {
        let mode = r.weighted(&[5, 4, 4, 3]) as i64;
        let f = gen_cnf::formula(
            r,
            match idx % 40 {
                0..=5 => 2,
                6..=20 => 1,
                _ => 0,
            },
        );
        let mut c = formula_case(&f);
        c.set("mode", mode);
        if mode < 2 && r.chance(1, 10) {
            // more than a write buffer
            let nv = *r.pick(&[20i64, 1000, 100_000]);
            for _ in 0..*r.pick(&[100, 600, 1500, 4000]) {
                let n = r.us(2, 5);
                let x = (0..n).map(|_| (if r.bool() { r.range(1, nv) } else { -r.range(1, nv) }) as i32);
                c.cls.push(x.collect());
            }
        }
        let (kind, cut) = (r.weighted(&[6, 2, 1]) as i64, r.range(0, 999));
        c.set("kind", kind).set("cut", cut);
        for (k, n, d) in [("stale", 1, 3), ("solve", 1, 2), ("quiet", 1, 2), ("certify", 2, 3), ("which", 1, 2), ("nodir", 1, 12)] {
            if r.chance(n, d) {
                c.set(k, 1);
            }
        }
        if c.cls.len() > 1000 {
            c.set("solve", 0);
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["mode"]
    }
    fn run(&self, c: &Case) -> Outcome {
        let dir = fresh_dir("c30");
        match c.get("mode") {
            0 => self.cnf(c, &dir),
            1 => self.dump(c, &dir),
            2 => self.library(c, &dir),
            _ => self.command(c, &dir),
        }
    }
}
