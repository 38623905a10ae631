//! C29: the command line.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier},
    ensure,
    rng::Rng,
    util::*,
};
use splr::Config;
use std::{
    io::Read,
    path::PathBuf,
    process::{Command, Stdio},
    sync::OnceLock,
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C29)]
}

#[derive(Clone, Copy, Eq, PartialEq)]
enum Kind {
    Flag,
    Count,
    Number,
    Place,
}
use Kind::*;

/// the documented options: short form, long form, what they take
const OPTS: [(&str, &str, Kind); 22] = [
    ("-h", "--help", Flag),
    ("-V", "--version", Flag),
    ("-C", "--no-color", Flag),
    ("-q", "--quiet", Flag),
    ("-c", "--certify", Flag),
    ("-H", "--heatmap", Flag),
    ("-j", "--journal", Flag),
    ("", "--cl", Count),
    ("", "--crl", Count),
    ("", "--ecl", Count),
    ("", "--evl", Count),
    ("", "--evo", Count),
    ("", "--cr1", Number),
    ("", "--cr2", Number),
    ("", "--rlt", Number),
    ("", "--vdr", Number),
    ("", "--vds", Number),
    ("", "--cdr", Number),
    ("-t", "--timeout", Number),
    ("-o", "--dir", Place),
    ("-p", "--proof", Place),
    ("-r", "--result", Place),
];
/// listed by --help only in builds with a feature of their own
const HIDDEN: [&str; 2] = ["--vds", "--cdr"];

const COUNTS: [&str; 12] = [
    "0", "1", "007", "+5", "64", "255", "256", "20000", "65535", "65536", "4294967296",
    "18446744073709551615",
];
const NUMBERS: [&str; 16] = [
    "0", "1", "0.5", ".25", "5.", "1e6", "1E-9", "-1", "-0.0", "inf", "+3", "0.1", "1.7976931348623157e308",
    "12345678901234567890", "0.30000000000000004", "0.0",
];
const PLACES: [&str; 14] = [
    "-", "r.txt", "sub/r", "/abs/r", "", "./x y", "ünï", "a=b", "-q", "--cl", ".", "..", "proof.drat", "a.cnf",
];
const BAD: [&str; 10] = ["", "abc", "1x", "--", " 1", "1 ", "0x10", "1,5", "-", "1_000"];
const BAD_COUNT: [&str; 6] = ["-1", "1.5", "1e3", "18446744073709551616", "inf", "nan"];
const UNKNOWN: [&str; 16] = [
    "-x", "--foo", "--cl=5", "--quiet=1", "-cq", "-qC", "--", "-", "--Quiet", "--qui", "---quiet", "-help",
    "--c", "--o", "--result=x", "--noncolor",
];
const FILES: [&str; 8] = ["a.cnf", "b c.cnf", "sub/d.cnf", "ünï.cnf", "5", "e=f", "./a.cnf", "sub/../a.cnf"];
const MISSING: [&str; 3] = ["nothing.cnf", "sub/nothing", "0.5"];

/// every setting, one to a line
fn dump(c: &Config) -> String {
    [
        format!("c_cbt_thr {}", c.c_cbt_thr),
        format!("cl {}", c.c_cls_lim),
        format!("timeout {:x}", c.c_timeout.to_bits()),
        format!("splr_interface {}", c.splr_interface),
        format!("file {:?}", c.cnf_file),
        format!("dir {:?}", c.io_odir),
        format!("proof {:?}", c.io_pfile),
        format!("result {:?}", c.io_rfile),
        format!("no-color {}", c.no_color),
        format!("quiet {}", c.quiet_mode),
        format!("heatmap {}", c.show_cdb_heatmap),
        format!("journal {}", c.show_journal),
        format!("certify {}", c.use_certification),
        format!("cdr {:x}", c.crw_dcy_rat.to_bits()),
        format!("crl {}", c.cls_rdc_lbd),
        format!("cr1 {:x}", c.cls_rdc_rm1.to_bits()),
        format!("cr2 {:x}", c.cls_rdc_rm2.to_bits()),
        format!("rlt {:x}", c.rst_lbd_thr.to_bits()),
        format!("enable_eliminator {}", c.enable_eliminator),
        format!("ecl {}", c.elm_cls_lim),
        format!("evl {}", c.elm_grw_lim),
        format!("evo {}", c.elm_var_occ),
        format!("vdr {:x}", c.vrw_dcy_rat.to_bits()),
        format!("vds {:x}", c.vrw_dcy_stp.to_bits()),
    ]
    .join("\n")
}

const MARK: &str = "the settings are";

/// the other side: this process was started with a command line to read
pub fn args_main() {
    let mut c = Config::default();
    c.inject_from_args();
    println!("{MARK}\n{}", dump(&c));
}

fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = super::commands::fresh_dir("c29");
        std::fs::create_dir_all(d.join("sub")).expect("create");
        for f in FILES {
            std::fs::write(d.join(f), "p cnf 1 1\n1 0\n").expect("write");
        }
        d
    })
}

fn parse_count(s: &str) -> Option<usize> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: u128 = 0;
    for b in t.bytes() {
        n = n * 10 + u128::from(b - b'0');
        if n > u64::MAX.into() {
            return None;
        }
    }
    Some(n as usize)
}

/// sets the one setting of an option; `None` if the value is unreadable for it
fn apply(c: &mut Config, name: &str, v: &str) -> Option<()> {
    let number = |v: &str| v.parse::<f64>().ok();
    match name {
        "--no-color" => c.no_color = true,
        "--quiet" => c.quiet_mode = true,
        "--certify" => c.use_certification = true,
        "--heatmap" => c.show_cdb_heatmap = true,
        "--journal" => c.show_journal = true,
        "--help" | "--version" => (),
        "--cl" => c.c_cls_lim = parse_count(v)?,
        "--crl" => c.cls_rdc_lbd = u16::try_from(parse_count(v)?).ok()?,
        "--ecl" => c.elm_cls_lim = parse_count(v)?,
        "--evl" => c.elm_grw_lim = parse_count(v)?,
        "--evo" => c.elm_var_occ = parse_count(v)?,
        "--cr1" => c.cls_rdc_rm1 = number(v)?,
        "--cr2" => c.cls_rdc_rm2 = number(v)?,
        "--rlt" => c.rst_lbd_thr = number(v)?,
        "--vdr" => c.vrw_dcy_rat = number(v)?,
        "--vds" => c.vrw_dcy_stp = number(v)?,
        "--cdr" => c.crw_dcy_rat = number(v)?,
        "--timeout" => c.c_timeout = number(v)?,
        "--dir" => c.io_odir = PathBuf::from(v),
        "--proof" => c.io_pfile = PathBuf::from(v),
        "--result" => c.io_rfile = PathBuf::from(v),
        _ => unreachable!(),
    }
    Some(())
}

/// what --help says about an option's default
fn default_of(c: &Config, name: &str) -> Option<String> {
    Some(match name {
        "--cl" => c.c_cls_lim.to_string(),
        "--crl" => c.cls_rdc_lbd.to_string(),
        "--ecl" => c.elm_cls_lim.to_string(),
        "--evl" => c.elm_grw_lim.to_string(),
        "--evo" => c.elm_var_occ.to_string(),
        "--cr1" => format!("{:.2}", c.cls_rdc_rm1),
        "--cr2" => format!("{:.2}", c.cls_rdc_rm2),
        "--rlt" => format!("{:.2}", c.rst_lbd_thr),
        "--vdr" => format!("{:.2}", c.vrw_dcy_rat),
        "--timeout" => c.c_timeout.to_string(),
        "--dir" => c.io_odir.to_string_lossy().into_owned(),
        "--proof" => c.io_pfile.to_string_lossy().into_owned(),
        _ => return None,
    })
}

pub struct C29;
impl Prop for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "Command lines of zero to nine documented options in any order, short or long, some repeated, with values from tables of ordinary and extreme spellings and random numbers, then a problem file with an ordinary or odd name; one in five with one flaw: an unknown or joined option, an unreadable or missing value, a file that is not there or none at all. They are read by Config::inject_from_args in a process started with them; every field of the result is compared with a table-driven model. Refused lines must not yield settings; the help text must list each option with its default. Non-trivial: at least two options with values, or a flaw behind at least one option."
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(250_000, 6_000_000)
    }
    fn generate(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Case {
        let mut c = Case::new();
        for _ in 0..r.us(0, 9) {
            // help and version end everything: seldom
            let k = if r.chance(1, 60) { r.range(0, 1) } else { r.range(2, OPTS.len() as i64 - 1) };
            let v = if r.bool() { r.range(0, 99) } else { r.range(100, 1_000_000) };
            c.ops.push(vec![0, k, v, r.range(0, 1)]);
        }
        if r.chance(1, 5) {
            let at = r.below(c.ops.len() + 1);
            match r.below(5) {
                0 => c.ops.insert(at, vec![1, r.range(0, UNKNOWN.len() as i64 - 1)]),
                1 | 2 => c.ops.insert(at, vec![2, r.range(7, 18), r.range(0, 15), r.range(0, 1)]),
                3 => {
                    // the line ends with an option that needs a value
                    c.set("cut", r.range(7, 21));
                    c.set("long", r.range(0, 1));
                }
                _ => {
                    c.set("missing", r.range(1, MISSING.len() as i64));
                }
            }
        }
        c.set("file", r.range(0, FILES.len() as i64 - 1));
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["cut", "missing"]
    }
    fn run(&self, c: &Case) -> Outcome {
        let mut want = Config::default();
        let mut args: Vec<String> = Vec::new();
        let (mut flawed, mut help, mut version) = (false, false, false);
        let mut tags: Vec<String> = Vec::new();
        let mut valued = 0;
        let name_of = |k: i64, long: i64| {
            let o = &OPTS[k.rem_euclid(OPTS.len() as i64) as usize];
            (o, if long == 1 || o.0.is_empty() { o.1 } else { o.0 }.to_string())
        };
        for o in &c.ops {
            let at = |i: usize| o.get(i).copied().unwrap_or(0).max(0);
            match at(0) {
                0 => {
                    let (opt, name) = name_of(at(1), at(3));
                    args.push(name);
                    let v = at(2) as usize;
                    let s = match opt.2 {
                        Flag => String::new(),
                        Count if v < 100 => COUNTS[v % COUNTS.len()].to_string(),
                        Count if opt.1 == "--crl" => (v % 65_600).to_string(),
                        Count => v.to_string(),
                        Number if v < 100 => NUMBERS[v % NUMBERS.len()].to_string(),
                        Number => format!("{}.{:03}", v / 100_000, v % 1000),
                        Place if v < 100 => PLACES[v % PLACES.len()].to_string(),
                        Place => format!("p{v}"),
                    };
                    if opt.2 != Flag {
                        valued += 1;
                        args.push(s.clone());
                    }
                    help |= opt.1 == "--help";
                    version |= opt.1 == "--version";
                    if apply(&mut want, opt.1, &s).is_none() {
                        flawed = true;
                        tags.push("value out of range".into());
                    }
                }
                1 => {
                    args.push(UNKNOWN[at(1) as usize % UNKNOWN.len()].to_string());
                    flawed = true;
                    tags.push("unknown option".into());
                }
                _ => {
                    let (opt, name) = name_of(at(1), at(3));
                    let j = at(2) as usize;
                    let s = if opt.2 == Count && j >= BAD.len() {
                        BAD_COUNT[j % BAD_COUNT.len()]
                    } else {
                        BAD[j % BAD.len()]
                    };
                    if opt.2 != Count && opt.2 != Number {
                        continue;
                    }
                    args.push(name);
                    args.push(s.to_string());
                    flawed = true;
                    tags.push("unreadable value".into());
                }
            }
        }
        let file = match c.get("missing") {
            0 => FILES[c.get("file").max(0) as usize % FILES.len()],
            m => MISSING[(m.max(1) - 1) as usize % MISSING.len()],
        };
        args.push(file.to_string());
        want.cnf_file = PathBuf::from(file);
        if c.has("cut") {
            let (opt, name) = name_of(c.get("cut"), c.get("long"));
            if opt.2 != Flag {
                args.push(name);
                flawed = true;
                tags.push("value missing".into());
            }
        }
        let mut cmd = Command::new(std::env::current_exe().expect("exe"));
        cmd.args(&args)
            .current_dir(scratch())
            .env("SPLRCHECK_ARGS", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        let mut child = cmd.spawn().expect("spawn");
        let mut out = String::new();
        child.stdout.take().unwrap().read_to_string(&mut out).expect("read");
        let code = child.wait().expect("wait").code();
        let got = out.split_once(&format!("{MARK}\n")).map(|x| x.1.trim_end().to_string());
        if flawed {
            ensure!(
                got.is_none(),
                "the command line {args:?} is accepted with the settings {:?}",
                differences(&got.unwrap_or_default(), &dump(&Config::default()))
            );
            tags.push("refused".into());
            return finish(args.len() > 2, tags);
        }
        if help {
            ensure!(got.is_none() && code == Some(0), "{args:?} prints no help but goes on, code {code:?}");
            for (short, long, kind) in OPTS {
                if HIDDEN.contains(&long) {
                    continue;
                }
                let line = out
                    .lines()
                    .find(|l| l.split_whitespace().take(2).any(|w| w == long));
                let Some(line) = line else {
                    return Outcome::Fail(format!("the help text doesn't list {long}"));
                };
                ensure!(
                    short.is_empty() || line.trim_start().starts_with(&format!("{short}, ")),
                    "the help text lists {long} without {short}: {line}"
                );
                if let (true, Some(d)) = (kind != Flag, default_of(&Config::default(), long)) {
                    ensure!(
                        line.split_whitespace().last() == Some(d.as_str()),
                        "the help text's line {line:?} does not end with the default {d}"
                    );
                }
            }
            return finish(true, vec!["help".into()]);
        }
        if version {
            ensure!(
                got.is_none() && code == Some(0) && out.trim() == splr::VERSION,
                "{args:?} gives {out:?}, code {code:?}"
            );
            return finish(true, vec!["version".into()]);
        }
        if c.get("missing") != 0 {
            ensure!(
                got.is_none() && out.contains(file),
                "the file of {args:?} is not there, and the answer is {out:?}"
            );
            return finish(!c.ops.is_empty(), vec!["file missing".into()]);
        }
        let Some(got) = got else {
            return Outcome::Fail(format!("the command line {args:?} is refused: {out:?}, code {code:?}"));
        };
        let d = differences(&got, &dump(&want));
        ensure!(d.is_empty(), "{args:?} gives {d:?} (got, wanted)");
        // a configuration made from a path
        let mut p = Config::default();
        p.cnf_file = PathBuf::from(file);
        let d = differences(&dump(&Config::from(file)), &dump(&p));
        ensure!(d.is_empty(), "Config::from({file:?}) has {d:?} (got, wanted)");
        let mut seen: Vec<i64> = c.ops.iter().filter(|o| o[0] == 0).map(|o| o[1]).collect();
        let n = seen.len();
        seen.sort_unstable();
        seen.dedup();
        if seen.len() < n {
            tags.push("repeated option".into());
        }
        tags.push(format!("{} options", n.min(6)));
        finish(valued >= 2, tags)
    }
}

fn differences(got: &str, want: &str) -> Vec<(String, String)> {
    let (g, w): (Vec<_>, Vec<_>) = (got.lines().collect(), want.lines().collect());
    (0..g.len().max(w.len()))
        .filter(|i| g.get(*i) != w.get(*i))
        .map(|i| {
            let f = |x: &Vec<&str>| x.get(i).map_or("-", |s| *s).to_string();
            (f(&g), f(&w))
        })
        .collect()
}
