//! C28: published statistics.
use crate::{
    case::Case,
    engine::{Outcome, Prop, Tier},
    ensure, fail,
    lab::{Lab, Watch},
    props::internals::{history, set_lab_config},
    rng::Rng,
    util::*,
};
use splr::{
    Certificate, Config, PropertyDereference, SolveIF, Solver, SolverError,
    assign::{VarManipulateIF, property as ap},
    cdb::{ClauseDBIF, property as cp},
    state::{LogF64Id, LogUsizeId, Stat},
    types::{ClauseIF, FlagClause, FlagIF, FlagVar},
};

pub fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(C28)]
}

/// the published counts against the content of the solver
fn audit(s: &Solver, nv: usize, when: &str, flags: bool) -> Result<(), String> {
    macro_rules! same {
        ($what: expr, $got: expr, $want: expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{when}: {} is {g}, counted {w}", $what));
            }
        };
    }
    let a = |k: ap::Tusize| s.asg.derefer(k);
    let d = |k: cp::Tusize| s.cdb.derefer(k);
    same!("NumVar", a(ap::Tusize::NumVar), nv);
    let at0 = (1..=nv)
        .filter(|v| s.asg.assign(*v).is_some() && s.asg.level(*v) == 0)
        .count();
    let assigned = (1..=nv).filter(|v| s.asg.assign(*v).is_some()).count();
    let elim = (1..=nv)
        .filter(|v| s.asg.var(*v).is(FlagVar::ELIMINATED))
        .count();
    let known_elim = a(ap::Tusize::NumEliminatedVar);
    if flags {
        same!("NumEliminatedVar", known_elim, elim);
    }
    let free = (1..=nv)
        .filter(|v| s.asg.assign(*v).is_none() && !(flags && s.asg.var(*v).is(FlagVar::ELIMINATED)))
        .count();
    same!(
        "NumUnassignedVar",
        a(ap::Tusize::NumUnassignedVar),
        free - if flags { 0 } else { known_elim }
    );
    same!(
        "NumUnassertedVar + NumAssertedVar + NumEliminatedVar",
        a(ap::Tusize::NumUnassertedVar) + a(ap::Tusize::NumAssertedVar) + known_elim,
        nv
    );
    if a(ap::Tusize::NumAssertedVar) > at0 {
        return Err(format!(
            "{when}: NumAssertedVar is {}, {at0} of {assigned} variables are assigned for good",
            a(ap::Tusize::NumAssertedVar)
        ));
    }
    let live: Vec<_> = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).collect();
    same!("NumClause", d(cp::Tusize::NumClause), live.len());
    same!(
        "NumBiClause",
        d(cp::Tusize::NumBiClause),
        live.iter().filter(|c| c.len() == 2).count()
    );
    same!(
        "NumLearnt",
        d(cp::Tusize::NumLearnt),
        live.iter().filter(|c| c.is(FlagClause::LEARNT)).count()
    );
    Ok(())
}

/// the record shown to users against the counts it stands for
fn record(s: &Solver) -> Result<(), String> {
    let a = |k: ap::Tusize| s.asg.derefer(k);
    let d = |k: cp::Tusize| s.cdb.derefer(k);
    let r = |k: LogUsizeId| s.state[k];
    for (name, got, want) in [
        ("NumConflict", r(LogUsizeId::NumConflict), a(ap::Tusize::NumConflict)),
        ("NumDecision", r(LogUsizeId::NumDecision), a(ap::Tusize::NumDecision)),
        ("NumPropagate", r(LogUsizeId::NumPropagate), a(ap::Tusize::NumPropagation)),
        ("RemainingVar", r(LogUsizeId::RemainingVar), a(ap::Tusize::NumUnassertedVar)),
        ("AssertedVar", r(LogUsizeId::AssertedVar), a(ap::Tusize::NumAssertedVar)),
        ("EliminatedVar", r(LogUsizeId::EliminatedVar), a(ap::Tusize::NumEliminatedVar)),
        ("RemovableClause", r(LogUsizeId::RemovableClause), d(cp::Tusize::NumLearnt)),
        ("LBD2Clause", r(LogUsizeId::LBD2Clause), d(cp::Tusize::NumLBD2)),
        ("BiClause", r(LogUsizeId::BiClause), d(cp::Tusize::NumBiClause)),
        (
            "PermanentClause",
            r(LogUsizeId::PermanentClause),
            d(cp::Tusize::NumClause) - d(cp::Tusize::NumLearnt),
        ),
        ("VivifiedClause", r(LogUsizeId::VivifiedClause), s.state[Stat::VivifiedClause]),
    ] {
        if got != want {
            return Err(format!("the record says {name} = {got}, the solver {want}"));
        }
    }
    let nv = a(ap::Tusize::NumVar);
    let p = 100.0 * (a(ap::Tusize::NumAssertedVar) + a(ap::Tusize::NumEliminatedVar)) as f64
        / nv as f64;
    if nv > 0 && (s.state[LogF64Id::Progress] - p).abs() > 1e-9 {
        return Err(format!(
            "the record says {}% are decided, the solver {p}%",
            s.state[LogF64Id::Progress]
        ));
    }
    Ok(())
}

const VALI: [LogUsizeId; 20] = [
    LogUsizeId::NumConflict,
    LogUsizeId::NumPropagate,
    LogUsizeId::NumDecision,
    LogUsizeId::RemainingVar,
    LogUsizeId::AssertedVar,
    LogUsizeId::EliminatedVar,
    LogUsizeId::UnreachableCore,
    LogUsizeId::RemovableClause,
    LogUsizeId::LBD2Clause,
    LogUsizeId::BiClause,
    LogUsizeId::PermanentClause,
    LogUsizeId::Restart,
    LogUsizeId::Stage,
    LogUsizeId::StageCycle,
    LogUsizeId::StageSegment,
    LogUsizeId::Simplify,
    LogUsizeId::SubsumedClause,
    LogUsizeId::VivifiedClause,
    LogUsizeId::VivifiedVar,
    LogUsizeId::Vivify,
];
const VALF: [LogF64Id; 9] = [
    LogF64Id::Progress,
    LogF64Id::EmaLBD,
    LogF64Id::TrendLBD,
    LogF64Id::BLevel,
    LogF64Id::CLevel,
    LogF64Id::DecisionPerConflict,
    LogF64Id::ConflictPerRestart,
    LogF64Id::PropagationPerConflict,
    LogF64Id::LiteralBlockEntanglement,
];

pub struct C28;
impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "Three in five: as for C27, half of the cases with a progress report (plain, with journal, with heat map) and a second run without. Non-trivial: the search ran into at least one conflict. The records of two runs are compared only if both took less than 50 ms, because the eliminator stops by the clock. Two in five: a history of decisions, propagations, backtracks and clauses as for C17 (one in 80 with hundreds of levels); each step must move the counters of decisions, conflicts, restarts and propagations by what happened, and the counts of variables are recounted. (Non-trivial: a conflict.)"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(66_000, 1_600_000)
    }
    fn generate(&self, r: &mut Rng, idx: u64, t: Tier) -> Case {
        if idx % 5 < 2 {
            // a history of the assignment stack
            let mut c = Case::new();
            if idx % 200 == 5 {
                history(r, &mut c, &[0, 1, 150, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], 3);
                c.set("drive", 1);
                return c;
            }
            let scale = r.weighted(&[3, 5, 3]);
            history(r, &mut c, &[1, 40, 15, 12, 3, 2, 1, 1, 0, 0, 0, 1, 0, 0, 5], scale);
            set_lab_config(r, &mut c);
            c.set("drive", 1);
            return c;
        }
        let mut c = super::answers::C27.generate(r, idx, t);
        if r.chance(1, 2) {
            c.set("show", r.range(1, 7));
        }
        c
    }
    fn keep(&self) -> &'static [&'static str] {
        &["drive"]
    }
    fn run(&self, c: &Case) -> Outcome {
        if c.get("drive") != 0 {
            let watch = Watch {
                counters: true,
                ..Watch::default()
            };
            let mut lab = Lab::new(c.nv().max(1), &config(c), watch);
            if let Err(e) = lab.run(&c.ops) {
                fail!("{e}");
            }
            return finish(lab.stats.contains_key("conflicts"), vec!["driven".into()]);
        }
        let mut k: Config = config(c);
        if c.get("t0") != 0 {
            k.c_timeout = 0.0;
        }
        let nv = crate::gen_cnf::max_var(&c.cls);
        let show = c.get("show");
        if show != 0 {
            k.quiet_mode = false;
            k.splr_interface = true;
            k.show_journal = show & 2 != 0;
            k.show_cdb_heatmap = show & 4 != 0;
        }
        let mut s = match Solver::try_from((k, c.cls.as_slice())) {
            Ok(s) => s,
            Err(_) => return finish(false, vec!["ended at loading".into()]),
        };
        if let Err(e) = audit(&s, nv, "after loading", true) {
            fail!("{e}");
        }
        let res = s.solve();
        let (name, flags) = match &res {
            Ok(Certificate::SAT(_)) => ("sat", false),
            Ok(Certificate::UNSAT) => ("unsat", true),
            Err(SolverError::OutOfMemory) => ("clause limit", true),
            Err(SolverError::TimeOut) => ("time limit", true),
            Err(e) => fail!("solve() gave {e:?}"),
        };
        let searched = s.state[Stat::Restart] > 0;
        if let Err(e) = audit(&s, nv, &format!("after {name}"), flags) {
            fail!("{e}");
        }
        if searched && let Err(e) = record(&s) {
            fail!("after {name}: {e}");
        }
        // the same run without the progress report
        if show != 0 && searched {
            let mut k = config(c);
            k.c_timeout = s.state.config.c_timeout;
            let mut q = match Solver::try_from((k, c.cls.as_slice())) {
                Ok(s) => s,
                Err(e) => fail!("loading again gave {e:?}"),
            };
            let again = q.solve();
            if s.state.start.elapsed().as_secs_f64() < 0.05
                && again.is_ok() == res.is_ok()
                && conflicts(&q) == conflicts(&s)
            {
                for k in VALI {
                    ensure!(
                        q.state[k] == s.state[k],
                        "the record says {k:?} = {} with a progress report and {} without",
                        s.state[k],
                        q.state[k]
                    );
                }
                for k in VALF {
                    ensure!(
                        (q.state[k] - s.state[k]).abs() <= 1e-9 * s.state[k].abs()
                            || (q.state[k].is_nan() && s.state[k].is_nan()),
                        "the record says {k:?} = {} with a progress report and {} without",
                        s.state[k],
                        q.state[k]
                    );
                }
            }
        }
        let mut tags = vec![name.to_string()];
        if show != 0 {
            tags.push("shown".into());
        }
        finish(searched && conflicts(&s) > 0, tags)
    }
}
