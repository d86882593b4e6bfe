//! Reproducibility of complete runs (E04) whatever the schedule and the past of the process
use super::ego::{Ans::*, Cfg, Doe, cfg, enums, f1, f2, ints, mixed};
use super::egorun::*;
use crate::cx::*;
use crate::ensure;
use crate::sched::{self, Schedule};
use egobox_ego::{EgorFactory, InfillStrategy, QEiStrategy};
use ndarray::Array2;

type Script = &'static [super::ego::Ans];
const SCRIPTS: [Script; 3] = [&[Smooth], &[BetterInfeasible, Smooth, Tie], &[Better, Worse]];

#[derive(PartialEq, Clone)]
struct Out {
    log: Log,
    state: String,
    doe: (Array2<f64>, Array2<f64>),
    opt: (Vec<f64>, Vec<f64>),
}
fn out(log: Log, r: &egobox_ego::OptimResult<f64>) -> Out {
    let mut s = r.state.clone();
    s.time = None;
    Out { log, state: format!("{s:?}"), doe: (r.x_doe.clone(), r.y_doe.clone()), opt: (r.x_opt.to_vec(), r.y_opt.to_vec()) }
}
fn diff(a: &Out, b: &Out) -> Option<String> {
    if let Some(d) = same_evals(&a.log.evals, &b.log.evals) {
        return Some(d);
    }
    if a.log.batches != b.log.batches {
        return Some(format!("batches {:?} instead of {:?}", a.log.batches, b.log.batches));
    }
    if !same_arr(&a.doe.0, &b.doe.0) || !same_arr(&a.doe.1, &b.doe.1) {
        return Some(format!("result history {}{} instead of {}{}", a.doe.0, a.doe.1, b.doe.0, b.doe.1));
    }
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    if bits(&a.opt.0) != bits(&b.opt.0) || bits(&a.opt.1) != bits(&b.opt.1) {
        return Some(format!("result {:?} instead of {:?}", a.opt, b.opt));
    }
    if a.state != b.state {
        return cmp_debug(&a.state, &b.state, 0.).err().map(|e| format!("final state: {e}"));
    }
    None
}

fn one(c: &Cfg, script: Script) -> Result<Out, String> {
    let mut env = Env::new(c, script);
    env.offset = if matches!(c.doe, Doe::XY(_)) { n_init(c) } else { 0 };
    let r = run(&env, &|c| c).done()?;
    Ok(out(env.log(), &r))
}

/// the same optimizer object, run several times
fn reused(c: &Cfg, script: Script, times: usize) -> Result<Vec<Out>, String> {
    catch(|| {
        let mut env = Env::new(c, script);
        env.offset = if matches!(c.doe, Doe::XY(_)) { n_init(c) } else { 0 };
        let b = EgorFactory::optimize(env.objective()).configure(|_| c.config()).subject_to(env.fconstraints());
        let mut v = vec![];
        macro_rules! go {
            ($o:expr) => {{
                let o = $o;
                for _ in 0..times {
                    *env.log.lock().unwrap() = Log::default();
                    let r = o.run().map_err(|e| e.to_string())?;
                    v.push(out(env.log(), &r));
                }
            }};
        }
        if c.discrete() {
            go!(b.min_within_mixint_space(&c.types).map_err(|e| e.to_string())?)
        } else {
            let lim = Array2::from_shape_fn((c.types.len(), 2), |(i, j)| match &c.types[i] {
                egobox_ego::XType::Float(a, b) => [*a, *b][j],
                _ => unreachable!(),
            });
            go!(b.min_within(&lim).map_err(|e| e.to_string())?)
        }
        Ok(v)
    })?
}

fn cfgs(n: usize) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<egobox_ego::XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.max_iters = n;
        f(&mut c);
        v.push(c);
    };
    add("f1-lhs", f1(), &|c| c.doe = Doe::Lhs(0));
    add("f2-c1-cobyla-lhs", f2(), &|c| {
        c.n_cstr = 1;
        c.slsqp = false;
        c.doe = Doe::Lhs(0);
        c.n_start = 3;
    });
    add("mixed-optmod-cl", mixed(), &|c| {
        c.doe = Doe::Lhs(0);
        c.optmod = 2;
        c.q = 2;
        c.qei = QEiStrategy::ConstantLiarMinimum;
    });
    add("enums-q3-fc", enums(), &|c| {
        c.q = 3;
        c.n_fc = 1;
        c.doe = Doe::Lhs(0);
    });
    add("ints-ei", ints(), &|c| {
        c.infill = InfillStrategy::EI;
        c.doe = Doe::Lhs(0);
    });
    add("f2-trego", f2(), &|c| {
        c.trego = true;
        c.doe = Doe::Lhs(0);
        c.max_iters = n + 1;
    });
    add("f2-coego-wb2s", f2(), &|c| {
        c.coego = Some(2);
        c.infill = InfillStrategy::WB2S;
        c.doe = Doe::Lhs(0);
    });
    add("f2-cl2-c1", f2(), &|c| {
        c.n_cstr = 1;
        c.clusters = 2;
        c.doe = Doe::Lhs(8);
        c.cstr_infill = true;
    });
    add("f1-auto", f1(), &|c| {
        c.gp = 3;
        c.doe = Doe::Lhs(10);
    });
    add("f2-allcorr", f2(), &|c| {
        c.gp = 4;
        c.max_iters = 1;
        c.doe = Doe::Lhs(5);
    });
    add("f2-utb-c2", f2(), &|c| {
        c.gp = 2;
        c.n_cstr = 2;
        c.utb = true;
        c.doe = Doe::Lhs(0);
    });
    add("mixed-kpls", mixed(), &|c| {
        c.gp = 1;
        c.doe = Doe::Lhs(0);
        c.q = 2;
        c.qei = QEiStrategy::KrigingBelieverLowerBound;
    });
    add("enums-coego-trego", enums(), &|c| {
        c.coego = Some(3);
        c.trego = true;
        c.infill = InfillStrategy::LogEI;
        c.doe = Doe::Lhs(0);
    });
    v
}

/// text of a run of another process
pub fn fingerprint(args: &[String]) -> String {
    let (k, n, sc, nt): (usize, usize, usize, usize) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let c = cfgs(n).swap_remove(k);
    let (r, _) = sched::with(&Schedule { nthreads: nt, ..Default::default() }, || one(&c, SCRIPTS[sc]));
    text(&r)
}
fn text(r: &Result<Out, String>) -> String {
    match r {
        Err(e) => format!("error: {e}"),
        Ok(o) => format!("{:?}\n{:?}\n{:?}\n{:?}\n{}", o.log.evals, o.log.batches, o.doe, o.opt, o.state),
    }
}

const FEAS: &str = "EGOR_USE_MAX_PROBA_OF_FEASIBILITY";
const PORTFOLIO: &str = "EGOR_USE_GP_VAR_PORTFOLIO";

pub fn e04(cx: &mut Cx) {
    cx.rule = "complete runs of each configuration under every schedule of the deviation bound (each parallel split point executed in the other order or by another worker, uniform policies, number of workers), compared bit for bit (evaluations, batches, history, result, whole final state) with the sequential run; the same optimizer object run again; the same run in three other processes (numbers of workers, working directories, environments); every ordered pair of configurations run one after the other in the process".into();
    cx.assumptions = vec![
        "parallel code is what rayon's joins run (a vendored rayon-core makes each join a decision point); tasks of a join are executed atomically, which safe code without locks cannot observe".into(),
    ];
    let th = cx.thorough();
    let all = cfgs(if th { 5 } else { 3 });
    let nthr: &'static [usize] = if th { &[1, 2, 3, 4, 8, 16, 48] } else { &[1, 2, 8, 48] };
    let run_phase = |cx: &Cx, all: Vec<Cfg>, tag: &'static str| {
        let mut cases = vec![];
        for c in all {
            for seed in if th { vec![7u64, 42] } else { vec![42] } {
                for (script, nt) in SCRIPTS.iter().take(if th { 3 } else { 1 + (c.n_cstr > 0) as usize }).flat_map(|s| nthr.iter().map(move |n| (s, *n))) {
                    let mut c = c.clone();
                    c.seed = seed;
                    let script: Script = script;
                    cases.push(case(format!("{tag}{}/s{seed}/{script:?}/{nt}", c.name), move |rec: &mut Rec| {
                        let (r0, _) = sched::with(&Schedule { nthreads: 1, ..Default::default() }, || one(&c, script));
                        let r0 = r0?;
                        rec.count("evaluations of reference runs", r0.log.evals.len() as u64);
                        let j = sched::with(&Schedule { nthreads: nt, ..Default::default() }, || one(&c, script)).1.max(1);
                        let cap = if th { (10_000_000 / j).clamp(2, 20) } else { (4_000_000 / j).clamp(1, 10) };
                        let ss = sched::enumerate(&[nt], &|_| j, 1, cap);
                        for s in &ss {
                            let (r, j) = sched::with(s, || one(&c, script));
                            rec.step(j as u64);
                            rec.trace();
                            rec.max("split points of a run", j as f64);
                            rec.state((&c.name, seed, s.nthreads, format!("{:?}{:?}", s.all, s.devs)));
                            if let Some(d) = diff(&r?, &r0) {
                                return Err(format!("under schedule {s:?}: {d}"));
                            }
                        }
                        for (k, o) in reused(&c, script, 3)?.iter().enumerate() {
                            rec.trace();
                            if let Some(d) = diff(o, &r0) {
                                return Err(format!("run {k} of the same optimizer: {d}"));
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
        cx.run(cases);
    };
    run_phase(cx, all.clone(), "");
    super::ego::with_env(PORTFOLIO, || run_phase(cx, all.iter().filter(|c| c.q > 1 || c.optmod > 0).cloned().collect(), "portfolio:"));
    super::ego::with_env(FEAS, || run_phase(cx, all.iter().filter(|c| c.n_cstr > 0).cloned().collect(), "feasibility:"));
    // the same run in other processes
    let mut cases = vec![];
    let nit = if th { 5 } else { 3 };
    for (k, c) in all.iter().cloned().enumerate() {
        for sc in 0..if th { 3 } else { 1 + (c.n_cstr > 0) as usize } {
            let c = c.clone();
            cases.push(case(format!("process/{}/{sc}", c.name), move |rec: &mut Rec| {
                let (r0, _) = sched::with(&Schedule { nthreads: 1, ..Default::default() }, || one(&c, SCRIPTS[sc]));
                r0.as_ref().map_err(|e| e.clone())?;
                let t0 = text(&r0);
                let sd = crate::util::Scratch::new("pr");
                // files of another run in the working directory
                for f in ["egor_checkpoint.json", "egor_initial_doe.npy", "egor_doe.npy", "egor_config.json", "egor_history.npy"] {
                    std::fs::write(sd.path(f), b"other").map_err(|e| e.to_string())?;
                }
                for (h, (nt, decoy)) in [(1usize, false), (3, true), (16, false)].into_iter().enumerate() {
                    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                    let mut cmd = std::process::Command::new(exe);
                    cmd.arg("--fingerprint").args([k, nit, sc, nt].map(|v| v.to_string()));
                    let tmp = sd.path(&format!("tmp{h}"));
                    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
                    cmd.env("TMPDIR", &tmp).env("HOME", &tmp).env("RAYON_NUM_THREADS", nt.to_string()).env("LANG", ["C", "fr_FR.UTF-8", "C.UTF-8"][h]).env("TZ", ["UTC", "Asia/Tokyo", "America/Lima"][h]);
                    cmd.current_dir(if decoy { sd.path("") } else { tmp });
                    let o = cmd.output().map_err(|e| format!("HARNESS {e}"))?;
                    ensure!(o.status.success(), "HARNESS other process: {} {}", o.status, String::from_utf8_lossy(&o.stderr));
                    let t = String::from_utf8_lossy(&o.stdout).to_string();
                    rec.step(1);
                    rec.trace();
                    rec.count("runs of other processes", 1);
                    rec.state((k, sc, h));
                    if t != t0 {
                        let d = t0.lines().zip(t.lines()).find(|(a, b)| a != b).map(|(a, b)| {
                            let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40);
                            format!("{:?} instead of {:?}", b.chars().skip(i).take(160).collect::<String>(), a.chars().skip(i).take(160).collect::<String>())
                        });
                        return Err(format!("run in another process ({nt} workers): {}", d.unwrap_or("shorter".into())));
                    }
                }
                Ok(())
            }));
        }
    }
    cx.run(cases);
    // other runs before, in the same thread
    let mut cases = vec![];
    let n = all.len();
    for a in 0..n {
        let all = all.clone();
        cases.push(case(format!("after-{}", all[a].name), move |rec: &mut Rec| {
            for b in &all {
                let r0 = one(b, SCRIPTS[0])?;
                one(&all[a], SCRIPTS[1])?;
                let r1 = one(b, SCRIPTS[0])?;
                rec.step(1);
                rec.trace();
                rec.state((a, &b.name));
                if let Some(d) = diff(&r1, &r0) {
                    return Err(format!("{} run after {}: {d}", b.name, all[a].name));
                }
                // another seed gives another run
                if !matches!(b.doe, Doe::X(_) | Doe::XY(_)) {
                    let mut o = b.clone();
                    o.seed += 1;
                    let r2 = one(&o, SCRIPTS[0])?;
                    ensure!(r2.log.evals[0].0 != r0.log.evals[0].0 || b.discrete(), "{}: the seed does not change the initial design", b.name);
                }
            }
            Ok(())
        }));
    }
    cx.run(cases);
}
