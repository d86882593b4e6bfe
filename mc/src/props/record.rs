//! What is recorded of a run (E17): run file, surrogates, best of each iteration
use super::ego::{Ans, Ans::*, Cfg, Doe, cfg, crowded_cfgs, enums, f1, f2, ints, mixed, with_env};
use super::egobase::ref_best;
use super::egorun::*;
use crate::cx::*;
use argmin::core::State;
use crate::ensure;
use egobox_ego::{EgorConfig, EgorFactory, HotStartMode, InfillStrategy, OptimResult, QEiStrategy, RunInfo, XType};
use egobox_moe::MixtureGpSurrogate;
use ndarray::Array2;
use ndarray_npy::read_npy;
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

const RUN: &str = "EGOR_USE_RUN_RECORDER";
const GPS: &str = "EGOR_USE_GP_RECORDER";

/// a run with execution metadata
fn go(env: &Env, info: Option<(&str, usize)>, tweak: &dyn Fn(EgorConfig) -> EgorConfig) -> Result<Option<OptimResult<f64>>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = tweak(env.c.config());
        let b = EgorFactory::optimize(env.objective()).configure(|_| cfg).subject_to(env.fconstraints());
        macro_rules! end {
            ($o:expr) => {{
                let mut o = $o.map_err(|e| e.to_string())?;
                if let Some((f, n)) = info {
                    o = o.run_info(RunInfo { fname: f.into(), num: n });
                }
                o.run().map_err(|e| e.to_string())
            }};
        }
        if env.c.discrete() {
            end!(b.min_within_mixint_space(&env.c.types))
        } else {
            let lim = Array2::from_shape_fn((env.c.types.len(), 2), |(i, j)| match &env.c.types[i] {
                XType::Float(a, b) => [*a, *b][j],
                _ => unreachable!(),
            });
            end!(b.min_within(&lim))
        }
    }));
    match r {
        Ok(r) => r.map(Some),
        Err(p) if p.downcast_ref::<CrashMark>().is_some() => Ok(None),
        Err(p) => Err(catch(|| -> () { resume_unwind(p) }).err().unwrap_or_default()),
    }
}

fn num(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}
/// equal up to the reading of decimal numbers
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4. * f64::EPSILON * a.abs().max(b.abs())
}
fn int(v: &Value, want: usize, what: &str) -> R {
    ensure!(v.as_u64() == Some(want as u64), "{what} is {v} instead of {want}");
    Ok(())
}
fn sample(c: &Cfg, s: &Value, ev: &(Vec<f64>, Vec<f64>), row: &[f64], what: &str) -> R {
    let x: Vec<f64> = s["locations"].as_array().ok_or(format!("{what}: no location"))?.iter().map(num).collect();
    ensure!(x.len() == row.len() && x.iter().zip(row).all(|(a, b)| near(*a, *b)), "{what}: recorded at {x:?} instead of {row:?}");
    // the loaded history of a restarted run may differ in the last place
    let ok = c.decodes(row, &ev.0) || c.decode(row)?.iter().zip(&ev.0).all(|(a, b)| near(*a, *b));
    ensure!(ok, "{what}: {row:?} while {:?} was evaluated", ev.0);
    ensure!(near(num(&s["evaluations"]), ev.1[0]), "{what}: value {} instead of {}", s["evaluations"], ev.1[0]);
    Ok(())
}

/// `all`: evaluations from the first of the run; `batches`: numbers of points of the iterations which evaluated some
fn check_run(c: &Cfg, dir: &str, r: &OptimResult<f64>, all: &[(Vec<f64>, Vec<f64>)], n0: usize, batches: &[usize], iters: usize, info: Option<(&str, usize)>) -> R {
    let t = std::fs::read_to_string(format!("{dir}/egor_run.json")).map_err(|e| format!("run file: {e}"))?;
    let j: Value = serde_json::from_str(&t).map_err(|e| format!("run file: {e}"))?;
    let x = &r.state.data.as_ref().ok_or("no data")?.0;
    let row = |i: usize| x.row(i).to_vec();
    let m = &j["problem_metadata"];
    let lim = c.limits();
    int(&m["dimensionality"], lim.len(), "dimension")?;
    for (k, l) in lim.iter().enumerate() {
        ensure!(num(&m["lower_bounds"][k]) == l.0 && num(&m["upper_bounds"][k]) == l.1, "bounds {} {} instead of {lim:?}", m["lower_bounds"], m["upper_bounds"]);
    }
    let (f, n) = info.unwrap_or(("", 0));
    ensure!(m["test_function"] == f, "function {} instead of {f:?}", m["test_function"]);
    int(&m["replication_number"], n, "replication number")?;
    let a = &j["algorithm_parameters"];
    let name = match c.infill {
        InfillStrategy::EI => "EI",
        InfillStrategy::LogEI => "LogEI",
        InfillStrategy::WB2 => "WB2",
        InfillStrategy::WB2S => "WB2S",
    };
    ensure!(a["acquisition_function"] == name, "criterion {} instead of {name}", a["acquisition_function"]);
    let kernel = ["Squared Exponential", "Squared Exponential", "Matern 5/2", "", "Mixed", "Matern 3/2", "", "", ""][c.gp as usize % 9];
    ensure!(kernel.is_empty() || a["kernel"] == kernel, "kernel {} instead of {kernel}", a["kernel"]);
    int(&a["initial_samples"], n0, "number of initial samples")?;
    int(&a["total_samples"], all.len(), "number of samples")?;
    int(&a["batch_size"], c.q, "batch size")?;
    int(&a["seed"], c.seed as usize, "seed")?;
    int(&a["BO_iterations"], if iters == 0 { c.max_iters } else { iters }, "number of iterations")?;
    let ini = j["initial_samples"]["sampled_locations"].as_array().ok_or("no initial samples")?;
    ensure!(ini.len() == n0, "{} initial samples instead of {n0}", ini.len());
    for (i, s) in ini.iter().enumerate() {
        int(&s["iterations"], i + 1, "rank of an initial sample")?;
        sample(c, s, &all[i], &row(i), &format!("initial sample {i}"))?;
    }
    let its = j["search_iterations"].as_array().ok_or("no iterations")?;
    ensure!(its.len() == iters, "{} iterations recorded instead of {iters}", its.len());
    let mut at = n0;
    let mut k = 0;
    for (i, it) in its.iter().enumerate() {
        int(&it["iterations"], i + 1, "rank of an iteration")?;
        let s = it["sampled_locations"].as_array().ok_or("no samples")?;
        int(&it["batch_size"], s.len(), "size of an iteration")?;
        if s.is_empty() {
            continue;
        }
        ensure!(k < batches.len() && s.len() == batches[k], "iteration {i}: {} samples recorded, iterations which evaluated points: {batches:?}", s.len());
        k += 1;
        for s in s {
            sample(c, s, &all[at], &row(at), &format!("iteration {i}, evaluation {at}"))?;
            at += 1;
        }
    }
    ensure!(at == all.len(), "{at} evaluations recorded instead of {}", all.len());
    Ok(())
}

/// the file of surrogates at the last selection
fn check_gps(c: &Cfg, dir: &str, r: &OptimResult<f64>, n0: usize, batches: &[usize], ended: bool, iters: usize, rec: &mut Rec) -> R {
    let (x, y, _) = r.state.data.as_ref().ok_or("no data")?;
    let n = x.nrows();
    for (file, known) in [("egor_initial_gp.bin", Some(n0)), ("egor_gp.bin", if c.trego || ended { None } else { batches.last().map(|b| n - b) })] {
        let path = format!("{dir}/{file}");
        let expected = if file == "egor_gp.bin" { iters >= 2 } else { iters >= 1 };
        let Ok(b) = std::fs::read(&path) else {
            ensure!(!expected || (c.trego && file == "egor_gp.bin"), "no file {file} after {iters} iterations");
            continue;
        };
        ensure!(iters >= if file == "egor_gp.bin" { 2 } else { 1 }, "file {file} after {iters} iterations");
        let (ms, len): (Vec<Box<dyn MixtureGpSurrogate>>, usize) = bincode::serde::decode_from_slice(&b, bincode::config::standard()).map_err(|e| format!("{file}: {e}"))?;
        ensure!(len == b.len(), "{file}: {} bytes, {len} decoded", b.len());
        ensure!(ms.len() == 1 + c.n_cstr, "{file}: {} models for {} outputs", ms.len(), 1 + c.n_cstr);
        for (k, m) in ms.iter().enumerate() {
            let (xt, yt) = m.training_data();
            let t = xt.nrows();
            ensure!(yt.len() == t, "{file}: model {k} of {t} inputs and {} outputs", yt.len());
            let sure = match known {
                Some(p) => {
                    ensure!(t >= p && t < p + c.q, "{file}: model {k} trained on {t} points, {p} were known");
                    p
                }
                None => {
                    ensure!(t >= n0 && t < n + c.q, "{file}: model {k} trained on {t} points of {n}");
                    (t + 1 - c.q).max(n0)
                }
            };
            for i in 0..sure {
                let (a, b) = (xt.row(i).to_vec(), x.row(i).to_vec());
                let same = if c.discrete() { c.decode(&a)? == c.decode(&b)? || c.decodes(&b, &c.decode(&a)?) } else { a == b };
                ensure!(same, "{file}: model {k} trained at {a:?} instead of {b:?}");
                ensure!(yt[i] == y[[i, k]], "{file}: model {k} trained with {} instead of {} at row {i}", yt[i], y[[i, k]]);
            }
            rec.count("recorded surrogates", 1);
        }
    }
    Ok(())
}

/// best of each iteration
fn check_best(c: &Cfg, dir: &str, r: &OptimResult<f64>, n0: usize, batches: &[usize], iters: usize) -> R {
    if iters == 0 {
        return Ok(());
    }
    let h: Array2<f64> = read_npy(format!("{dir}/egor_history.npy")).map_err(|e| format!("history: {e}"))?;
    ensure!(h.nrows() == iters, "{} rows in the history of the best for {iters} iterations", h.nrows());
    let (x, y, z) = r.state.data.as_ref().unwrap();
    let tol = c.tols();
    let rows: Vec<(f64, Vec<f64>)> = (0..x.nrows()).map(|i| (y[[i, 0]], y.row(i).iter().skip(1).chain(z.row(i)).cloned().collect())).collect();
    let mut ends = vec![n0];
    for b in batches {
        ends.push(ends.last().unwrap() + b);
    }
    let best: Vec<Vec<f64>> = ends
        .iter()
        .map(|e| {
            let b = ref_best(&rows[..*e], &tol);
            y.row(b).iter().chain(x.row(b)).cloned().collect()
        })
        .collect();
    // as many iterations as calls: one row for each
    let mut k = 0;
    for i in 0..iters {
        let row = h.row(i).to_vec();
        if iters == batches.len() {
            ensure!(row == best[i + 1], "row {i} of the history of the best is {row:?} instead of {:?}", best[i + 1]);
        } else {
            // some iterations evaluated nothing
            while k < best.len() && row != best[k] {
                k += 1;
            }
            ensure!(k < best.len(), "row {i} of the history of the best {row:?} is the best of no iteration");
        }
    }
    ensure!(h.row(iters - 1).to_vec() == best[best.len() - 1], "last row of the history of the best");
    Ok(())
}

fn judge(c: &Cfg, dir: &str, r: &OptimResult<f64>, all: &[(Vec<f64>, Vec<f64>)], n0: usize, batches: &[usize], info: Option<(&str, usize)>, fresh: bool, rec: &mut Rec) -> R {
    let iters = r.state.get_iter() as usize;
    ensure!(all.len() == r.x_doe.nrows(), "{} evaluations, {} rows", all.len(), r.x_doe.nrows());
    let ended = batches.len() < iters;
    if ended {
        rec.count("runs with iterations which evaluated nothing", 1);
    }
    if std::env::var(RUN).is_ok() {
        check_run(c, dir, r, all, n0, batches, iters, info)?;
        rec.count("recorded runs", 1);
    } else {
        ensure!(!std::path::Path::new(&format!("{dir}/egor_run.json")).exists(), "run recorded without being asked");
    }
    if std::env::var(GPS).is_ok() {
        check_gps(c, dir, r, n0, batches, ended, iters, rec)?;
    }
    if fresh {
        check_best(c, dir, r, n0, batches, iters)?;
    }
    rec.step(all.len() as u64);
    rec.trace();
    Ok(())
}

fn word(c: &Cfg, script: &[Ans], interrupt: bool, rec: &mut Rec) -> R {
    let given = matches!(c.doe, Doe::XY(_));
    let n0 = n_init(c);
    let mut pre: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    if given {
        for i in 0..n0 {
            let xu = c.decode(&c.doe_point(i))?;
            let y = c.smooth(&xu, true);
            pre.push((xu, y));
        }
    }
    let mk = |crash: Option<usize>| {
        let mut e = Env::new(c, script);
        e.offset = pre.len();
        e.crash_at = crash;
        e
    };
    let info = [None, Some(("f", 0)), Some(("branin", 7))][script.len() % 3];
    let sc = Scratch::new("rc");
    let dir = sc.path("out");
    let env = mk(None);
    let d = dir.clone();
    let r = go(&env, info, &move |k| k.outdir(d.clone()))?.ok_or("crashed")?;
    let log = env.log();
    let skip = !given as usize;
    let mut all = pre.clone();
    all.extend(log.evals.iter().cloned());
    judge(c, &dir, &r, &all, n0, &log.batches[skip..], info, true, rec)?;
    rec.state((&c.name, script));
    if !interrupt {
        return Ok(());
    }
    // interrupted at each call, then restarted
    for k in 0..log.batches.len() {
        let sc = Scratch::new("rh");
        let dir = sc.path("out");
        let d = dir.clone();
        let hot = move |k: EgorConfig| k.outdir(d.clone()).hot_start(HotStartMode::Enabled);
        let e1 = mk(Some(k));
        ensure!(go(&e1, info, &hot)?.is_none(), "HARNESS not interrupted at {k}");
        let l1 = e1.log();
        let kept = l1.evals.len();
        // without a checkpoint everything is done again
        let restart = k < skip + 1;
        let mut e2 = mk(None);
        e2.offset = pre.len() + if restart { 0 } else { kept };
        let r2 = go(&e2, info, &hot)?.ok_or("crashed")?;
        let l2 = e2.log();
        let mut all = pre.clone();
        let mut batches: Vec<usize> = vec![];
        if restart {
            all.extend(l2.evals.iter().cloned());
            batches.extend(&l2.batches[skip..]);
        } else {
            all.extend(l1.evals.iter().chain(&l2.evals).cloned());
            batches.extend(l1.batches[skip..].iter().chain(&l2.batches));
        }
        judge(c, &dir, &r2, &all, n0, &batches, info, restart, rec).map_err(|e| format!("interrupted at call {k}: {e}"))?;
        rec.count("interrupted runs", 1);
    }
    Ok(())
}

fn cfgs(it: usize) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.max_iters = it;
        f(&mut c);
        v.push(c);
    };
    add("f1", f1(), &|_| {});
    add("f1-none", f1(), &|c| c.max_iters = 0);
    add("f1-xy-lhs", f1(), &|c| c.doe = Doe::XY(4));
    add("f2-c1-x", f2(), &|c| {
        c.n_cstr = 1;
        c.doe = Doe::X(5);
        c.infill = InfillStrategy::EI;
    });
    add("f2-c2-q2", f2(), &|c| {
        c.n_cstr = 2;
        c.q = 2;
        c.doe = Doe::Lhs(0);
    });
    add("mixed-q3", mixed(), &|c| {
        c.q = 3;
        c.doe = Doe::Lhs(5);
        c.qei = QEiStrategy::ConstantLiarMinimum;
    });
    add("enums-xy-c1", enums(), &|c| {
        c.n_cstr = 1;
        c.doe = Doe::XY(5);
        c.infill = InfillStrategy::WB2S;
    });
    add("ints-lhs", ints(), &|c| c.doe = Doe::Lhs(4));
    add("f2-fc-m52", f2(), &|c| {
        c.n_fc = 1;
        c.gp = 2;
        c.infill = InfillStrategy::LogEI;
        c.doe = Doe::Lhs(0);
    });
    add("f2-m32-q2", f2(), &|c| {
        c.gp = 5;
        c.q = 2;
        c.doe = Doe::Lhs(0);
    });
    add("f2-trego", f2(), &|c| {
        c.trego = true;
        c.max_iters = it + 4;
    });
    add("mixed-trego-xy", mixed(), &|c| {
        c.trego = true;
        c.max_iters = it + 3;
        c.doe = Doe::XY(5);
    });
    add("f2-coego", f2(), &|c| {
        c.coego = Some(2);
        c.doe = Doe::Lhs(0);
    });
    add("f2-target", f2(), &|c| {
        c.target = Some(-1.2);
        c.max_iters = it + 2;
    });
    v.extend(crowded_cfgs(0).into_iter().map(|mut c| {
        c.max_iters = it + 5;
        c
    }));
    v
}

pub fn e17(cx: &mut Cx) {
    cx.rule = "complete runs of every configuration for every word of answers of the user's function up to the bound, with the recorders on and off, and every interruption of them followed by a restart; recorded run (initial samples, iterations, settings, totals), recorded surrogates and history of the best compared with what was really evaluated".into();
    cx.assumptions = vec!["recorders work in the space the optimizer works in (relaxed space for discrete variables)".into(), "numbers of the text format are compared up to their reading (4 ulps)".into()];
    let th = cx.thorough();
    let it = if th { 4 } else { 3 };
    let mut words: Vec<Vec<Ans>> = vec![vec![]];
    let mut last = words.clone();
    for _ in 0..if th { 4 } else { 2 } {
        last = last.iter().flat_map(|w| [Smooth, Better, Worse, BetterInfeasible].map(|a| [w.clone(), vec![a]].concat())).collect();
        words.extend(last.clone());
    }
    let words = &words;
    let phase = |cx: &Cx, tag: &'static str, both: bool| {
        let mut cases = vec![];
        for c in cfgs(it) {
            for w in words.iter().filter(|w| !both || w.len() <= 1) {
                if c.n_cstr == 0 && w.contains(&BetterInfeasible) {
                    continue;
                }
                let c = c.clone();
                // answers of a restarted run depend on the evaluations before
                let inter = c.target.is_none() && tag == "run" && (th || w.len() <= 1);
                cases.push(case(format!("{tag}/{}/{w:?}", c.name), move |rec: &mut Rec| word(&c, w, inter, rec)));
            }
        }
        cx.run(cases);
    };
    phase(cx, "none", true);
    with_env(RUN, || phase(cx, "run", false));
    with_env(GPS, || phase(cx, "gp", false));
    with_env(RUN, || with_env(GPS, || phase(cx, "both", true)));
}
