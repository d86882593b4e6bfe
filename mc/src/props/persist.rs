//! Hot start (E05), crash points of checkpoints (E06), files and warm start (E07)
use super::ego::{Ans::*, Cfg, Doe, cfg, enums, f1, f2, mixed};
use super::egorun::*;
use crate::cx::*;
use crate::ensure;
use crate::fsmon::{self, Disk, Model, Op};
use argmin::core::State;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{
    CHECKPOINT_FILE, Checkpoint, CheckpointingFrequency, EgorConfig, EgorSolver, EgorState, HotStartCheckpoint, HotStartMode, InfillStrategy,
    SurrogateBuilder,
};
use egobox_moe::GpMixtureParams;
use ndarray::{Array2, Axis, concatenate};
use ndarray_npy::read_npy;
use serde::de::DeserializeOwned;

/// checkpoint of a directory
fn load(c: &Cfg, dir: &str, mode: HotStartMode) -> Result<Option<EgorState<f64>>, String> {
    fn go<SB: SurrogateBuilder + DeserializeOwned + serde::Serialize>(dir: &str, mode: HotStartMode) -> Result<Option<EgorState<f64>>, String> {
        let h = HotStartCheckpoint::new(dir, CHECKPOINT_FILE, CheckpointingFrequency::Always, mode);
        let r: Option<(EgorSolver<SB>, EgorState<f64>)> = catch(|| h.load())?.map_err(|e| e.to_string())?;
        Ok(r.map(|(_, s)| s))
    }
    if c.discrete() { go::<MixintGpMixtureParams>(dir, mode) } else { go::<GpMixtureParams<f64>>(dir, mode) }
}

/// debug representation without the fields set by the executor only
fn repr(s: &EgorState<f64>) -> String {
    let mut s = s.clone();
    s.time = None;
    s.counts.clear();
    format!("{s:?}")
}
/// the ulp lost by the JSON parser
const ULP: f64 = 4.5e-16;

fn hot(dir: &str) -> impl Fn(EgorConfig) -> EgorConfig + use<> {
    let d = dir.to_string();
    move |c| c.outdir(d.clone()).hot_start(HotStartMode::Enabled)
}
fn ext(dir: &str, n: u64) -> impl Fn(EgorConfig) -> EgorConfig + use<> {
    let d = dir.to_string();
    move |c| c.outdir(d.clone()).hot_start(HotStartMode::ExtendedIters(n))
}
fn put(d: &Disk, from: &str, to: &str) {
    std::fs::create_dir_all(to).unwrap();
    for (k, v) in d {
        std::fs::write(k.replacen(from, to, 1), v).unwrap();
    }
}

struct Scn {
    c: Cfg,
    script: Vec<super::ego::Ans>,
}
impl Scn {
    fn env(&self, offset: usize) -> Env {
        let mut e = Env::new(&self.c, &self.script);
        e.offset = offset;
        e
    }
}
fn rows(s: &EgorState<f64>) -> usize {
    s.data.as_ref().map_or(0, |d| d.0.nrows())
}
fn none(c: EgorConfig) -> EgorConfig {
    c
}

/// final state of a run against the last state of a chain
fn same_end(r: &egobox_ego::OptimResult<f64>, s: &EgorState<f64>, what: &str) -> R {
    let (x, y, z) = s.data.as_ref().unwrap();
    let (rx, ry, rz) = r.state.data.as_ref().ok_or("no data")?;
    ensure!(same_arr(x, rx) && same_arr(y, ry) && same_arr(z, rz), "{what}: history\n{rx}{ry} instead of\n{x}{y}");
    ensure!(r.state.get_iter() == s.get_iter(), "{what}: {} iterations instead of {}", r.state.get_iter(), s.get_iter());
    ensure!(r.state.best_index == s.best_index, "{what}: best {:?} instead of {:?}", r.state.best_index, s.best_index);
    ensure!(r.state.get_termination_status() == s.get_termination_status(), "{what}: {:?} instead of {:?}", r.state.get_termination_status(), s.get_termination_status());
    Ok(())
}

const JSON_ULP: &str = "json-ulp";
const JSON_NONFINITE: &str = "json-nonfinite";

/// the checkpoint of dir against the state it should hold; returns it
fn check_loaded(c: &Cfg, dir: &str, s: &EgorState<f64>, what: &str, rec: &mut Rec) -> Result<Option<EgorState<f64>>, String> {
    let nonfinite = {
        let t = repr(s);
        ["NaN", " inf", "-inf", "[inf"].iter().any(|p| t.contains(p))
    };
    let l = match load(c, dir, HotStartMode::Enabled) {
        Ok(Some(l)) => l,
        Ok(None) => return Err(format!("{what}: no checkpoint")),
        Err(e) if nonfinite && e.contains("null") => {
            rec.kind(JSON_NONFINITE, format!("{what}: the checkpoint cannot be loaded: {e}"));
            return Ok(None);
        }
        Err(e) => return Err(format!("{what}: the checkpoint cannot be loaded: {e}")),
    };
    let n = cmp_debug(&repr(s), &repr(&l), ULP).map_err(|e| format!("{what}: loaded state differs: {e}"))?;
    if n > 0 {
        rec.count("checkpoints off by an ulp", 1);
        rec.kind(JSON_ULP, format!("{what}: {n} numbers of the loaded state differ in the last place from the saved ones"));
    } else {
        rec.count("exact checkpoints", 1);
    }
    Ok(Some(l))
}

/// all interruptions of the run which continues from the given directory and (state) chain
fn interruptions(s: &Scn, disk: &Disk, root: &str, chain0: &[(EgorState<f64>, usize)], reference: &Log, has_ckpt: bool, depth: usize, path: &str, rec: &mut Rec) -> R {
    let off0 = if has_ckpt { rows(&chain0[0].0) } else { base(s) };
    let calls = chain0.last().unwrap().1;
    for e in 0..calls {
        let what = format!("{path}{e}");
        let i = (0..chain0.len()).rev().find(|i| chain0[*i].1 <= e).unwrap_or(0);
        // interrupted in the iteration following state i
        let sc = Scratch::new("hs");
        let dir = sc.path("out");
        put(disk, root, &dir);
        let mut env = s.env(off0);
        env.crash_at = Some(e);
        match run(&env, &hot(&dir)) {
            End::Crashed => {}
            End::Done(_) => return Err(format!("{what}: the run ended before call {e}")),
            End::Error(m) => return Err(format!("{what}: {m}")),
        }
        let n1 = env.log().evals.len();
        if let Some(d) = same_evals(&env.log().evals, &reference.evals[..n1]) {
            return Err(format!("{what}: before the interruption {d}"));
        }
        rec.state((&s.c.name, &s.script, &what));
        rec.step(1);
        let fresh = i == 0 && !has_ckpt;
        if fresh {
            let l = load(&s.c, &dir, HotStartMode::Enabled).map_err(|m| format!("{what}: {m}"))?;
            ensure!(l.is_none(), "{what}: a checkpoint before the end of the first iteration");
            let env = s.env(off0);
            let r = run(&env, &hot(&dir)).done().map_err(|m| format!("{what}: restart: {m}"))?;
            if let Some(d) = same_evals(&env.log().evals, &reference.evals) {
                return Err(format!("{what}: restarted from scratch, {d}"));
            }
            same_end(&r, &chain0.last().unwrap().0, &what)?;
            rec.trace();
            continue;
        }
        let Some(l) = check_loaded(&s.c, &dir, &chain0[i].0, &what, rec)? else { continue };
        // the run which continues from the loaded state in memory
        let exact = cmp_debug(&repr(&chain0[i].0), &repr(&l), ULP) == Ok(0);
        let envc = s.env(rows(&l));
        let ch = chain(&envc, Some(l.clone()), &none)?;
        let want = envc.log();
        let disk2 = fsmon::read_disk(&dir);
        let env = s.env(rows(&l));
        let r = run(&env, &hot(&dir)).done().map_err(|m| format!("{what}: restart: {m}"))?;
        if let Some(d) = same_evals(&env.log().evals, &want.evals) {
            return Err(format!("{what}: restarted after iteration {}, {d}", l.get_iter()));
        }
        ensure!(env.log().batches == want.batches, "{what}: batches {:?} instead of {:?}", env.log().batches, want.batches);
        same_end(&r, &ch.last().unwrap().0, &what)?;
        if exact {
            let tail = &reference.evals[rows(&l) - off0..];
            if let Some(d) = same_evals(&env.log().evals, tail) {
                return Err(format!("{what}: restarted after iteration {}, {d} (uninterrupted run)", l.get_iter()));
            }
        } else {
            // still the same course
            let full = chain0.last().unwrap().0.clone();
            ensure!(r.state.get_iter() == full.get_iter() || r.state.terminated(), "{what}: {} iterations instead of {}", r.state.get_iter(), full.get_iter());
        }
        rec.trace();
        // restarted once more when it is over: nothing is evaluated
        let env = s.env(rows(&r.state));
        let r2 = run(&env, &hot(&dir)).done().map_err(|m| format!("{what}: restart of a completed run: {m}"))?;
        ensure!(env.log().batches.is_empty() || r.state.get_iter() < s.c.max_iters as u64, "{what}: a completed run evaluates {:?} points again", env.log().batches);
        ensure!(rows(&r2.state) == rows(&r.state) + env.log().evals.len(), "{what}: history of {} points", rows(&r2.state));
        if depth > 1 {
            interruptions(s, &disk2, &dir, &ch, &want, true, depth - 1, &format!("{what}+"), rec)?;
        }
    }
    Ok(())
}
/// number of points known before the first evaluation of a run from scratch
fn base(s: &Scn) -> usize {
    if matches!(s.c.doe, Doe::XY(_)) { n_init(&s.c) } else { 0 }
}

fn e05_case(s: &Scn, depth: usize, rec: &mut Rec) -> R {
    // uninterrupted run, in memory and through the public interface
    let env0 = s.env(base(s));
    let ch = chain(&env0, None, &none)?;
    let reference = env0.log();
    let sc = Scratch::new("ref");
    let dir = sc.path("out");
    let env = s.env(env0.offset);
    let r = run(&env, &hot(&dir)).done()?;
    if let Some(d) = same_evals(&env.log().evals, &reference.evals) {
        return Err(format!("complete run: {d}"));
    }
    same_end(&r, &ch.last().unwrap().0, "complete run")?;
    rec.count("iterations of reference runs", r.state.get_iter());
    // extensions of the completed run
    let disk = fsmon::read_disk(&dir);
    let last = ch.last().unwrap().0.clone();
    let full = last.get_iter() == s.c.max_iters as u64;
    for m in 1..=3u64 {
        let sc2 = Scratch::new("ext");
        let d2 = sc2.path("out");
        put(&disk, &dir, &d2);
        let Some(mut l) = check_loaded(&s.c, &d2, &unterminated(&last), "complete run", rec)? else { break };
        l.max_iters += m;
        let envc = s.env(rows(&l));
        let chx = chain(&envc, Some(l.clone()), &none)?;
        let want = envc.log();
        let env = s.env(rows(&l));
        let r = run(&env, &ext(&d2, m)).done().map_err(|e| format!("extended by {m}: {e}"))?;
        if let Some(d) = same_evals(&env.log().evals, &want.evals) {
            return Err(format!("extended by {m}: {d}"));
        }
        same_end(&r, &chx.last().unwrap().0, "extended run")?;
        let status = r.state.get_termination_reason().cloned();
        if full {
            let n = r.state.get_iter() - last.get_iter();
            let early = status != Some(argmin::core::TerminationReason::MaxItersReached);
            ensure!(n == m || early && n < m, "extended by {m}: {n} additional iterations ({status:?})");
        }
        rec.state((&s.c.name, &s.script, "ext", m));
        rec.trace();
    }
    let s0 = Scn { c: s.c.clone(), script: s.script.clone() };
    interruptions_from_scratch(&s0, &ch, &reference, depth, rec)
}
fn interruptions_from_scratch(s: &Scn, ch: &[(EgorState<f64>, usize)], reference: &Log, depth: usize, rec: &mut Rec) -> R {
    interruptions(s, &Disk::new(), "", ch, reference, false, depth, "", rec)
}
/// the saved state of a completed run is not marked as terminated when it ended between iterations
fn unterminated(s: &EgorState<f64>) -> EgorState<f64> {
    let mut s = s.clone();
    use argmin::core::{TerminationReason as T, TerminationStatus as S};
    if matches!(s.termination_status, S::Terminated(T::TargetCostReached | T::MaxItersReached)) {
        s.termination_status = S::NotTerminated;
    }
    s
}

fn cfgs(n: usize) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<egobox_ego::XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.max_iters = n;
        f(&mut c);
        v.push(c);
    };
    add("f1", f1(), &|_| {});
    add("f2-cstr-cobyla-lhs", f2(), &|c| {
        c.n_cstr = 1;
        c.slsqp = false;
        c.doe = Doe::Lhs(0);
    });
    add("mixed-xy-optmod", mixed(), &|c| {
        c.doe = Doe::XY(4);
        c.optmod = 2;
    });
    add("enums-q2", enums(), &|c| {
        c.q = 2;
        c.doe = Doe::X(4);
    });
    add("f2-trego", f2(), &|c| {
        c.trego = true;
        c.max_iters = n + 2;
    });
    add("f2-coego-wb2s", f2(), &|c| {
        c.coego = Some(2);
        c.infill = InfillStrategy::WB2S;
        c.doe = Doe::Lhs(4);
    });
    add("f2-c1-cl2-target", f2(), &|c| {
        c.n_cstr = 1;
        c.clusters = 2;
        c.doe = Doe::Lhs(8);
        c.target = Some(-2.3);
        c.cstr_infill = true;
    });
    {
        add("f2-kpls-ei", f2(), &|c| {
            c.gp = 1;
            c.infill = InfillStrategy::EI;
            c.doe = Doe::X(5);
        });
        add("mixed-coego-trego", mixed(), &|c| {
            c.coego = Some(2);
            c.trego = true;
            c.doe = Doe::Lhs(5);
        });
        add("f1-auto", f1(), &|c| {
            c.gp = 3;
            c.doe = Doe::Lhs(8);
        });
    }
    v
}
const SCRIPTS: [&[super::ego::Ans]; 4] = [&[Smooth], &[Better, Worse], &[BetterInfeasible, Smooth, Tie], &[Worse, Worse, Better]];

pub fn e05(cx: &mut Cx) {
    cx.rule = "every interruption point (call of the user's function) of every run, restarted in hot-start mode from the files left, every second interruption of the restarted run (third in the thorough tier), and extensions by 1 to 3 iterations of completed runs; restarted runs compared bit for bit with the continuation in memory of the state which was saved; the loaded state compared field by field with the state of the uninterrupted run".into();
    cx.assumptions = vec!["the user's function is deterministic given the point and the number of points evaluated before".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    for c in cfgs(if th { 9 } else { 5 }) {
        for (k, sc) in SCRIPTS.iter().enumerate() {
            if !th && k == 3 {
                continue;
            }
            let s = Scn { c: c.clone(), script: sc.to_vec() };
            let depth = if th { 3 } else { 2 };
            cases.push(case(format!("{}/{sc:?}", c.name), move |rec: &mut Rec| e05_case(&s, depth, rec)));
        }
    }
    cx.run(cases);
}

/// crash states of a log of file operations
fn crash_states(before: &Disk, ops: &[Op], torn: &dyn Fn(usize) -> Vec<usize>, visit: &mut dyn FnMut(usize, bool, &Disk) -> R) -> R {
    let mut m = Model::from_disk(before);
    for (p, op) in ops.iter().enumerate() {
        // killed before this operation, or machine stopped: content not synchronized is lost
        let d = m.disk();
        visit(p, true, &d)?;
        for f in m.dirty() {
            for keep in [m.durable(&f), d[&f][..d[&f].len() / 2].to_vec()] {
                let mut e = d.clone();
                e.insert(f.clone(), keep);
                visit(p, false, &e)?;
            }
        }
        if let Op::Write { data, .. } = op {
            for n in torn(data.len()) {
                let mut mt = m.clone();
                mt.apply(op, n)?;
                visit(p, false, &mt.disk())?;
            }
        }
        m.apply(op, usize::MAX)?;
    }
    visit(ops.len(), true, &m.disk())
}

fn e06_case(s: &Scn, th: bool, rec: &mut Rec) -> R {
    let off = if matches!(s.c.doe, Doe::XY(_)) { n_init(&s.c) } else { 0 };
    let env0 = s.env(off);
    let ch = chain(&env0, None, &none)?;
    let sc = Scratch::new("cr");
    let dir = sc.path("out");
    let env = s.env(off);
    let (r, ops) = fsmon::record(&dir, || run(&env, &hot(&dir)));
    r.done()?;
    e06_history(s, &dir, &Disk::new(), &ops, &ch, false, th, if th { 2 } else { 1 }, rec)
}

#[allow(clippy::too_many_arguments)]
fn e06_history(s: &Scn, dir: &str, before: &Disk, ops: &[Op], ch: &[(EgorState<f64>, usize)], has_ckpt: bool, th: bool, gen_left: usize, rec: &mut Rec) -> R {
    rec.count("file operations", ops.len() as u64);
    // the model of the directory is the directory
    let mut m = Model::from_disk(before);
    for o in ops {
        m.apply(o, usize::MAX).map_err(|e| format!("operation not modelled: {e}"))?;
    }
    let real = fsmon::read_disk(dir);
    if m.disk() != real {
        return Err(format!("HARNESS model of the directory {:?} differs from {:?}", m.disk().keys(), real.keys()));
    }
    let writes = ops.iter().filter(|o| matches!(o, Op::Write { .. })).count();
    ensure!(writes > 0, "HARNESS no write seen");
    // call of the user's function in progress at each operation
    let mut call = vec![];
    let mut k = 0;
    for o in ops {
        if let Op::Mark(n) = o {
            k = n + 1;
        }
        call.push(k);
    }
    call.push(k);
    let total = ch.last().unwrap().1;
    let reprs: Vec<String> = ch.iter().map(|(s, _)| repr(&unterminated(s))).collect();
    let sc = Scratch::new("st");
    let mut seen = std::collections::HashSet::new();
    let mut restarts: Vec<(Disk, EgorState<f64>, String)> = vec![];
    let torn = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).step_by(if th { 32 } else { 512 }).collect();
        v.extend([1, n / 2, n.saturating_sub(1)]);
        v.sort();
        v.dedup();
        v.retain(|k| *k > 0 && *k < n);
        v
    };
    let mut stt = 0u64;
    crash_states(before, ops, &torn, &mut |p, kill, d| {
        stt += 1;
        rec.step(1);
        use std::hash::{DefaultHasher, Hash, Hasher};
        let mut h = DefaultHasher::new();
        d.hash(&mut h);
        let hk = h.finish();
        rec.state(hk);
        // iterations completed for sure when the calls up to call[p] were done, and the one in progress
        let done_calls = call[p];
        let i_hi = (0..ch.len()).rev().find(|i| ch[*i].1 <= done_calls).unwrap_or(0);
        let i_lo = if done_calls == total && p == ops.len() { i_hi } else { (0..ch.len()).rev().find(|i| ch[*i].1 < done_calls).unwrap_or(0) };
        let sd = sc.path(&format!("{hk:x}"));
        if !seen.insert((hk, i_lo, i_hi)) {
            return Ok(());
        }
        put(d, dir, &sd);
        let l = load(&s.c, &sd, HotStartMode::Enabled);
        let _ = std::fs::remove_dir_all(&sd);
        let at = format!("crash at operation {p} ({}) of {}", ops.get(p).map_or("end".into(), |o| short(&show(o))), ops.len());
        match l {
            Err(e) => {
                let nf = ch.iter().any(|(s, _)| repr(s).contains("inf") || repr(s).contains("NaN"));
                if nf && e.contains("null") {
                    rec.kind(JSON_NONFINITE, format!("{at}: {e}"));
                    return Ok(());
                }
                Err(format!("{at}: the checkpoint cannot be loaded: {e}"))
            }
            Ok(None) => {
                ensure!(i_lo == 0 && !has_ckpt, "{at}: no checkpoint after iteration {i_lo}");
                Ok(())
            }
            Ok(Some(l)) => {
                let rl = repr(&l);
                let mut why = vec![];
                let first = if has_ckpt { 0 } else { 1 };
                for i in i_lo.max(first)..=i_hi.max(first).min(ch.len() - 1) {
                    match cmp_debug(&reprs[i], &rl, ULP) {
                        Ok(_) => {
                            if kill && restarts.last().is_none_or(|(_, r, _)| repr(r) != rl) || (!kill && restarts.len() < 3) {
                                restarts.push((d.clone(), l, at));
                            }
                            return Ok(());
                        }
                        Err(e) => why.push(format!("state {i}: {e}")),
                    }
                }
                Err(format!("{at}: the loaded state is none of {i_lo}..{i_hi}: {why:?}"))
            }
        }
    })?;
    rec.count("crash states", stt);
    rec.trace();
    // restart from the crash states
    for (n, (d, l, at)) in restarts.iter().enumerate() {
        let envc = s.env(rows(l));
        let chl = chain(&envc, Some(l.clone()), &none)?;
        let rd = Scratch::new("rs");
        let sd = rd.path("out");
        put(d, dir, &sd);
        let env = s.env(rows(l));
        let (r, ops2) = fsmon::record(&sd, || run(&env, &hot(&sd)));
        let r = r.done().map_err(|e| format!("restart after {at}: {e}"))?;
        if let Some(e) = same_evals(&env.log().evals, &envc.log().evals) {
            return Err(format!("restart after {at}: {e}"));
        }
        same_end(&r, &chl.last().unwrap().0, &format!("restart after {at}"))?;
        rec.count("restarts", 1);
        if gen_left > 0 && (th || n == 1) && !ops2.is_empty() {
            let before: Disk = d.iter().map(|(k, v)| (k.replacen(dir, &sd, 1), v.clone())).collect();
            e06_history(s, &sd, &before, &ops2, &chl, true, false, gen_left - 1, rec).map_err(|e| format!("after {at}: {e}"))?;
        }
    }
    Ok(())
}
fn show(o: &Op) -> String {
    match o {
        Op::Write { id, data, .. } => format!("write of {} bytes to {id}", data.len()),
        o => format!("{o:?}"),
    }
}

pub fn e06(cx: &mut Cx) {
    cx.rule = "all file operations of complete hot-start runs are recorded (open, write, sync, rename, truncate, unlink); every prefix of them, every torn write at block granularity and every loss of unsynchronized content is materialized as a directory, loaded with the real loader and compared with the states of the run; restarts from crash states run to completion, and their own file operations are explored again".into();
    cx.assumptions = vec![
        "a killed process leaves the completed operations; a stopped machine may lose any content not synchronized but keeps completed renames".into(),
        "operations are those of libc entry points used by the standard library; the model of the directory is compared with the real one after each run".into(),
    ];
    let th = cx.thorough();
    let mut cases = vec![];
    let mut all = cfgs(if th { 8 } else { 5 });
    // a checkpoint of more than 64 KiB, one of more than 1 MiB
    let mut big = |name: &str, n: usize, nx: usize, it: usize| {
        let mut c = cfg(name, (0..nx).map(|_| egobox_ego::XType::Float(-1.3, 1.7)).collect());
        c.doe = Doe::Lhs(n);
        c.gp = 1;
        c.max_iters = it;
        all.push(c);
    };
    big("big64k", 120, 30, 2);
    for c in all {
        for sc in &SCRIPTS[..if th { 4 } else { 3 }] {
            let s = Scn { c: c.clone(), script: sc.to_vec() };
            cases.push(case(format!("{}/{sc:?}", c.name), move |rec: &mut Rec| e06_case(&s, th, rec)));
        }
    }
    cx.run(cases);
}

/// files of a run against what was evaluated
fn check_files(s: &Scn, dir: &str, all: &[(Vec<f64>, Vec<f64>)], r: &egobox_ego::OptimResult<f64>, n0: usize, what: &str) -> R {
    let c = &s.c;
    let (nx, ny) = (c.nx_relaxed(), 1 + c.n_cstr);
    let rd = |f: &str| -> Result<Array2<f64>, String> { read_npy(format!("{dir}/{f}")).map_err(|e| format!("{what}: {f}: {e}")) };
    let ini = rd("egor_initial_doe.npy")?;
    ensure!(ini.dim() == (n0, nx + ny), "{what}: initial design file of shape {:?} instead of ({n0}, {})", ini.dim(), nx + ny);
    let (x, y, z) = r.state.data.as_ref().ok_or("no data")?;
    let its = r.state.get_iter() > 0;
    let check = |name: &str, a: &Array2<f64>, n: usize| -> R {
        for i in 0..n {
            let row = a.row(i).to_vec();
            ensure!(row[..nx].iter().zip(x.row(i)).all(|(p, q)| p == q || (p.is_nan() && q.is_nan())), "{what}: {name} row {i}: inputs {:?} instead of {}", &row[..nx], x.row(i));
            let (xu, yu) = &all[i];
            ensure!(c.decodes(&row[..nx], xu), "{what}: {name} row {i}: {:?} while {xu:?} was evaluated", &row[..nx]);
            ensure!(row[nx..nx + ny].iter().zip(yu).all(|(p, q)| p == q || (p.is_nan() && q.is_nan())), "{what}: {name} row {i}: outputs {:?} instead of {yu:?}", &row[nx..nx + ny]);
        }
        Ok(())
    };
    check("initial design", &ini, n0)?;
    if its {
        let doe = rd("egor_doe.npy")?;
        ensure!(doe.dim() == (x.nrows(), nx + ny + c.n_fc), "{what}: history file of shape {:?}", doe.dim());
        check("history", &doe, x.nrows())?;
        let want = concatenate![Axis(1), *x, *y, *z];
        ensure!(same_arr(&doe, &want), "{what}: history file differs from the history");
        // best after each iteration
        let hist = rd("egor_history.npy")?;
        ensure!(hist.ncols() == nx + ny, "{what}: best history of shape {:?}", hist.dim());
        let last = hist.row(hist.nrows() - 1);
        let b = r.state.best_index.unwrap();
        ensure!(last.iter().zip(y.row(b).iter().chain(x.row(b))).all(|(p, q)| p == q), "{what}: last best of the history {last} is not row {b}");
    }
    // results in the user's space
    ensure!(r.x_doe.nrows() == all.len() && r.y_doe.nrows() == all.len(), "{what}: result of {} rows, {} evaluated", r.x_doe.nrows(), all.len());
    for (i, (xu, yu)) in all.iter().enumerate() {
        ensure!(r.x_doe.row(i).iter().zip(xu).all(|(p, q)| p == q || (p.is_nan() && q.is_nan())), "{what}: result row {i} is {} while {xu:?} was evaluated", r.x_doe.row(i));
        ensure!(r.y_doe.row(i).iter().zip(yu).all(|(p, q)| p == q || (p.is_nan() && q.is_nan())), "{what}: result row {i} is {} while {yu:?} was returned", r.y_doe.row(i));
    }
    let b = r.state.best_index.unwrap();
    ensure!(r.x_opt.to_vec() == all[b].0 && r.y_opt.to_vec() == all[b].1, "{what}: optimum {} {} is not evaluation {b} {:?}", r.x_opt, r.y_opt, all[b]);
    // configuration
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/egor_config.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(j["max_iters"] == serde_json::json!(c.max_iters) && j["q_points"] == serde_json::json!(c.q) && j["seed"] == serde_json::json!(c.seed) && j["n_cstr"] == serde_json::json!(c.n_cstr), "{what}: configuration file {j}");
    Ok(())
}

/// runs chained by warm starts; runs of `iters` iterations each
fn e07_case(s: &Scn, iters: &[usize], rec: &mut Rec) -> R {
    let sc = Scratch::new("ws");
    let dir = sc.path("out");
    let mut all: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    let mut prev: Option<Array2<f64>> = None;
    for (k, it) in iters.iter().enumerate() {
        let what = format!("run {k}");
        let mut s1 = Scn { c: s.c.clone(), script: s.script.clone() };
        s1.c.max_iters = *it;
        let given = matches!(s.c.doe, Doe::XY(_));
        if k == 0 && given {
            for i in 0..n_init(&s.c) {
                let xu = s.c.decode(&s.c.doe_point(i))?;
                let y = s.c.smooth(&xu, true);
                all.push((xu, y));
            }
        }
        let env = s1.env(all.len());
        let d = dir.clone();
        let r = run(&env, &move |c: EgorConfig| c.outdir(d.clone()).warm_start(true)).done().map_err(|e| format!("{what}: {e}"))?;
        let log = env.log();
        if let Some(b) = &log.fbad {
            return Err(format!("{what}: {b}"));
        }
        let n0 = if k == 0 { n_init(&s.c) } else { all.len() };
        if k == 0 && !given {
            ensure!(log.batches.first() == Some(&n0), "{what}: first call on {:?} points instead of {n0}", log.batches.first());
            ensure!(log.batches.len() <= 1 + it, "{what}: {} calls", log.batches.len());
        } else {
            ensure!(log.batches.len() <= *it, "{what}: {} calls for {it} iterations: known points are evaluated again", log.batches.len());
        }
        all.extend(log.evals.iter().cloned());
        check_files(&s1, &dir, &all, &r, n0, &what)?;
        let (x, ..) = r.state.data.as_ref().unwrap();
        if let Some(p) = &prev {
            ensure!(same_arr(p, &x.slice(ndarray::s![..p.nrows(), ..]).to_owned()), "{what}: history of the previous run changed");
        }
        prev = Some(x.clone());
        rec.state((&s.c.name, &s.script, &iters[..=k]));
        rec.step(log.evals.len() as u64);
    }
    rec.trace();
    Ok(())
}

pub fn e07(cx: &mut Cx) {
    cx.rule = "every sequence of up to 3 runs of 0 to 2 iterations chained by warm starts in the same directory, for every problem shape (constraints, function constraints, mixed variables, batches) and initial design kind; after every run every file is read back and compared bit for bit with the evaluations really done".into();
    let th = cx.thorough();
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<egobox_ego::XType>, f: &dyn Fn(&mut Cfg)| {
        for (dn, doe) in [("lhs", Doe::Lhs(0)), ("lhs4", Doe::Lhs(4)), ("x", Doe::X(3)), ("xy", Doe::XY(4)), ("xy1", Doe::XY(5))] {
            let mut c = cfg(&format!("{name}-{dn}"), types.clone());
            c.doe = doe;
            f(&mut c);
            v.push(c);
        }
    };
    add("f1", f1(), &|_| {});
    add("f2-c1", f2(), &|c| c.n_cstr = 1);
    add("f2-c2-q2", f2(), &|c| {
        c.n_cstr = 2;
        c.q = 2;
    });
    add("mixed", mixed(), &|_| {});
    add("enums-c1-cobyla", enums(), &|c| {
        c.n_cstr = 1;
        c.slsqp = false;
    });
    add("f2-fc1", f2(), &|c| c.n_fc = 1);
    add("f2-c1-fc2", f2(), &|c| {
        c.n_cstr = 1;
        c.n_fc = 2;
    });
    add("mixed-fc1-q2", mixed(), &|c| {
        c.n_fc = 1;
        c.q = 2;
    });
    add("f2-trego", f2(), &|c| c.trego = true);
    add("f2-coego", f2(), &|c| c.coego = Some(2));
    let mut seqs: Vec<Vec<usize>> = vec![];
    let top = if th { 4 } else { 3 };
    for a in 0..top {
        seqs.push(vec![a]);
        for b in 0..top {
            seqs.push(vec![a, b]);
            for d in 0..top {
                if th || a + b + d <= 3 {
                    seqs.push(vec![a, b, d]);
                }
            }
        }
    }
    let mut cases = vec![];
    for c in v {
        for sc in &SCRIPTS[..if th { 4 } else { 3 }] {
            let s = Scn { c: c.clone(), script: sc.to_vec() };
            let seqs = seqs.clone();
            cases.push(case(format!("{}/{sc:?}", c.name), move |rec: &mut Rec| {
                for q in &seqs {
                    if q.len() > 1 || q[0] < 2 {
                        e07_case(&s, q, rec).map_err(|e| format!("{q:?}: {e}"))?;
                    }
                }
                Ok(())
            }));
        }
    }
    cx.run(cases);
}
