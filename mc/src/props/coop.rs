//! Cooperative components (E10)
use super::ego::{Ans::{self, *}, Cfg, Doe, bind, cfg, enums, mixed};
use super::egorun::scripted;
use crate::cx::*;
use crate::ensure;
use argmin::core::{Problem, Solver, State};
use egobox_ego::criteria::InfillCriterion;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{EgorSolver, EgorState, InfillObjData, ObjFunc, QEiStrategy, SurrogateBuilder, XType};
use egobox_moe::{GpMixtureParams, MixtureGpSurrogate};
use ndarray::{Array1, Array2, ArrayView2};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Ev {
    /// start of an optimization of the criterion, with the points used to scale it
    Scale(Vec<Vec<f64>>),
    Val(Vec<f64>),
    Grad(Vec<f64>),
    /// call of a function constraint (user space), with or without gradient
    Fc(Vec<f64>),
    Obj(Vec<Vec<f64>>),
}

#[derive(Default)]
struct Shared {
    log: Vec<Ev>,
    /// component which cannot be moved: the criterion is not defined elsewhere
    frozen: Option<(usize, f64)>,
    /// number of the iteration
    phase: usize,
}
static REG: Mutex<BTreeMap<u64, Arc<Mutex<Shared>>>> = Mutex::new(BTreeMap::new());

fn shared(id: u64) -> Option<Arc<Mutex<Shared>>> {
    REG.lock().unwrap_or_else(|e| e.into_inner()).get(&id).cloned()
}
fn push(id: u64, e: Ev) {
    if let Some(s) = shared(id) {
        s.lock().unwrap_or_else(|e| e.into_inner()).log.push(e);
    }
}

/// -sum w_i (u_i - t_i)^2 where u are the coordinates scaled to [0, 1]
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bowl {
    id: u64,
    lo: Vec<f64>,
    up: Vec<f64>,
    t: Vec<Vec<f64>>,
    w: Vec<f64>,
}
impl Bowl {
    /// location of the maximum in the current iteration
    fn top(&self) -> &[f64] {
        let k = shared(self.id).map_or(0, |s| s.lock().unwrap_or_else(|e| e.into_inner()).phase);
        &self.t[k % self.t.len()]
    }
    fn rng(&self, i: usize) -> f64 {
        let r = self.up[i] - self.lo[i];
        if r > 0. { r } else { 1. }
    }
}
#[typetag::serde(name = "EgomcBowl")]
impl InfillCriterion for Bowl {
    fn name(&self) -> &'static str {
        "WB2S" // asked for its scaling at the start of every optimization
    }
    fn value(&self, x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>, _k: Option<f64>) -> f64 {
        push(self.id, Ev::Val(x.to_vec()));
        if let Some((i, v)) = shared(self.id).and_then(|s| s.lock().unwrap_or_else(|e| e.into_inner()).frozen)
            && x[i] != v
        {
            return f64::NAN;
        }
        let t = self.top();
        -(0..x.len()).map(|i| self.w[i] * ((x[i] - self.lo[i]) / self.rng(i) - t[i]).powi(2)).sum::<f64>()
    }
    fn grad(&self, x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>, _k: Option<f64>) -> Array1<f64> {
        push(self.id, Ev::Grad(x.to_vec()));
        let t = self.top();
        (0..x.len()).map(|i| -2. * self.w[i] * ((x[i] - self.lo[i]) / self.rng(i) - t[i]) / self.rng(i)).collect()
    }
    fn scaling(&self, x: &ArrayView2<f64>, _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>) -> f64 {
        push(self.id, Ev::Scale(x.outer_iter().map(|r| r.to_vec()).collect()));
        1.
    }
}

#[derive(Clone)]
struct CoCfg {
    c: Cfg,
    /// the first component cannot be moved
    frozen: bool,
}

/// the groups as declared by the state: a balanced partition of all components
fn partition(a: &Array2<usize>, nx: usize, n_coop: usize) -> Result<Vec<Vec<usize>>, String> {
    let want = n_coop.min(nx);
    ensure!(a.nrows() == want, "{} groups instead of {want}: {a:?}", a.nrows());
    let g: Vec<Vec<usize>> = a.outer_iter().map(|r| r.iter().cloned().filter(|&i| i < nx).collect()).collect();
    let mut all: Vec<usize> = g.concat();
    all.sort_unstable();
    ensure!(all == (0..nx).collect::<Vec<_>>(), "groups are not a partition of the {nx} components: {a:?}");
    let (lo, hi) = (nx / want, nx.div_ceil(want));
    for r in &g {
        ensure!(r.len() >= lo && r.len() <= hi, "unbalanced groups ({nx} components in {want} groups): {a:?}");
    }
    ensure!(a.iter().all(|&i| i <= nx), "out of range marker other than the number of components: {a:?}");
    Ok(g)
}

/// Sequence of the criterion and constraint calls of one optimization against the group by group walk from the best point
fn walk(calls: &[(Vec<f64>, &'static str)], groups: &[Vec<usize>], xbest: &[f64], xk: Option<&[f64]>, rec: &mut Rec) -> R {
    let nx = xbest.len();
    let ng = groups.len();
    ensure!(calls.len() >= ng, "only {} calls of the criterion for {ng} groups", calls.len());
    // values of the groups already optimized: those of the point finally chosen, or of the last call
    let fin: Vec<f64> = xk.map_or_else(|| calls[calls.len() - 1].0.clone(), |v| v.to_vec());
    let owner: Vec<usize> = (0..nx).map(|i| groups.iter().position(|g| g.contains(&i)).unwrap()).collect();
    let fits = |x: &[f64], g: usize| (0..nx).all(|i| owner[i] == g || x[i].to_bits() == (if owner[i] < g { fin[i] } else { xbest[i] }).to_bits() || x[i] == (if owner[i] < g { fin[i] } else { xbest[i] }));
    let mut g = 0;
    let mut n_in = vec![0usize; ng];
    let mut moved = vec![false; ng];
    for (k, (x, what)) in calls.iter().enumerate() {
        ensure!(x.len() == nx, "{what} called with {} components instead of {nx}", x.len());
        while g < ng && !fits(x, g) {
            g += 1;
        }
        ensure!(
            g < ng,
            "call {k} of the {what} at {x:?} is not made of the best point {xbest:?}, groups already optimized of {fin:?} and one free group (groups {groups:?}, {n_in:?} calls so far)"
        );
        n_in[g] += 1;
        moved[g] |= groups[g].iter().any(|&i| x[i] != xbest[i]);
    }
    ensure!(n_in[ng - 1] > 0 || !moved.iter().all(|m| *m), "no call for the last group: {n_in:?}");
    for h in 0..ng {
        ensure!(moved[h], "group {:?} is never moved from the best point ({n_in:?} calls)", groups[h]);
    }
    rec.step(calls.len() as u64);
    Ok(())
}

/// maximum of the criterion for each group in turn under the (single, linear) function constraint fc(0) <= 0
fn reference(b: &Bowl, groups: &[Vec<usize>], xbest: &[f64], lin: Option<(&[f64], f64)>) -> Option<Vec<f64>> {
    let mut u: Vec<f64> = (0..xbest.len()).map(|i| (xbest[i] - b.lo[i]) / b.rng(i)).collect();
    for g in groups {
        let at = |l: f64, i: usize| (b.top()[i] - lin.map_or(0., |(a, _)| l * a[i] / (2. * b.w[i]))).clamp(0., 1.);
        let viol = |l: f64, u: &[f64]| lin.map_or(-1., |(a, c)| c + (0..u.len()).map(|i| a[i] * if g.contains(&i) { at(l, i) } else { u[i] }).sum::<f64>());
        let mut l = 0.;
        if viol(0., &u) > 0. {
            let (mut lo, mut hi) = (0., 1e6);
            if viol(hi, &u) > 1e-9 {
                return None;
            }
            for _ in 0..200 {
                let m = (lo + hi) / 2.;
                if viol(m, &u) > 0. { lo = m } else { hi = m }
            }
            l = hi;
        }
        let v: Vec<f64> = g.iter().map(|&i| at(l, i)).collect();
        for (k, &i) in g.iter().enumerate() {
            u[i] = v[k];
        }
    }
    Some(u)
}

fn explore(k: &CoCfg, script: &[Ans], iters: usize, id: u64, rec: &mut Rec) -> R {
    if k.c.discrete() { explore_sb::<MixintGpMixtureParams>(k, script, iters, id, rec) } else { explore_sb::<GpMixtureParams<f64>>(k, script, iters, id, rec) }
}

fn explore_sb<SB: SurrogateBuilder + DeserializeOwned>(k: &CoCfg, script: &[Ans], iters: usize, id: u64, rec: &mut Rec) -> R {
    let c = &k.c;
    let nx = c.nx_relaxed();
    let lim = c.limits();
    let bowl = Bowl {
        id,
        lo: lim.iter().map(|l| l.0).collect(),
        up: lim.iter().map(|l| l.1).collect(),
        t: (0..7).map(|k| (0..nx).map(|i| [0.21, 0.83, 0.44, 0.67, 0.09, 0.95, 0.52][(i + k + c.seed as usize) % 7]).collect()).collect(),
        w: (0..nx).map(|i| [1., 2., 0.7, 1.4, 1.1][i % 5]).collect(),
    };
    let sh = Arc::new(Mutex::new(Shared::default()));
    REG.lock().unwrap_or_else(|e| e.into_inner()).insert(id, sh.clone());
    struct Unreg(u64);
    impl Drop for Unreg {
        fn drop(&mut self) {
            REG.lock().unwrap_or_else(|e| e.into_inner()).remove(&self.0);
        }
    }
    let _u = Unreg(id);
    let lock = || sh.lock().unwrap_or_else(|e| e.into_inner());

    let n0 = match c.doe {
        Doe::X(n) | Doe::XY(n) | Doe::Lhs(n) => n,
    };
    let obj = {
        let (c, script, log) = (c.clone(), script.to_vec(), sh.clone());
        let done = Arc::new(Mutex::new(0usize));
        move |x: &ArrayView2<f64>| {
            let mut n = done.lock().unwrap_or_else(|e| e.into_inner());
            let mut y = Array2::zeros((x.nrows(), 1 + c.n_cstr));
            for (j, r) in x.outer_iter().enumerate() {
                for (l, a) in scripted(&c, &script, &r.to_vec(), *n + j, n0).iter().enumerate() {
                    y[[j, l]] = *a;
                }
            }
            *n += x.nrows();
            log.lock().unwrap_or_else(|e| e.into_inner()).log.push(Ev::Obj(x.outer_iter().map(|r| r.to_vec()).collect()));
            y
        }
    };
    let fcs: Vec<_> = (0..c.n_fc)
        .map(|i| {
            let (c, log) = (c.clone(), sh.clone());
            move |x: &[f64], g: Option<&mut [f64]>, _d: &mut InfillObjData<f64>| -> f64 {
                log.lock().unwrap_or_else(|e| e.into_inner()).log.push(Ev::Fc(x.to_vec()));
                if let Some(g) = g {
                    g.copy_from_slice(&c.fc_grad(i));
                }
                c.fc(i, x)
            }
        })
        .collect();
    let conf = c.config().infill_criterion(Box::new(bowl.clone()));
    let n_coop = c.coego.unwrap();
    let r = catch(|| -> R {
        let mut solver = EgorSolver::<SB, _>::new(conf.check().map_err(|e| e.to_string())?);
        bind(&mut solver, &fcs);
        let mut problem = Problem::new(ObjFunc::new(obj).subject_to(fcs));
        let (mut st, _) = solver.init(&mut problem, EgorState::new()).map_err(|e| e.to_string())?;
        st.update();
        for it in 0..iters {
            let groups = partition(st.activity.as_ref().ok_or("no groups in the state")?, nx, n_coop).map_err(|m| format!("iteration {it}: {m}"))?;
            rec.state((&c.name, &groups, it));
            let (bi, data) = (st.best_index.unwrap(), st.data.clone().unwrap());
            let xbest = data.0.row(bi).to_vec();
            {
                let mut s = lock();
                s.log.clear();
                s.phase = it;
                s.frozen = k.frozen.then(|| (0, xbest[0]));
            }
            let (s2, _) = solver.next_iter(&mut problem, st).map_err(|e| e.to_string())?;
            st = s2;
            st.update();
            st.increment_iter();
            let log = std::mem::take(&mut lock().log);
            let new: Vec<Vec<f64>> = st.data.as_ref().unwrap().0.outer_iter().skip(data.0.nrows()).map(|r| r.to_vec()).collect();
            // optimizations of this iteration up to the evaluation of the objective
            let mut segs: Vec<(HashSet<Vec<u64>>, Vec<(Vec<f64>, &'static str)>)> = vec![];
            let mut ended = false;
            for e in log {
                match e {
                    Ev::Scale(p) => {
                        ensure!(!ended, "iteration {it}: criterion used again after the evaluation of the new points");
                        segs.push((p.iter().map(|r| r.iter().map(|v| v.to_bits()).collect()).collect(), vec![]));
                    }
                    Ev::Obj(_) => ended = true,
                    Ev::Val(x) | Ev::Grad(x) if !ended => {
                        let s = segs.last_mut().ok_or("criterion used before its scaling")?;
                        if !s.0.contains(&x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()) {
                            s.1.push((x, "criterion"));
                        }
                    }
                    Ev::Fc(x) if !ended && !c.discrete() => {
                        let s = segs.last_mut().ok_or("constraint used before the scaling of the criterion")?;
                        if !s.0.contains(&x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()) {
                            s.1.push((x, "function constraint"));
                        }
                    }
                    _ => {}
                }
            }
            ensure!(!segs.is_empty(), "iteration {it}: no optimization of the criterion");
            let known = new.len() == segs.len();
            for (j, (_, calls)) in segs.iter().enumerate() {
                let xk = known.then(|| &new[j][..]);
                if k.frozen {
                    // every search of the group of the first component fails: its components keep their values
                    if let Some(x) = xk {
                        let g0 = groups.iter().find(|g| g.contains(&0)).unwrap();
                        // (a starting point may keep the value of the first component)
                    let stayed = calls.iter().any(|(y, _)| y[0] == xbest[0] && g0.iter().any(|&i| y[i] != xbest[i]));
                    ensure!(x[0] == xbest[0] && (stayed || g0.iter().all(|&i| x[i] == xbest[i])), "iteration {it}: group {g0:?} has no defined optimum but was moved: {x:?} from {xbest:?}");
                        rec.count("points with a group left in place", 1);
                    }
                }
                walk(calls, &groups, &xbest, xk, rec).map_err(|m| format!("iteration {it}, point {j}: {m}"))?;
                if let (Some(x), false, 0) = (xk, k.frozen, c.n_cstr) {
                    if c.trego || c.discrete() && c.n_fc > 0 {
                        continue;
                    }
                    let a: Vec<f64>;
                    let lin = if c.n_fc == 1 {
                        let g = c.fc_grad(0);
                        a = (0..nx).map(|i| g[i] * bowl.rng(i)).collect();
                        let lo: Vec<f64> = bowl.lo.clone();
                        Some((&a[..], c.fc(0, &lo)))
                    } else {
                        None
                    };
                    if let Some(u) = reference(&bowl, &groups, &xbest, lin) {
                        for i in 0..nx {
                            let d = ((x[i] - bowl.lo[i]) / bowl.rng(i) - u[i]).abs();
                            rec.max(if c.slsqp { "distance to the group optimum (slsqp)" } else { "distance to the group optimum (cobyla)" }, d);
                            ensure!(d < if c.slsqp { 0.05 } else { 0.2 }, "iteration {it}, point {j}: component {i} of the new point {x:?} is {d:.3} (of its range) from the optimum {u:?} of its group ({groups:?}, from {xbest:?})");
                        }
                        rec.count("points compared with the optimum by groups", 1);
                    }
                }
            }
            rec.trace();
            if new.is_empty() {
                // no new point: the run is over (or a local step was rejected)
                rec.count("iterations without new point", 1);
                break;
            }
        }
        partition(st.activity.as_ref().ok_or("no groups in the state")?, nx, n_coop).map(|_| ())
    });
    r?
}

fn floats(n: usize) -> Vec<XType> {
    (0..n).map(|i| [XType::Float(0., 1.), XType::Float(-2., -0.8), XType::Float(3., 3.9)][i % 3].clone()).collect()
}

fn walk_cfgs(th: bool) -> Vec<CoCfg> {
    let mut v = vec![];
    let mut add = |name: String, types: Vec<XType>, n: usize, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(&name, types);
        c.coego = Some(n);
        c.doe = Doe::X(4);
        c.n_start = 3;
        f(&mut c);
        v.push(CoCfg { c, frozen: false });
    };
    for nx in 2..=(if th { 8 } else { 6 }) {
        for n in 1..=nx + 1 {
            for slsqp in [true, false] {
                if !th && nx > 4 && !slsqp && n != 2 {
                    continue;
                }
                for fc in [0, 1] {
                    for seed in 0..(if th { 8 } else { 4 }) {
                        add(format!("f{nx}-g{n}-{}-fc{fc}-s{seed}", if slsqp { "slsqp" } else { "cobyla" }), floats(nx), n, &|c| {
                            c.slsqp = slsqp;
                            c.n_fc = fc;
                            c.seed = seed;
                        });
                    }
                }
            }
        }
    }
    for (q, qei) in [(2, QEiStrategy::KrigingBeliever), (3, QEiStrategy::ConstantLiarMinimum)] {
        add(format!("f4-g2-q{q}"), floats(4), 2, &|c| {
            c.q = q;
            c.qei = qei.clone();
            c.n_fc = q - 2;
        });
    }
    for n in [2, 3] {
        add(format!("f5-g{n}-c1"), floats(5), n, &|c| c.n_cstr = 1);
        add(format!("f5-g{n}-c2-utb-fc"), floats(5), n, &|c| {
            c.n_cstr = 2;
            c.n_fc = 2;
            c.utb = true;
        });
        add(format!("f5-g{n}-cinfill"), floats(5), n, &|c| {
            c.n_cstr = 1;
            c.cstr_infill = true;
        });
        add(format!("f5-g{n}-trego"), floats(5), n, &|c| c.trego = true);
        add(format!("f5-g{n}-trego-fc"), floats(5), n, &|c| {
            c.trego = true;
            c.n_fc = 1;
        });
        add(format!("mixed-g{n}"), mixed(), n, &|_| {});
        add(format!("enums-g{n}"), enums(), n, &|_| {});
        add(format!("enums-g{n}-fc"), enums(), n, &|c| c.n_fc = 1);
    }
    let mut fz: Vec<CoCfg> = vec![];
    for nx in [3, 4, 5] {
        for n in 2..=nx {
            let mut c = cfg(&format!("f{nx}-g{n}-frozen"), floats(nx));
            c.coego = Some(n);
            c.doe = Doe::X(4);
            c.n_start = 3;
            fz.push(CoCfg { c, frozen: true });
        }
    }
    v.extend(fz);
    v
}

pub fn e10(cx: &mut Cx) {
    let th = cx.thorough();
    cx.rule = "groups: every (dimension, number of groups) within the bounds, seeds enumerated until every permutation the shuffle can produce was seen (small dimensions) or to the bound; walks: every configuration x every answer word, every call of the criterion (values and gradients) and of the function constraints replayed against the group by group walk from the best point, new points against the constrained optimum of a separable criterion group after group".into();
    let mut cases = vec![];
    let full = if th { 7 } else { 6 };
    let top = if th { 20 } else { 12 };
    for nx in 1..=top {
        for n in 1..=nx + 2 {
            cases.push(case(format!("groups/{nx}-{n}"), move |rec: &mut Rec| -> R {
                let mut c = cfg("g", floats(nx));
                c.coego = Some(n);
                c.doe = Doe::X(2);
                let fact: usize = (1..=nx).product();
                let cap = if nx <= full { 40 * fact + 100 } else { 300 };
                let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
                let mut parts: BTreeSet<Vec<Vec<usize>>> = BTreeSet::new();
                let draw = |seed: u64| -> Result<Array2<usize>, String> {
                    let mut c = c.clone();
                    c.seed = seed;
                    catch(|| {
                        let mut solver = EgorSolver::<GpMixtureParams<f64>, _>::new(c.config().check().map_err(|e| e.to_string())?);
                        let fcs: Vec<fn(&[f64], Option<&mut [f64]>, &mut InfillObjData<f64>) -> f64> = vec![];
                        bind(&mut solver, &fcs);
                        let mut problem = Problem::new(ObjFunc::new(|x: &ArrayView2<f64>| Array2::ones((x.nrows(), 1))).subject_to(fcs));
                        let (st, _) = solver.init(&mut problem, EgorState::new()).map_err(|e| e.to_string())?;
                        st.activity.ok_or_else(|| "no groups in the state".into())
                    })?
                };
                for seed in 0..cap as u64 {
                    let a = draw(seed)?;
                    let g = partition(&a, nx, n).map_err(|m| format!("seed {seed}: {m}"))?;
                    if seed < 5 {
                        ensure!(draw(seed)? == a, "seed {seed}: other groups with the same seed");
                    }
                    seen.insert(g.concat());
                    let mut p: Vec<Vec<usize>> = g
                        .into_iter()
                        .map(|mut r| {
                            r.sort_unstable();
                            r
                        })
                        .collect();
                    p.sort();
                    parts.insert(p);
                    rec.step(1);
                    if seen.len() == fact {
                        break;
                    }
                }
                for p in &parts {
                    rec.state((nx, n, p));
                }
                if nx <= full {
                    ensure!(seen.len() == fact, "only {} of the {fact} orders of components can be drawn", seen.len());
                    rec.count("dimensions and counts with every permutation seen", 1);
                } else {
                    // a group structure which never changes is not drawn at random
                    let want = n.min(nx);
                    ensure!(want == 1 || want == nx || parts.len() > 1, "the groups do not depend on the seed");
                }
                rec.trace();
                Ok(())
            }));
        }
    }
    let words: Vec<Vec<Ans>> = if th {
        crate::util::odometer(&[3, 3, 3]).iter().map(|w| w.iter().map(|k| [Better, Worse, Smooth][*k]).collect()).collect()
    } else {
        crate::util::odometer(&[3, 3]).iter().map(|w| w.iter().map(|k| [Better, Worse, Smooth][*k]).collect()).collect()
    };
    for (ci, k) in walk_cfgs(th).into_iter().enumerate() {
        for (wi, w) in words.iter().enumerate() {
            let (k, w) = (k.clone(), w.clone());
            let id = (ci * 1000 + wi) as u64;
            cases.push(case(format!("walk/{}/{}", k.c.name, w.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join("-")), move |rec: &mut Rec| explore(&k, &w, if th { 5 } else { 4 }, id, rec)));
        }
    }
    cx.run(cases);
}
