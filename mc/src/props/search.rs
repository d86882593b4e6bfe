//! Search of the infill point (E18): a criterion which cannot be improved locally, whose values at the starting
//! points are answered by the explorer
use super::ego::{Ans, Cfg, Doe, bind, cfg, enums, f1, f2, ints, mixed, with_env};
use crate::cx::*;
use crate::ensure;
use crate::sched::{self, Schedule};
use argmin::core::{Problem, Solver, State};
use egobox_ego::criteria::InfillCriterion;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{EgorSolver, EgorState, InfillObjData, ObjFunc, SurrogateBuilder, XType};
use egobox_moe::{GpMixtureParams, MixtureGpSurrogate};
use ndarray::{Array1, Array2, ArrayView2};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

/// one search: points in the order they are met, with the answers
type Search = Vec<(Vec<f64>, f64)>;
#[derive(Default)]
struct Shared {
    /// points used for scalings
    scaled: HashSet<Vec<u64>>,
    searches: Vec<Search>,
    /// answers to the new points of each search
    plan: Vec<Vec<f64>>,
}
static REG: Mutex<BTreeMap<u64, Arc<Mutex<Shared>>>> = Mutex::new(BTreeMap::new());

fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Table {
    id: u64,
}
impl Table {
    fn sh<T>(&self, f: impl FnOnce(&mut Shared) -> T) -> T {
        let s = REG.lock().unwrap_or_else(|e| e.into_inner()).get(&self.id).cloned().expect("registered");
        let mut g = s.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut g)
    }
}
#[typetag::serde(name = "EgomcTable")]
impl InfillCriterion for Table {
    fn name(&self) -> &'static str {
        "WB2S" // asked for its scaling at the start of every search
    }
    fn value(&self, x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>, _k: Option<f64>) -> f64 {
        self.sh(|s| {
            if s.scaled.contains(&bits(x)) {
                return 1.;
            }
            if s.searches.is_empty() {
                s.searches.push(vec![]);
            }
            let n = s.searches.len() - 1;
            if let Some((_, v)) = s.searches[n].iter().find(|(y, _)| bits(y) == bits(x)) {
                return *v;
            }
            let k = s.searches[n].len();
            let v = s.plan.get(n).and_then(|p| p.get(k)).copied().unwrap_or(0.5);
            s.searches[n].push((x.to_vec(), v));
            v
        })
    }
    fn grad(&self, x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>, _k: Option<f64>) -> Array1<f64> {
        Array1::zeros(x.len())
    }
    fn scaling(&self, x: &ArrayView2<f64>, _m: &dyn MixtureGpSurrogate, _f: f64, _s: Option<f64>) -> f64 {
        self.sh(|s| {
            s.scaled = x.outer_iter().map(|r| bits(&r.to_vec())).collect();
            s.searches.push(vec![]);
        });
        1.
    }
}

fn go(c: &Cfg, plans: &[Vec<Vec<f64>>], id: u64, mid: bool, rec: &mut Rec) -> R {
    if c.discrete() { go_sb::<MixintGpMixtureParams>(c, plans, id, mid, rec) } else { go_sb::<GpMixtureParams<f64>>(c, plans, id, mid, rec) }
}

/// `plans`: for each iteration, for each search, the answers
fn go_sb<SB: SurrogateBuilder + DeserializeOwned>(c: &Cfg, plans: &[Vec<Vec<f64>>], id: u64, mid: bool, rec: &mut Rec) -> R {
    let sh = Arc::new(Mutex::new(Shared::default()));
    REG.lock().unwrap_or_else(|e| e.into_inner()).insert(id, sh.clone());
    struct Unreg(u64);
    impl Drop for Unreg {
        fn drop(&mut self) {
            REG.lock().unwrap_or_else(|e| e.into_inner()).remove(&self.0);
        }
    }
    let _u = Unreg(id);
    let lim = c.limits();
    let obj = {
        let c = c.clone();
        move |x: &ArrayView2<f64>| Array2::from_shape_fn((x.nrows(), 1), |(i, _)| c.smooth(&x.row(i).to_vec(), true)[0])
    };
    let conf = c.config().infill_criterion(Box::new(Table { id }));
    let fcs: Vec<fn(&[f64], Option<&mut [f64]>, &mut InfillObjData<f64>) -> f64> = vec![];
    let mut solver = EgorSolver::<SB, _>::new(conf.check().map_err(|e| e.to_string())?);
    bind(&mut solver, &fcs);
    let mut problem = Problem::new(ObjFunc::new(obj).subject_to(fcs));
    let (mut st, _) = solver.init(&mut problem, EgorState::new()).map_err(|e| e.to_string())?;
    st.update();
    for (it, plan) in plans.iter().enumerate() {
        let old = st.data.clone().ok_or("no data")?.0;
        let xbest = old.row(st.best_index.ok_or("no best")?).to_vec();
        {
            let mut s = sh.lock().unwrap_or_else(|e| e.into_inner());
            s.searches.clear();
            s.scaled.clear();
            s.plan = plan.clone();
        }
        let (s2, _) = solver.next_iter(&mut problem, st).map_err(|e| e.to_string())?;
        st = s2;
        st.update();
        st.increment_iter();
        let searches = std::mem::take(&mut sh.lock().unwrap_or_else(|e| e.into_inner()).searches);
        ensure!(!searches.is_empty(), "iteration {it}: no search");
        let data = st.data.clone().ok_or("no data")?.0;
        let new: Vec<Vec<f64>> = data.outer_iter().skip(old.nrows()).map(|r| r.to_vec()).collect();
        let mut picks: Vec<(Vec<Vec<f64>>, f64)> = vec![];
        for (k, s) in searches.iter().enumerate() {
            let at = format!("iteration {it}, search {k}");
            for (x, _) in s {
                ensure!(x.len() == lim.len() && x.iter().zip(&lim).all(|(v, (a, b))| *v >= *a - 1e-12 && *v <= *b + 1e-12), "{at}: starting point {x:?} out of the bounds {lim:?}");
            }
            // attempts of n starts each until one succeeds; a point already met in a failing attempt is met again unnoticed
            let n = c.n_start;
            let best = |a: &[(Vec<f64>, f64)]| {
                let top = a.iter().map(|p| p.1).filter(|v| v.is_finite()).fold(f64::NEG_INFINITY, f64::max);
                top.is_finite().then(|| (a.iter().filter(|p| p.1 == top).map(|p| p.0.clone()).collect::<Vec<_>>(), top))
            };
            ensure!(s.len() >= n, "{at}: {} starting points instead of {n} ({s:?})", s.len());
            let mut chosen = best(&s[..n]);
            if chosen.is_some() {
                ensure!(s.len() == n, "{at}: {} starting points instead of {n} ({s:?})", s.len());
            } else {
                ensure!(s.len() > n && s.len() <= 3 * n, "{at}: {} starting points in 1 to 3 attempts of {n} ({s:?})", s.len());
                chosen = best(&s[n..]);
                rec.count("searches started again", 1);
            }
            if mid && !c.trego {
                // one of them is in the middle of two known points
                let is = s[..n].iter().any(|(p, _)| (0..old.nrows()).any(|i| (0..i).any(|j| p.iter().enumerate().all(|(d, v)| (v - (old[[i, d]] + old[[j, d]]) / 2.).abs() <= 1e-9 * (1. + v.abs())))));
                ensure!(is, "{at}: no starting point in the middle of two known points {old}: {s:?}");
                rec.count("starts in the middle of known points", 1);
            }
            rec.step(s.len() as u64);
            picks.push(chosen.unwrap_or((vec![xbest.clone()], f64::NAN)));
        }
        rec.state((&c.name, it, format!("{plan:?}")));
        let q = if c.trego && searches.len() == 1 { 1 } else { c.q };
        ensure!(searches.len() % q == 0, "iteration {it}: {} searches for batches of {q}", searches.len());
        if new.is_empty() {
            rec.count("iterations without new point", 1);
            ensure!(c.trego || searches.len() == 3 * q, "iteration {it}: no new point after {} searches", searches.len());
            break;
        }
        let last = &picks[picks.len() - q..];
        if q == 1 {
            ensure!(new.len() == 1 && last[0].0.contains(&new[0]), "iteration {it}: the new point {:?} is not the best start {:?} ({:?})", new[0], last[0].0, searches[searches.len() - 1]);
            let v = st.get_infill_value();
            ensure!((v - last[0].1).abs() <= 1e-12 * (1. + v.abs()), "iteration {it}: value of the criterion {v} instead of {}", last[0].1);
        } else {
            // in order, rejected ones excepted
            let mut k = 0;
            for x in &new {
                while k < q && !last[k].0.contains(x) {
                    k += 1;
                }
                ensure!(k < q, "iteration {it}: the new point {x:?} is not the best start of its search {last:?}");
                k += 1;
            }
// points already known, or chosen twice, are rejected
            let far = |x: &Vec<f64>, y: &[f64]| x.iter().zip(y).any(|(a, b)| (a - b).abs() > 1e-3 * (1. + a.abs()));
            let apart = last.iter().enumerate().all(|(i, a)| a.0.len() == 1 && (0..i).all(|j| far(&a.0[0], &last[j].0[0])) && old.outer_iter().all(|r| far(&a.0[0], &r.to_vec())));
            ensure!(new.len() == q || c.discrete() || !apart || picks.iter().any(|p| p.1.is_nan()), "iteration {it}: {} points of {q}", new.len());
        }
        rec.count("suggested points compared with the best start", new.len() as u64);
    }
    rec.trace();
    Ok(())
}

const A: [f64; 4] = [0.2, 0.9, -3., f64::NAN];

fn cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        for n in [1, 2, 3, 4] {
            let mut c = cfg(&format!("{name}-n{n}"), types.clone());
            c.n_start = n;
            c.doe = Doe::X(5);
            c.max_iters = 10;
            f(&mut c);
            v.push(c);
        }
    };
    add("f1", f1(), &|_| {});
    add("f2", f2(), &|c| c.seed = 7);
    add("f2-lhs", f2(), &|c| c.doe = Doe::Lhs(12));
    add("f3", vec![XType::Float(0., 1.), XType::Float(-1e3, 1e3), XType::Float(5., 5.01)], &|_| {});
    add("mixed", mixed(), &|_| {});
    add("enums", enums(), &|_| {});
    add("ints", ints(), &|c| c.doe = Doe::XY(4));
    add("f2-q2", f2(), &|c| c.q = 2);
    add("mixed-q3", mixed(), &|c| c.q = 3);
    add("f2-trego", f2(), &|c| c.trego = true);
    add("mixed-trego", mixed(), &|c| c.trego = true);
    v
}

pub fn e18(cx: &mut Cx) {
    cx.rule = "every assignment of values (three levels, ties, not a number) to the starting points of a search, every number of failing attempts before, for every number of starts and every iteration and batch position up to the bound, on the real solver with a criterion whose gradient is null: the suggested point is the best start of its search".into();
    cx.assumptions = vec!["the local optimizer (slsqp) stays at a point where the gradient of the criterion is null".into()];
    let th = cx.thorough();
    let phase = |cx: &Cx, tag: &'static str, mid: bool| {
        let mut cases = vec![];
        for (ci, c) in cfgs().into_iter().enumerate() {
            let n = c.n_start;
            let words: Vec<Vec<f64>> = crate::util::odometer(&vec![4; n]).into_iter().map(|w| w.into_iter().map(|k| A[k]).collect()).collect();
            for (wi, w) in words.into_iter().enumerate() {
                let c = c.clone();
                let id = (ci * 1000 + wi) as u64 + if mid { 0 } else { 1_000_000 };
                cases.push(case(format!("{tag}{}/{w:?}", c.name), move |rec: &mut Rec| {
                    let n = c.n_start;
                    let nan = w.iter().all(|v| v.is_nan());
                    // failing attempts, then this answer
                    for fails in 0..if th || wi % 5 == 0 { 3 } else { 1 } {
                        let p = [vec![f64::NAN; fails * n], w.clone()].concat();
                        let d: Vec<f64> = (0..n).map(|k| [0.4, 0.1, 0.8, 0.3][(k + wi) % 4]).collect();
                        // at the first iteration, at the next ones, at each position of the batch
                        let mut all = vec![];
                        for pos in 0..if nan { 1 } else { c.q } {
                            let mut one = vec![d.clone(); c.q];
                            one[pos] = p.clone();
                            all.push(one);
                        }
                        let its = if th { 4 } else { 3 };
                        for one in &all {
                            for it in 0..its {
                                if it > 0 && !th && wi % 3 != it % 3 {
                                    continue;
                                }
                                let mut plans = vec![vec![d.clone(); c.q]; its + c.trego as usize * 2];
                                let m = plans.len() - 1;
                                plans[if c.trego { it.min(m) } else { it }] = one.clone();
                                let (r, _) = sched::with(&Schedule { nthreads: 1, ..Default::default() }, || catch(|| go(&c, &plans, id, mid, rec)));
                                r?.map_err(|e| format!("answers at iteration {it}, {fails} failing attempts: {e}"))?;
                            }
                        }
                    }
                    let _ = Ans::Smooth;
                    Ok(())
                }));
            }
        }
        cx.run(cases);
    };
    phase(cx, "", true);
    with_env("EGOR_DO_NOT_USE_MIDDLEPICKER_MULTISTARTER", || phase(cx, "lhs:", false));
}
