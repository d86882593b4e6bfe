//! E16: the surrogates of a run are trained as configured, on exactly the data of the run. The surrogate builder
//! of the solver is replaced by a spy which records each training, does it with the real builder, and repeats it with
//! a plain mixture given the recorded settings.
use super::ego::{self, Ans, Ans::*, Cfg, Doe, Node, Run, cfg, enums, f1, f2, mixed};
use super::egobase::ref_cast_row;
use crate::cx::*;
use crate::ensure;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{InfillStrategy, QEiStrategy, SurrogateBuilder, XType};
use egobox_gp::ThetaTuning;
use egobox_moe::{Clustered, Clustering, CorrelationSpec, GpMixture, GpMixtureParams, GpSurrogate, MixtureGpSurrogate, NbClusters, Recombination, RegressionSpec};
use linfa::ParamGuard;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use rand_xoshiro::Xoshiro256Plus;
use rand_xoshiro::rand_core::SeedableRng;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Default)]
struct Set {
    types: Vec<XType>,
    kpls: Option<Option<usize>>,
    regr: Option<RegressionSpec>,
    corr: Option<CorrelationSpec>,
    ncl: Option<NbClusters>,
    recomb: Option<Recombination<f64>>,
    tunings: Option<Vec<ThetaTuning<f64>>>,
    optim: Option<(usize, usize)>,
    rng: Option<Xoshiro256Plus>,
}
impl Set {
    /// plain mixture with these settings
    fn plain(&self) -> GpMixtureParams<f64> {
        let mut p = GpMixtureParams::<f64>::new();
        if let Some(v) = self.kpls {
            p = p.kpls_dim(v);
        }
        if let Some(v) = self.regr {
            p = p.regression_spec(v);
        }
        if let Some(v) = self.corr {
            p = p.correlation_spec(v);
        }
        if let Some(v) = &self.ncl {
            p = p.n_clusters(v.clone());
        }
        if let Some(v) = self.recomb {
            p = p.recombination(v);
        }
        if let Some(v) = &self.tunings {
            p = p.theta_tunings(v);
        }
        if let Some((s, e)) = self.optim {
            p = p.n_start(s).max_eval(e);
        }
        if let Some(r) = &self.rng {
            p = p.with_rng(r.clone());
        }
        p
    }
    fn cast(&self, x: &ArrayView2<f64>) -> Array2<f64> {
        if self.types.iter().all(|t| matches!(t, XType::Float(..))) {
            return x.to_owned();
        }
        let rows: Vec<f64> = x.outer_iter().flat_map(|r| ref_cast_row(&self.types, &r.to_vec())).collect();
        Array2::from_shape_vec(x.dim(), rows).unwrap()
    }
}

struct Train {
    set: Set,
    xt: Array2<f64>,
    yt: Array1<f64>,
    on: Option<Clustering>,
    thetas: Vec<Vec<f64>>,
    out: Clustering,
    reference: Result<GpMixture, String>,
    /// disagreement with the plain mixture
    bad: Option<String>,
}

thread_local! {
    static LOG: RefCell<Vec<Train>> = const { RefCell::new(vec![]) };
}

#[derive(Clone, Serialize, Deserialize)]
struct Spy<B> {
    inner: B,
    #[serde(skip)]
    set: Set,
}

fn thetas_of(m: &dyn MixtureGpSurrogate) -> Vec<Vec<f64>> {
    m.experts().iter().map(|e| e.theta().to_vec()).collect()
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs()).max(1e-300) || a.is_nan() && b.is_nan()
}

impl<B: SurrogateBuilder> Spy<B> {
    fn record(&self, xt: &ArrayView2<f64>, yt: &ArrayView1<f64>, on: Option<&Clustering>, m: &dyn MixtureGpSurrogate) {
        let xc = self.set.cast(xt);
        let y = yt.to_owned();
        let reference = self
            .set
            .plain()
            .check()
            .and_then(|p| match on {
                None => p.train(&xc, &y),
                Some(c) => p.train_on_clusters(&xc, &y, c),
            })
            .map_err(|e| e.to_string());
        let thetas = thetas_of(m);
        let mut bad = None;
        match &reference {
            Err(e) => bad = Some(format!("training with the same settings fails: {e}")),
            Ok(r) => {
                let t = thetas_of(r);
                if t.len() != thetas.len() || t.iter().flatten().zip(thetas.iter().flatten()).any(|(a, b)| !near(*a, *b, 1e-9)) {
                    bad = Some(format!("hyperparameters {thetas:?} instead of {t:?} for these settings"));
                } else {
                    let (p, v) = (m.predict(xt), m.predict_var(xt));
                    let (q, w) = (GpSurrogate::predict(r, &xc.view()), GpSurrogate::predict_var(r, &xc.view()));
                    if let (Ok(p), Ok(v), Ok(q), Ok(w)) = (p, v, q, w) {
                        let sc = 1e-9 * (1. + y.iter().fold(0f64, |a, b| a.max(b.abs())));
                        if p.iter().zip(&q).any(|(a, b)| (a - b).abs() > sc) || v.iter().zip(&w).any(|(a, b)| (a - b).abs() > sc * sc.max(1.)) {
                            bad = Some(format!("predictions {p} instead of {q} for these settings"));
                        }
                    }
                }
            }
        }
        LOG.with(|l| {
            l.borrow_mut().push(Train {
                set: self.set.clone(),
                xt: xt.to_owned(),
                yt: y,
                on: on.cloned(),
                thetas,
                out: m.to_clustering(),
                reference,
                bad,
            })
        });
    }
}

impl<B: SurrogateBuilder> SurrogateBuilder for Spy<B> {
    fn new_with_xtypes(xtypes: &[XType]) -> Self {
        Spy { inner: B::new_with_xtypes(xtypes), set: Set { types: xtypes.to_vec(), ..Default::default() } }
    }
    fn set_regression_spec(&mut self, v: RegressionSpec) {
        self.inner.set_regression_spec(v);
        self.set.regr = Some(v);
    }
    fn set_correlation_spec(&mut self, v: CorrelationSpec) {
        self.inner.set_correlation_spec(v);
        self.set.corr = Some(v);
    }
    fn set_kpls_dim(&mut self, v: Option<usize>) {
        self.inner.set_kpls_dim(v);
        self.set.kpls = Some(v);
    }
    fn set_n_clusters(&mut self, v: NbClusters) {
        self.inner.set_n_clusters(v.clone());
        self.set.ncl = Some(v);
    }
    fn set_recombination(&mut self, v: Recombination<f64>) {
        self.inner.set_recombination(v);
        self.set.recomb = Some(v);
    }
    fn set_theta_tunings(&mut self, v: &[ThetaTuning<f64>]) {
        self.inner.set_theta_tunings(v);
        self.set.tunings = Some(v.to_vec());
    }
    fn set_rng(&mut self, v: Xoshiro256Plus) {
        self.inner.set_rng(v.clone());
        self.set.rng = Some(v);
    }
    fn set_optim_params(&mut self, n_start: usize, max_eval: usize) {
        self.inner.set_optim_params(n_start, max_eval);
        self.set.optim = Some((n_start, max_eval));
    }
    fn train(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        let m = self.inner.train(xt, yt)?;
        self.record(&xt, &yt, None, m.as_ref());
        Ok(m)
    }
    fn train_on_clusters(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>, c: &Clustering) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        let m = self.inner.train_on_clusters(xt, yt, c)?;
        self.record(&xt, &yt, Some(c), m.as_ref());
        Ok(m)
    }
}

/// what the user asked for
#[derive(Clone)]
struct Want {
    kpls: Option<usize>,
    regr: RegressionSpec,
    corr: CorrelationSpec,
    ncl: NbClusters,
    recomb: Recombination<f64>,
    optim: (usize, usize),
    init: Vec<f64>,
    bounds: Vec<(f64, f64)>,
    h: usize,
}
fn want(c: &Cfg) -> Want {
    let nx = c.nx_relaxed();
    let kpls = ego::gp_kpls(c.gp);
    let h = kpls.unwrap_or(nx);
    let (init, bounds) = ego::gp_tuning(c.gp, h);
    let ex = |v: Vec<f64>| if v.len() == 1 { vec![v[0]; h] } else { v };
    let eb = |v: Vec<(f64, f64)>| if v.len() == 1 { vec![v[0]; h] } else { v };
    let (regr, corr) = ego::gp_specs(c.gp);
    Want {
        kpls,
        regr,
        corr,
        ncl: if c.gp == 3 { NbClusters::auto() } else { NbClusters::fixed(c.clusters) },
        recomb: if c.gp == 3 || c.gp == 6 { Recombination::Hard } else { Recombination::Smooth(Some(1.)) },
        optim: ego::gp_optim(c.gp),
        init: ex(init),
        bounds: eb(bounds),
        h,
    }
}

/// what the solver has to remember of each output
#[derive(Clone, Default)]
struct Mem {
    thetas: Vec<Option<Vec<Vec<f64>>>>,
    clus: Vec<Option<Clustering>>,
}
fn clus_text(c: &Clustering) -> String {
    format!("{:?} {:?} {:?} {:?}", c.recombination(), c.gmx().weights(), c.gmx().means(), c.gmx().covariances())
}

struct Check<'a> {
    c: &'a Cfg,
    w: Want,
}

impl Check<'_> {
    /// one training against the settings
    fn settings(&self, t: &Train, at: &str) -> R {
        let w = &self.w;
        let s = &t.set;
        ensure!(s.kpls.flatten() == w.kpls, "{at}: dimension reduction {:?} instead of {:?}", s.kpls, w.kpls);
        ensure!(s.regr == Some(w.regr), "{at}: trends {:?} instead of {:?}", s.regr, w.regr);
        ensure!(s.corr == Some(w.corr), "{at}: kernels {:?} instead of {:?}", s.corr, w.corr);
        ensure!(s.ncl == Some(w.ncl.clone()), "{at}: clusters {:?} instead of {:?}", s.ncl, w.ncl);
        ensure!(s.recomb == Some(w.recomb), "{at}: recombination {:?} instead of {:?}", s.recomb, w.recomb);
        ensure!(s.optim == Some(w.optim), "{at}: tuning effort {:?} instead of {:?}", s.optim, w.optim);
        ensure!(s.rng == Some(Xoshiro256Plus::seed_from_u64(self.c.seed)), "{at}: generator of the surrogate is not the one of the seed");
        if let Some(b) = &t.bad {
            return Err(format!("{at}: {b}"));
        }
        Ok(())
    }
    /// tuning of one training; returns the tuned components (None: fixed)
    fn tuning(&self, t: &Train, init: &[Vec<f64>], optimize: bool, at: &str) -> Result<Option<Vec<usize>>, String> {
        let w = &self.w;
        let ts = t.set.tunings.as_ref().ok_or(format!("{at}: no tuning set"))?;
        ensure!(ts.len() == init.len() || ts.len() == 1 && init.iter().all(|v| *v == init[0]), "{at}: {} tunings for {} clusters", ts.len(), init.len());
        let mut act0: Option<Option<Vec<usize>>> = None;
        for (k, want) in init.iter().enumerate() {
            let tu = &ts[if ts.len() == 1 { 0 } else { k }];
            let mut got = tu.init().to_vec();
            if got.len() == 1 {
                got = vec![got[0]; w.h];
            }
            ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(*a, *b, 1e-12)), "{at}: hyperparameters start from {got:?} instead of {want:?} (cluster {k})");
            let act: Option<Vec<usize>> = match tu {
                ThetaTuning::Fixed(_) => None,
                ThetaTuning::Full { .. } => Some((0..w.h).collect()),
                ThetaTuning::Partial { active, .. } => {
                    let mut a = active.clone();
                    a.sort();
                    Some(a)
                }
            };
            ensure!(act.is_some() == optimize, "{at}: hyperparameters {} (cluster {k})", if optimize { "reused while they should be optimized" } else { "optimized while they should be reused" });
            if let Some(b) = tu.bounds() {
                let mut b = b.to_vec();
                if b.len() == 1 {
                    b = vec![b[0]; w.h];
                }
                ensure!(b == w.bounds, "{at}: hyperparameters bounded by {b:?} instead of {:?} (cluster {k})", w.bounds);
            }
            if let Some(a) = &act0 {
                ensure!(*a == act, "{at}: clusters tuned differently");
            }
            act0 = Some(act);
        }
        Ok(act0.unwrap())
    }

    /// all the trainings of an iteration
    fn iteration(&self, n0: &Node, n1: &Node, log: &[Train], mem: &mut Mem, rec: &mut Rec) -> R {
        let c = self.c;
        let (x, y, _) = n0.state.data.as_ref().ok_or("no data")?;
        let n = x.nrows();
        let iter = n0.iters as usize;
        let tr = &n1.trace;
        let nk = 1 + c.n_cstr;
        let g = c.coego.map_or(1, |k| k.min(c.nx_relaxed()));
        let local = c.trego && !n1.state.prev_step_ego;
        let stages = if local { 1 } else { c.q };
        let per = nk * g;
        ensure!(!log.is_empty() && log.len() % (per * stages) == 0, "{} trainings for {nk} outputs, {g} groups of components and {stages} points ({tr:?})", log.len());
        let attempts = log.len() / (per * stages);
        ensure!(!local || attempts == 1, "{attempts} attempts in a local step ({tr:?})");
        let (x1, _, _) = n1.state.data.as_ref().ok_or("no data")?;
        let added = x1.nrows() - n;
        for a in 0..attempts {
            // models of the previous stages of the attempt, by output
            let mut models: Vec<Vec<&GpMixture>> = vec![];
            for i in 0..stages {
                let chunk = &log[(a * stages + i) * per..][..per];
                let mut of: Vec<Vec<&Train>> = vec![vec![]; nk];
                for t in chunk {
                    let at = format!("iteration {iter} attempt {a} point {i} ({tr:?})");
                    ensure!(t.xt.nrows() == n + i && t.yt.len() == n + i, "{at}: trained on {} points instead of {n} evaluated and {i} pending", t.xt.nrows());
                    for r in 0..n {
                        ensure!(t.xt.row(r) == x.row(r), "{at}: training input {r} is {} instead of {}", t.xt.row(r), x.row(r));
                    }
                    let k = (0..nk).find(|&k| of[k].len() < g && (0..n).all(|r| t.yt[r].to_bits() == y[[r, k]].to_bits()));
                    let Some(k) = k else {
                        return Err(format!("{at}: trained on outputs {} which are those of no (other) output of {y}", t.yt));
                    };
                    of[k].push(t);
                }
                let mut stage = vec![];
                for (k, ts) in of.iter().enumerate() {
                    let at = format!("iteration {iter} attempt {a} point {i} output {k} ({tr:?})");
                    let auto = self.w.ncl.is_auto();
                    let first = iter == 0 && i == 0;
                    let optimize = local || first || (iter * c.q + i) % c.optmod == 0;
                    let mut union: Vec<usize> = vec![];
                    let mut prev = mem.thetas[k].clone();
                    for (gi, t) in ts.iter().enumerate() {
                        self.settings(t, &at)?;
                        rec.step(1);
                        // pending points
                        for j in 0..i {
                            let xr = t.xt.row(n + j);
                            ensure!(xr == of[0][0].xt.row(n + j), "{at}: pending point {j} differs between outputs");
                            if a + 1 == attempts && added == stages {
                                ensure!(xr == x1.row(n + j), "{at}: pending point {j} is {xr}, then {} was evaluated", x1.row(n + j));
                            }
                            let xc = t.set.cast(&xr.insert_axis(ndarray::Axis(0)));
                            let m = models[j][k];
                            let v = if matches!(c.qei, QEiStrategy::ConstantLiarMinimum) {
                                let b = (0..n).fold(0, |b, r| if y[[r, 0]] < y[[b, 0]] { r } else { b });
                                y[[b, k]]
                            } else {
                                let mean = GpSurrogate::predict(m, &xc.view()).map_err(|e| e.to_string())?[0];
                                let sd = GpSurrogate::predict_var(m, &xc.view()).map_err(|e| e.to_string())?[0].sqrt();
                                match c.qei {
                                    QEiStrategy::KrigingBelieverLowerBound if k == 0 => mean - 3. * sd,
                                    QEiStrategy::KrigingBelieverUpperBound if k == 0 => mean + 3. * sd,
                                    _ => mean,
                                }
                            };
                            let sc = 1e-7 * (1. + y.column(k).iter().fold(0f64, |a, b| a.max(b.abs())));
                            ensure!((t.yt[n + j] - v).abs() <= sc, "{at}: value {} assumed at the pending point {xr} instead of {v}", t.yt[n + j]);
                            rec.count("assumed values compared", 1);
                        }
                        match &t.on {
                            None => ensure!(first || auto, "{at}: clusters recomputed"),
                            Some(cl) => {
                                ensure!(!first, "{at}: surrogate not trained from scratch");
                                let m = mem.clus[k].as_ref().ok_or(format!("{at}: clusters from nowhere"))?;
                                ensure!(clus_text(cl) == clus_text(m), "{at}: trained on other clusters than the previous ones of this output");
                            }
                        }
                        if !(auto && t.on.is_none()) {
                            let nb = t.on.as_ref().map_or(c.clusters, |c| c.gmx().n_clusters());
                            let init = prev.clone().unwrap_or(vec![self.w.init.clone(); nb]);
                            match self.tuning(t, &init, optimize, &at)? {
                                Some(act) if g > 1 => union.extend(act),
                                Some(act) => ensure!(act == (0..self.w.h).collect::<Vec<_>>(), "{at}: components {act:?} only are tuned"),
                                None => {}
                            }
                            if !optimize {
                                ensure!(t.thetas == init, "{at}: hyperparameters {:?} while {init:?} are reused", t.thetas);
                                rec.count("trainings with reused hyperparameters", 1);
                            } else {
                                rec.count("trainings with optimized hyperparameters", 1);
                            }
                        }
                        // each group of components starts from the result of the previous one
                        if g > 1 {
                            let _ = gi;
                            prev = Some(t.thetas.clone());
                        }
                    }
                    if g > 1 && optimize {
                        union.sort();
                        ensure!(union == (0..self.w.h).collect::<Vec<_>>(), "{at}: tuned components {union:?} over all groups");
                    }
                    let last = ts.last().unwrap();
                    if !local {
                        mem.thetas[k] = Some(last.thetas.clone());
                        mem.clus[k] = Some(last.out.clone());
                    }
                    stage.push(last.reference.as_ref().map_err(|e| e.clone())?);
                }
                models.push(stage);
            }
        }
        Ok(())
    }
}

fn walk<B: SurrogateBuilder + for<'de> Deserialize<'de>>(c: &Cfg, prefix: &[Ans], rec: &mut Rec) -> R {
    let run = Run::<Spy<B>>::new(c, "E16");
    let ck = Check { c, w: want(c) };
    let step = |n: &Node, mem: &Mem, a: Ans, rec: &mut Rec| -> Result<(Node, Mem), String> {
        LOG.with(|l| l.borrow_mut().clear());
        let mut n1 = run.step(n, a, rec)?;
        run.sync(&mut n1);
        let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let mut m = mem.clone();
        ck.iteration(n, &n1, &log, &mut m, rec)?;
        rec.count("trainings", log.len() as u64);
        Ok((n1, m))
    };
    let mut n = run.start(rec)?;
    let mut mem = Mem { thetas: vec![None; 1 + c.n_cstr], clus: vec![None; 1 + c.n_cstr] };
    for a in prefix {
        (n, mem) = step(&n, &mem, *a, rec)?;
        if n.state.terminated() {
            return Ok(());
        }
    }
    fn dfs(n: &Node, mem: &Mem, c: &Cfg, step: &dyn Fn(&Node, &Mem, Ans, &mut Rec) -> Result<(Node, Mem), String>, rec: &mut Rec) -> R {
        if n.trace.len() >= c.depth {
            rec.trace();
            return Ok(());
        }
        for a in &c.answers {
            let (k, m) = step(n, mem, *a, rec)?;
            if k.state.terminated() {
                rec.trace();
            } else {
                dfs(&k, &m, c, step, rec)?;
            }
        }
        Ok(())
    }
    use argmin::core::State;
    dfs(&n, &mem, c, &step, rec)
}

pub fn e16(cx: &mut Cx) {
    cx.rule = "every sequence of environment answers up to the depth, from every configuration; every training of a surrogate during the runs is recorded (settings, data, clusters, tuning) and compared with what the configuration and the history say, repeated with a plain mixture given the same settings, and the values assumed for pending points recomputed from it".into();
    let th = cx.thorough();
    let mut v: Vec<Cfg> = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.depth = if th { 7 } else { 3 };
        c.doe = Doe::X(5);
        c.answers = vec![Smooth, Better, Worse];
        f(&mut c);
        v.push(c);
    };
    add("f1", f1(), &|_| {});
    add("f2-q3-kb-c2", f2(), &|c| {
        c.q = 3;
        c.n_cstr = 2;
        c.answers = vec![Smooth, BetterInfeasible, Worse];
    });
    add("f2-q3-kblb-c1", f2(), &|c| {
        c.q = 3;
        c.n_cstr = 1;
        c.qei = QEiStrategy::KrigingBelieverLowerBound;
        c.infill = InfillStrategy::EI;
    });
    add("f2-q2-kbub-c1", f2(), &|c| {
        c.q = 2;
        c.n_cstr = 1;
        c.qei = QEiStrategy::KrigingBelieverUpperBound;
        c.infill = InfillStrategy::WB2;
    });
    add("mixed-q3-clmin-c2", mixed(), &|c| {
        c.q = 3;
        c.n_cstr = 2;
        c.qei = QEiStrategy::ConstantLiarMinimum;
        c.answers = vec![Smooth, Worse];
    });
    for m in [2usize, 3] {
        add(&format!("f2-optmod{m}"), f2(), &|c| {
            c.optmod = m;
            c.n_cstr = 1;
            c.depth += 1;
            c.answers = vec![Smooth, Worse];
        });
        add(&format!("f1-q2-optmod{m}"), f1(), &|c| {
            c.optmod = m;
            c.q = 2;
            c.depth += 1;
            c.answers = vec![Smooth, Worse];
        });
    }
    for gp in [1u8, 2, 4, 5, 6, 7, 8] {
        add(&format!("f2-gp{gp}"), f2(), &|c| {
            c.gp = gp;
            c.n_cstr = (gp % 2) as usize;
            c.answers = vec![Smooth, Worse];
        });
        // a linear trend cannot be fitted on indicator columns, which sum to one
        add(&format!("discr-gp{gp}"), if gp == 2 { mixed() } else { enums() }, &|c| {
            c.gp = gp;
            c.doe = Doe::Lhs(7);
            c.answers = vec![Smooth, Worse];
            c.depth = if th { 5 } else { 2 };
        });
    }
    add("f2-clusters2", f2(), &|c| {
        c.clusters = 2;
        c.gp = 6;
        c.doe = Doe::Lhs(16);
        c.answers = vec![Smooth];
    });
    add("f2-auto", f2(), &|c| {
        c.gp = 3;
        c.doe = Doe::Lhs(8);
        c.answers = vec![Smooth];
        c.depth = 4;
    });
    add("f2-coego2", f2(), &|c| {
        c.coego = Some(2);
        c.n_cstr = 1;
        c.q = 2;
    });
    add("f2-coego1", f2(), &|c| c.coego = Some(1));
    add("enums-coego3", enums(), &|c| {
        c.coego = Some(3);
        c.optmod = 2;
        c.depth = if th { 4 } else { 3 };
        c.answers = vec![Smooth, Worse];
    });
    add("f2-trego-c1", f2(), &|c| {
        c.trego = true;
        c.n_cstr = 1;
        c.depth += 3;
        c.answers = vec![Better, Worse];
    });
    add("f1-trego-optmod2", f1(), &|c| {
        c.trego = true;
        c.optmod = 2;
        c.depth += 4;
        c.answers = vec![Better, Worse];
    });
    let mut cases: Vec<Case> = vec![];
    for c in v {
        for w in crate::util::odometer(&vec![c.answers.len(); 1]) {
            let p: Vec<Ans> = w.iter().map(|k| c.answers[*k]).collect();
            let c = c.clone();
            cases.push(case(format!("{}/{:?}", c.name, p[0]), move |rec: &mut Rec| {
                if c.discrete() { walk::<MixintGpMixtureParams>(&c, &p, rec) } else { walk::<GpMixtureParams<f64>>(&c, &p, rec) }
            }));
        }
    }
    cx.run(cases);
}
