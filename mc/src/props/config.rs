//! E15: builders of the parameters of Gaussian processes, mixtures and optimizers as state machines: every word of
//! setter calls up to a length, compared with a reference record; refusals compared with reference guards.
use super::ego::{f2, mixed};
use super::gpcommon::{arr1, arr2};
use crate::cx::*;
use crate::ensure;
use crate::util::{Scratch, odometer};
use egobox_ego::criteria::{EI, LOG_EI, WB2, WB2S};
use egobox_ego::{CoegoStatus, ConstraintStrategy, Cstr, EgorConfig, EgorFactory, EgorServiceFactory, HotStartMode, InfillObjData, InfillOptimizer, InfillStrategy, QEiStrategy, XType};
use egobox_gp::correlation_models::{Matern32Corr, SquaredExponentialCorr};
use egobox_gp::mean_models::ConstantMean;
use egobox_gp::{GP_COBYLA_MIN_EVAL, GpParams, Inducings, ParamTuning, SgpParams, SparseMethod, ThetaTuning};
use egobox_moe::{CorrelationSpec, GpMixtureParams, GpType, NbClusters, Recombination, RegressionSpec};
use linfa::prelude::{Fit, ParamGuard};
use linfa::Dataset;
use ndarray::{Array1, Array2, ArrayView2, Axis, array};
use serde_json::Value;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- reference records

#[derive(Clone, Debug, PartialEq)]
enum Tun {
    Fixed(Vec<f64>),
    Full(Vec<f64>, Vec<(f64, f64)>),
    Partial(Vec<f64>, Vec<(f64, f64)>, Vec<usize>),
}
impl Tun {
    fn init(&self) -> &Vec<f64> {
        match self {
            Tun::Fixed(i) | Tun::Full(i, _) | Tun::Partial(i, ..) => i,
        }
    }
    fn bounds(&self) -> Option<&Vec<(f64, f64)>> {
        match self {
            Tun::Fixed(_) => None,
            Tun::Full(_, b) | Tun::Partial(_, b, _) => Some(b),
        }
    }
    fn real(&self) -> ThetaTuning<f64> {
        let a = |v: &Vec<f64>| Array1::from_vec(v.clone());
        let b = |v: &Vec<(f64, f64)>| Array1::from_vec(v.clone());
        match self {
            Tun::Fixed(i) => ThetaTuning::Fixed(a(i)),
            Tun::Full(i, c) => ThetaTuning::Full { init: a(i), bounds: b(c) },
            Tun::Partial(i, c, k) => ThetaTuning::Partial { init: a(i), bounds: b(c), active: k.clone() },
        }
    }
    fn set_init(&mut self, i: Vec<f64>) {
        *self = match self.clone() {
            Tun::Fixed(_) => Tun::Fixed(i),
            Tun::Full(_, b) | Tun::Partial(_, b, _) => Tun::Full(i, b),
        }
    }
    fn set_bounds(&mut self, b: Vec<(f64, f64)>) {
        *self = match self.clone() {
            Tun::Fixed(i) => Tun::Fixed(i),
            Tun::Full(i, _) | Tun::Partial(i, ..) => Tun::Full(i, b),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Ref {
    tun: Tun,
    kpls: Option<usize>,
    n_start: usize,
    max_eval: usize,
    nugget: f64,
    // sparse
    z: Inducings<f64>,
    noise: ParamTuning<f64>,
    method: SparseMethod,
    seed: Option<u64>,
    // mixture
    sparse: bool,
    ncl: NbClusters,
    rec: Recombination<f64>,
    regr: RegressionSpec,
    corr: CorrelationSpec,
    tuns: Vec<Tun>,
}
const DEF: f64 = 1e-1;
fn reference() -> Ref {
    Ref {
        tun: Tun::Full(vec![DEF], vec![(1e-2, 1e1)]),
        kpls: None,
        n_start: 10,
        max_eval: 1000,
        nugget: 100. * f64::EPSILON,
        z: Inducings::Randomized(10),
        noise: ParamTuning::default(),
        method: SparseMethod::default(),
        seed: None,
        sparse: false,
        ncl: NbClusters::default(),
        rec: Recombination::Smooth(Some(1.)),
        regr: RegressionSpec::CONSTANT,
        corr: CorrelationSpec::SQUAREDEXPONENTIAL,
        tuns: vec![Tun::Full(vec![DEF], vec![(1e-2, 1e1)])],
    }
}

type Gp = GpParams<f64, ConstantMean, SquaredExponentialCorr>;
type Sgp = SgpParams<f64, Matern32Corr>;

struct Letter<P> {
    name: String,
    real: Box<dyn Fn(P) -> P + Send + Sync>,
    model: Box<dyn Fn(&mut Ref) + Send + Sync>,
}
fn letter<P>(name: impl Into<String>, real: impl Fn(P) -> P + Send + Sync + 'static, model: impl Fn(&mut Ref) + Send + Sync + 'static) -> Letter<P> {
    Letter { name: name.into(), real: Box::new(real), model: Box::new(model) }
}

fn tunings() -> Vec<Tun> {
    vec![
        Tun::Fixed(vec![0.4]),
        Tun::Fixed(vec![0.4, 2.]),
        Tun::Full(vec![0.3], vec![(0.05, 4.)]),
        Tun::Full(vec![0.3, 0.6], vec![(0.05, 4.)]),
        Tun::Full(vec![0.3], vec![(0.05, 4.), (0.1, 2.)]),
        Tun::Full(vec![0.3, 0.6, 0.9], vec![(0.05, 4.), (0.1, 2.), (0.2, 1.)]),
        Tun::Partial(vec![0.3, 0.6], vec![(0.05, 4.)], vec![0]),
        Tun::Partial(vec![0.3], vec![(0.05, 4.), (0.1, 2.)], vec![1, 0]),
        Tun::Full(vec![], vec![]),
    ]
}

macro_rules! common_letters {
    ($P:ty) => {{
        let mut v: Vec<Letter<$P>> = vec![];
        for k in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
            v.push(letter(format!("kpls_dim({k:?})"), move |p: $P| p.kpls_dim(k), move |r| r.kpls = k));
        }
        for t in [vec![0.2], vec![0.2, 0.7], vec![0.2, 0.7, 1.5], vec![]] {
            let u = t.clone();
            v.push(letter(format!("theta_init({t:?})"), move |p: $P| p.theta_init(Array1::from_vec(t.clone())), move |r| r.tun.set_init(u.clone())));
        }
        for b in [vec![(0.03, 3.)], vec![(0.03, 3.), (0.02, 2.)]] {
            let u = b.clone();
            v.push(letter(format!("theta_bounds({b:?})"), move |p: $P| p.theta_bounds(Array1::from_vec(b.clone())), move |r| r.tun.set_bounds(u.clone())));
        }
        for t in tunings() {
            let u = t.clone();
            v.push(letter(format!("theta_tuning({t:?})"), move |p: $P| p.theta_tuning(t.real()), move |r| r.tun = u.clone()));
        }
        for n in [0usize, 1, 3] {
            v.push(letter(format!("n_start({n})"), move |p: $P| p.n_start(n), move |r| r.n_start = n));
        }
        for n in [0usize, 24, 25, 40] {
            v.push(letter(format!("max_eval({n})"), move |p: $P| p.max_eval(n), move |r| r.max_eval = n.max(GP_COBYLA_MIN_EVAL)));
        }
        v.push(letter("nugget(1e-6)", move |p: $P| p.nugget(1e-6), move |r| r.nugget = 1e-6));
        v
    }};
}

fn gp_letters() -> Vec<Letter<Gp>> {
    let mut v = common_letters!(Gp);
    v.push(letter("mean", |p: Gp| p.mean(ConstantMean::default()), |_| {}));
    v.push(letter("corr", |p: Gp| p.corr(SquaredExponentialCorr::default()), |_| {}));
    v.push(letter("from valid", |p: Gp| p.check_ref().map(|q| GpParams::from(q.clone())).unwrap_or(p.clone()), |_| {}));
    v
}
fn sgp_letters() -> Vec<Letter<Sgp>> {
    let mut v = common_letters!(Sgp);
    v.push(letter("corr", |p: Sgp| p.corr(Matern32Corr::default()), |_| {}));
    v.push(letter("n_inducings(3)", |p: Sgp| p.n_inducings(3), |r| r.z = Inducings::Randomized(3)));
    v.push(letter("n_inducings(30)", |p: Sgp| p.n_inducings(30), |r| r.z = Inducings::Randomized(30)));
    v.push(letter("noise_variance(fixed)", |p: Sgp| p.noise_variance(ParamTuning::Fixed(1e-3)), |r| r.noise = ParamTuning::Fixed(1e-3)));
    let o = || ParamTuning::Optimized { init: 1e-2, bounds: (1e-6, 1.) };
    v.push(letter("noise_variance(optimized)", move |p: Sgp| p.noise_variance(o()), move |r| r.noise = o()));
    for m in [SparseMethod::Fitc, SparseMethod::Vfe] {
        v.push(letter(format!("sparse_method({m:?})"), move |p: Sgp| p.sparse_method(m), move |r| r.method = m));
    }
    for s in [None, Some(7)] {
        v.push(letter(format!("seed({s:?})"), move |p: Sgp| p.seed(s), move |r| r.seed = s));
    }
    v.push(letter("from valid", |p: Sgp| p.check_ref().map(|q| SgpParams::from(q.clone())).unwrap_or(p.clone()), |_| {}));
    v
}
fn moe_letters() -> Vec<Letter<GpMixtureParams<f64>>> {
    type P = GpMixtureParams<f64>;
    let mut v: Vec<Letter<P>> = vec![];
    for k in [None, Some(0), Some(1), Some(2), Some(3)] {
        v.push(letter(format!("kpls_dim({k:?})"), move |p: P| p.kpls_dim(k), move |r| r.kpls = k));
    }
    for n in [0usize, 1, 3] {
        v.push(letter(format!("n_start({n})"), move |p: P| p.n_start(n), move |r| r.n_start = n));
    }
    for n in [0usize, 25, 40] {
        v.push(letter(format!("max_eval({n})"), move |p: P| p.max_eval(n), move |r| r.max_eval = n));
    }
    for n in [NbClusters::fixed(0), NbClusters::fixed(1), NbClusters::fixed(2), NbClusters::fixed(3), NbClusters::auto(), NbClusters::automax(1), NbClusters::automax(4)] {
        let m = n.clone();
        v.push(letter(format!("n_clusters({n:?})"), move |p: P| p.n_clusters(n.clone()), move |r| r.ncl = m.clone()));
    }
    for c in [Recombination::Hard, Recombination::Smooth(None), Recombination::Smooth(Some(0.4))] {
        v.push(letter(format!("recombination({c:?})"), move |p: P| p.recombination(c), move |r| r.rec = c));
    }
    for s in [RegressionSpec::LINEAR, RegressionSpec::CONSTANT | RegressionSpec::QUADRATIC] {
        v.push(letter(format!("regression_spec({s:?})"), move |p: P| p.regression_spec(s), move |r| r.regr = s));
    }
    for s in [CorrelationSpec::MATERN52, CorrelationSpec::ALL] {
        v.push(letter(format!("correlation_spec({s:?})"), move |p: P| p.correlation_spec(s), move |r| r.corr = s));
    }
    let one = tunings();
    for ts in [vec![], vec![one[2].clone()], vec![one[0].clone(), one[3].clone()], vec![one[2].clone(), one[0].clone(), one[6].clone()]] {
        let u = ts.clone();
        v.push(letter(format!("theta_tunings({})", ts.len()), move |p: P| p.theta_tunings(&ts.iter().map(|t| t.real()).collect::<Vec<_>>()), move |r| r.tuns = u.clone()));
    }
    v.push(letter("gp_type(full)", |p: P| p.gp_type(GpType::FullGp), |r| r.sparse = false));
    v.push(letter("gp_type(sparse)", |p: P| p.gp_type(GpType::SparseGp { sparse_method: SparseMethod::Vfe, inducings: Inducings::Randomized(4) }), |r| r.sparse = true));
    v.push(letter("from valid", |p: P| p.check_ref().map(|q| GpMixtureParams::from(q.clone())).unwrap_or(p.clone()), |_| {}));
    v
}

// ---------------------------------------------------------------- guards

/// refusal at check
fn guard_gp(r: &Ref) -> Option<&'static str> {
    if r.kpls == Some(0) {
        return Some("zero components");
    }
    let n = r.tun.init().len();
    if r.kpls.is_some_and(|k| n > 1 && k > n) {
        return Some("more components than hyperparameters");
    }
    None
}
/// refusal at training
fn guard_fit(r: &Ref, rows: usize, nx: usize, sparse: bool) -> Option<&'static str> {
    if let Some(e) = guard_gp(r) {
        return Some(e);
    }
    if r.kpls.is_some_and(|k| k > nx) {
        return Some("more components than inputs");
    }
    if rows < 2 && !sparse {
        return Some("less than two points");
    }
    let h = r.kpls.unwrap_or(nx);
    let n = r.tun.init().len();
    if n != 1 && n != h {
        return Some("wrong number of hyperparameters");
    }
    if r.tun.bounds().is_some_and(|b| b.len() != 1 && b.len() != h) {
        return Some("wrong number of bounds");
    }
    None
}
fn guard_moe(r: &Ref) -> Option<&'static str> {
    if r.kpls == Some(0) {
        return Some("zero components");
    }
    if let NbClusters::Fixed { nb } = r.ncl
        && nb != r.tuns.len()
        && !(nb > 1 && r.tuns.len() == 1)
    {
        return Some("numbers of clusters and tunings differ");
    }
    None
}

/// one answer against the expected refusal
fn judge<T, E: std::fmt::Display>(what: &str, got: &Result<T, E>, want: Option<&str>) -> R {
    match (got, want) {
        (Ok(_), None) | (Err(_), Some(_)) => Ok(()),
        (Ok(_), Some(w)) => Err(format!("{what}: accepted in spite of {w}")),
        (Err(e), None) => Err(format!("{what}: refused: {e}")),
    }
}

fn data(rows: usize, nx: usize) -> (Array2<f64>, Array1<f64>) {
    let x: Vec<Vec<f64>> = (0..rows).map(|i| (0..nx).map(|j| [0.13, 0.61, 0.92, 0.35, 0.78, 0.04, 0.49, 0.27][(i * (j + 1) + 2 * j) % 8] + 0.01 * i as f64).collect()).collect();
    let y: Vec<f64> = x.iter().map(|r| r.iter().enumerate().map(|(j, v)| (3. * v + j as f64).sin() + 0.3 * v * v).sum()).collect();
    if rows == 0 { (Array2::zeros((0, nx)), Array1::zeros(0)) } else { (arr2(&x), arr1(&y)) }
}

fn check_theta(what: &str, th: &Array1<f64>, r: &Ref, nx: usize) -> R {
    let h = r.kpls.unwrap_or(nx);
    ensure!(th.len() == h, "{what}: {} hyperparameters instead of {h}", th.len());
    let ex = |v: &Vec<f64>| if v.len() == 1 { vec![v[0]; h] } else { v.clone() };
    match &r.tun {
        Tun::Fixed(i) => ensure!(th.to_vec().iter().zip(&ex(i)).all(|(a, b)| (a - b).abs() <= 1e-12 * b), "{what}: hyperparameters {th} instead of {i:?}"),
        Tun::Full(_, b) | Tun::Partial(_, b, _) => {
            for (k, t) in th.iter().enumerate() {
                let tuned = !matches!(&r.tun, Tun::Partial(_, _, a) if !a.contains(&k));
                let (lo, hi) = b[if b.len() == 1 { 0 } else { k }];
                ensure!(!tuned || (*t >= lo * (1. - 1e-9) && *t <= hi * (1. + 1e-9)), "{what}: hyperparameter {t} outside [{lo}, {hi}]");
            }
        }
    }
    Ok(())
}

fn words(n: usize, len: usize) -> Vec<Vec<usize>> {
    (0..=len).flat_map(|l| odometer(&vec![n; l])).collect()
}

fn gp_word(ls: &[Letter<Gp>], w: &[usize], fit: bool, rec: &mut Rec) -> R {
    let mut p = Gp::new(ConstantMean::default(), SquaredExponentialCorr::default());
    let mut r = reference();
    for k in w {
        p = (ls[*k].real)(p);
        (ls[*k].model)(&mut r);
    }
    let what = format!("GpParams.{}", w.iter().map(|k| ls[*k].name.as_str()).collect::<Vec<_>>().join("."));
    let got = catch(|| p.check_ref().map(|v| v.clone())).map_err(|e| format!("{what}: check panics: {e}"))?;
    judge(&format!("{what}, check"), &got, guard_gp(&r))?;
    judge(&format!("{what}, check by value"), &p.clone().check(), guard_gp(&r))?;
    if let Ok(v) = &got {
        let t = r.tun.real();
        ensure!(*v.theta_tuning() == t, "{what}: tuning {:?} instead of {t:?}", v.theta_tuning());
        ensure!(v.kpls_dim().cloned() == r.kpls, "{what}: kpls_dim {:?} instead of {:?}", v.kpls_dim(), r.kpls);
        ensure!(v.n_start() == r.n_start && v.max_eval() == r.max_eval && v.nugget() == r.nugget, "{what}: n_start {} max_eval {} nugget {} instead of {r:?}", v.n_start(), v.max_eval(), v.nugget());
    }
    rec.state(format!("{:?}{:?}{}{}", r.tun, r.kpls, r.n_start, r.max_eval));
    rec.step(w.len() as u64 + 1);
    if fit {
        for (rows, nx) in [(0, 2), (1, 1), (2, 1), (7, 1), (7, 2), (7, 3)] {
            let (x, y) = data(rows, nx);
            let q = p.clone();
            let got = catch(move || q.fit(&Dataset::new(x, y))).map_err(|e| format!("{what}, training on {rows} points of {nx} inputs panics: {e}"))?;
            let at = format!("{what}, training on {rows} points of {nx} inputs");
            judge(&at, &got, guard_fit(&r, rows, nx, false))?;
            if let Ok(g) = got {
                check_theta(&at, g.theta(), &r, nx)?;
                rec.count("trainings accepted", 1);
            } else {
                rec.count("trainings refused", 1);
            }
        }
    }
    rec.trace();
    Ok(())
}

fn sgp_word(ls: &[Letter<Sgp>], w: &[usize], fit: bool, rec: &mut Rec) -> R {
    let mut p = Sgp::new(Matern32Corr::default(), Inducings::Randomized(10));
    let mut r = reference();
    r.tun = Tun::Full(vec![DEF], vec![(1e-2, 1e2)]);
    for k in w {
        p = (ls[*k].real)(p);
        (ls[*k].model)(&mut r);
    }
    let what = format!("SgpParams.{}", w.iter().map(|k| ls[*k].name.as_str()).collect::<Vec<_>>().join("."));
    let got = catch(|| p.check_ref().map(|v| v.clone())).map_err(|e| format!("{what}: check panics: {e}"))?;
    judge(&format!("{what}, check"), &got, guard_gp(&r))?;
    judge(&format!("{what}, check by value"), &p.clone().check(), guard_gp(&r))?;
    if let Ok(v) = &got {
        let t = r.tun.real();
        ensure!(*v.theta_tuning() == t, "{what}: tuning {:?} instead of {t:?}", v.theta_tuning());
        ensure!(v.kpls_dim().cloned() == r.kpls, "{what}: kpls_dim {:?} instead of {:?}", v.kpls_dim(), r.kpls);
        ensure!(v.n_start() == r.n_start && v.max_eval() == r.max_eval && v.nugget() == r.nugget, "{what}: n_start {} max_eval {} nugget {} instead of {r:?}", v.n_start(), v.max_eval(), v.nugget());
        ensure!(*v.inducings() == r.z && *v.noise_variance() == r.noise && v.method() == r.method && v.seed().cloned() == r.seed,
            "{what}: {:?} {:?} {:?} {:?} instead of {r:?}", v.inducings(), v.noise_variance(), v.method(), v.seed());
    }
    rec.state(format!("{r:?}"));
    rec.step(w.len() as u64 + 1);
    if fit {
        for (rows, nx) in [(7, 1), (7, 2), (7, 3)] {
            let (x, y) = data(rows, nx);
            let q = p.clone();
            let got = catch(move || q.fit(&Dataset::new(x, y))).map_err(|e| format!("{what}, training on {rows} points of {nx} inputs panics: {e}"))?;
            let at = format!("{what}, training on {rows} points of {nx} inputs");
            judge(&at, &got, guard_fit(&r, rows, nx, true))?;
            if let Ok(g) = got {
                let mut r = r.clone();
                // all components of a sparse model are tuned
                if let Tun::Partial(i, b, _) = r.tun {
                    r.tun = Tun::Full(i, b);
                }
                check_theta(&at, g.theta(), &r, nx)?;
                rec.count("trainings accepted", 1);
            } else {
                rec.count("trainings refused", 1);
            }
        }
    }
    rec.trace();
    Ok(())
}

fn moe_word(ls: &[Letter<GpMixtureParams<f64>>], w: &[usize], rec: &mut Rec) -> R {
    let mut p = GpMixtureParams::<f64>::new();
    let mut r = reference();
    for k in w {
        p = (ls[*k].real)(p);
        (ls[*k].model)(&mut r);
    }
    let what = format!("GpMixtureParams.{}", w.iter().map(|k| ls[*k].name.as_str()).collect::<Vec<_>>().join("."));
    let got = catch(|| p.check_ref().map(|v| v.clone()).map_err(|e| e.to_string())).map_err(|e| format!("{what}: check panics: {e}"))?;
    judge(&format!("{what}, check"), &got, guard_moe(&r))?;
    judge(&format!("{what}, check by value"), &p.clone().check().map_err(|e| e.to_string()), guard_moe(&r))?;
    if let Ok(v) = &got {
        ensure!(v.kpls_dim() == r.kpls && v.n_start() == r.n_start && v.max_eval() == r.max_eval, "{what}: {:?} {} {} instead of {r:?}", v.kpls_dim(), v.n_start(), v.max_eval());
        ensure!(v.n_clusters() == r.ncl && v.recombination() == r.rec && v.regression_spec() == r.regr && v.correlation_spec() == r.corr,
            "{what}: {:?} {:?} {:?} {:?} instead of {r:?}", v.n_clusters(), v.recombination(), v.regression_spec(), v.correlation_spec());
        let t: Vec<ThetaTuning<f64>> = r.tuns.iter().map(|t| t.real()).collect();
        ensure!(*v.theta_tunings() == t, "{what}: tunings {:?} instead of {t:?}", v.theta_tunings());
        ensure!(matches!(v.gp_type(), GpType::SparseGp { .. }) == r.sparse, "{what}: wrong type of expert");
        rec.count("mixtures accepted", 1);
    } else {
        rec.count("mixtures refused", 1);
    }
    rec.state(format!("{r:?}"));
    rec.step(w.len() as u64 + 1);
    rec.trace();
    Ok(())
}

// ---------------------------------------------------------------- optimizer configuration

type Leaves = BTreeMap<String, Value>;
fn leaves(v: &Value) -> Leaves {
    fn go(p: String, v: &Value, out: &mut Leaves) {
        match v {
            Value::Object(m) => {
                out.insert(format!("{p}{{}}"), Value::from(m.keys().cloned().collect::<Vec<_>>()));
                m.iter().for_each(|(k, w)| go(format!("{p}/{k}"), w, out));
            }
            w => {
                out.insert(p, w.clone());
            }
        }
    }
    let mut o = Leaves::new();
    go(String::new(), v, &mut o);
    o
}
/// numbers of a value, in order
fn numbers(v: &Value, out: &mut Vec<f64>) {
    match v {
        Value::Number(n) => out.push(n.as_f64().unwrap()),
        Value::Array(a) => a.iter().for_each(|w| numbers(w, out)),
        Value::Object(m) => m.values().for_each(|w| numbers(w, out)),
        _ => {}
    }
}

struct Opt {
    name: &'static str,
    /// settings of the same group are exclusive: the last one wins
    group: &'static str,
    f: fn(EgorConfig) -> EgorConfig,
    /// a number or text which has to appear in what changed
    sees: Option<Value>,
}
fn opts() -> Vec<Opt> {
    let o = |name, group, sees: Option<Value>, f| Opt { name, group, f, sees };
    let n = |v: f64| Some(Value::from(v));
    let s = |v: &str| Some(Value::from(v));
    vec![
        o("max_iters(7)", "max_iters", n(7.), |c| c.max_iters(7)),
        o("max_iters(0)", "max_iters", n(0.), |c| c.max_iters(0)),
        o("n_start(9)", "n_start", n(9.), |c| c.n_start(9)),
        o("n_doe(11)", "n_doe", n(11.), |c| c.n_doe(11)),
        o("n_cstr(2)", "n_cstr", n(2.), |c| c.n_cstr(2)),
        o("cstr_tol", "cstr_tol", n(0.0625), |c| c.cstr_tol(array![0.0625, 0.125])),
        o("doe", "doe", n(0.375), |c| c.doe(&array![[0.375, 0.5]])),
        o("qei KBLB", "qei", s("KrigingBelieverLowerBound"), |c| c.qei_strategy(QEiStrategy::KrigingBelieverLowerBound)),
        o("qei CLmin", "qei", s("ConstantLiarMinimum"), |c| c.qei_strategy(QEiStrategy::ConstantLiarMinimum)),
        o("q_optmod(13)", "q_optmod", n(13.), |c| c.q_optmod(13)),
        o("q_points(14)", "q_points", n(14.), |c| c.q_points(14)),
        o("infill EI", "infill", None, |c| c.infill_strategy(InfillStrategy::EI)),
        o("infill WB2", "infill", None, |c| c.infill_strategy(InfillStrategy::WB2)),
        o("criterion WB2S", "infill", None, |c| c.infill_criterion(Box::new(WB2S))),
        o("optimizer Cobyla", "optimizer", s("Cobyla"), |c| c.infill_optimizer(InfillOptimizer::Cobyla)),
        o("target(-2.5)", "target", n(-2.5), |c| c.target(-2.5)),
        o("outdir", "outdir", s("somewhere"), |c| c.outdir("somewhere")),
        o("warm_start", "warm_start", Some(Value::from(true)), |c| c.warm_start(true)),
        o("hot_start", "hot_start", n(17.), |c| c.hot_start(HotStartMode::ExtendedIters(17))),
        o("xtypes", "xtypes", n(-19.), |c| c.xtypes(&[XType::Int(-19, 3), XType::Enum(3)])),
        o("seed(21)", "seed", n(21.), |c| c.seed(21)),
        o("trego", "trego", Some(Value::from(true)), |c| c.trego(true)),
        o("coego(3)", "coego", n(3.), |c| c.coego(CoegoStatus::Enabled(3))),
        o("cstr_infill", "cstr_infill", Some(Value::from(true)), |c| c.cstr_infill(true)),
        o("strategy UTB", "strategy", s("UpperTrustBound"), |c| c.cstr_strategy(ConstraintStrategy::UpperTrustBound)),
        o("gp.regression", "gp.regr", None, |c| c.configure_gp(|g| g.regression_spec(RegressionSpec::QUADRATIC))),
        o("gp.correlation", "gp.corr", None, |c| c.configure_gp(|g| g.correlation_spec(CorrelationSpec::MATERN32))),
        o("gp.kpls(4)", "gp.kpls", n(4.), |c| c.configure_gp(|g| g.kpls(4))),
        o("gp.kpls_dim(5)", "gp.kpls", n(5.), |c| c.configure_gp(|g| g.kpls_dim(Some(5)))),
        o("gp.n_clusters", "gp.clusters", n(6.), |c| c.configure_gp(|g| g.n_clusters(NbClusters::fixed(6)))),
        o("gp.n_clusters auto", "gp.clusters", None, |c| c.configure_gp(|g| g.n_clusters(NbClusters::auto()))),
        o("gp.recombination", "gp.rec", None, |c| c.configure_gp(|g| g.recombination(Recombination::Hard))),
        o("gp.tuning", "gp.tuning", n(0.3125), |c| c.configure_gp(|g| g.theta_tuning(ThetaTuning::Fixed(array![0.3125])))),
        o("gp.n_start(23)", "gp.n_start", n(23.), |c| c.configure_gp(|g| g.n_start(23))),
        o("gp.max_eval(24)", "gp.max_eval", n(24.), |c| c.configure_gp(|g| g.max_eval(24))),
    ]
}
/// settings which take back another one
fn undo() -> Vec<(&'static str, &'static str, fn(EgorConfig) -> EgorConfig)> {
    vec![
        ("default_doe", "doe", |c| c.default_doe()),
        ("no_outdir", "outdir", |c| c.no_outdir()),
        ("warm_start(false)", "warm_start", |c| c.warm_start(false)),
        ("hot_start(disabled)", "hot_start", |c| c.hot_start(HotStartMode::Disabled)),
        ("trego(false)", "trego", |c| c.trego(false)),
        ("cstr_infill(false)", "cstr_infill", |c| c.cstr_infill(false)),
        ("strategy mean", "strategy", |c| c.cstr_strategy(ConstraintStrategy::MeanConstraint)),
        ("optimizer Slsqp", "optimizer", |c| c.infill_optimizer(InfillOptimizer::Slsqp)),
        ("qei KB", "qei", |c| c.qei_strategy(QEiStrategy::KrigingBeliever)),
        ("infill LogEI", "infill", |c| c.infill_strategy(InfillStrategy::LogEI)),
        ("n_cstr(0)", "n_cstr", |c| c.n_cstr(0)),
        ("n_doe(0)", "n_doe", |c| c.n_doe(0)),
        ("q_points(1)", "q_points", |c| c.q_points(1)),
        ("q_optmod(1)", "q_optmod", |c| c.q_optmod(1)),
        ("gp.no_kpls", "gp.kpls", |c| c.configure_gp(|g| g.no_kpls())),
        ("gp.kpls_dim(none)", "gp.kpls", |c| c.configure_gp(|g| g.kpls_dim(None))),
    ]
}

fn json(c: &EgorConfig) -> Result<Leaves, String> {
    serde_json::to_value(c).map(|v| leaves(&v)).map_err(|e| e.to_string())
}

/// what each setting changes
fn deltas(os: &[Opt]) -> Result<(Leaves, Vec<Leaves>), String> {
    let d0 = json(&EgorConfig::default())?;
    let mut ds = vec![];
    for o in os {
        let d1 = json(&(o.f)(EgorConfig::default()))?;
        // values which differ, and nodes which vanish (null)
        let keys: std::collections::BTreeSet<&String> = d0.keys().chain(d1.keys()).collect();
        let d: Leaves = keys.into_iter().filter(|k| d0.get(*k) != d1.get(*k)).map(|k| (k.clone(), d1.get(k).cloned().unwrap_or(Value::from("<absent>")))).collect();
        ensure!(!d.is_empty(), "{} changes nothing", o.name);
        if let Some(s) = &o.sees {
            let ok = d.values().any(|v| match s {
                Value::Number(x) => {
                    let mut ns = vec![];
                    numbers(v, &mut ns);
                    ns.contains(&x.as_f64().unwrap())
                }
                s => v == s || v.to_string().contains(&s.to_string()),
            });
            ensure!(ok, "{}: {s} not found in what changes, {d:?}", o.name);
        }
        ds.push(d);
    }
    for (a, da) in os.iter().zip(&ds) {
        for (b, db) in os.iter().zip(&ds) {
            if a.group != b.group {
                ensure!(da.keys().all(|k| !db.contains_key(k)), "{} and {} change the same setting: {da:?} {db:?}", a.name, b.name);
            } else if a.name != b.name {
                ensure!(da != db, "{} and {} do the same: {da:?}", a.name, b.name);
            }
        }
    }
    Ok((d0, ds))
}

fn opt_word(os: &[Opt], d0: &Leaves, ds: &[Leaves], w: &[usize], rec: &mut Rec) -> R {
    let mut c = EgorConfig::default();
    let mut last: BTreeMap<&str, usize> = BTreeMap::new();
    for k in w {
        c = (os[*k].f)(c);
        last.insert(os[*k].group, *k);
    }
    let mut want = d0.clone();
    for k in last.values() {
        for (p, v) in &ds[*k] {
            if *v == Value::from("<absent>") {
                want.remove(p);
            } else {
                want.insert(p.clone(), v.clone());
            }
        }
    }
    let got = json(&c)?;
    if got != want {
        let diff: Vec<String> = got.iter().filter(|(k, v)| want.get(*k) != Some(*v)).map(|(k, v)| format!("{k}={v} instead of {:?}", want.get(k))).collect();
        let names: Vec<&str> = w.iter().map(|k| os[*k].name).collect();
        return Err(format!("EgorConfig after {names:?}: {diff:?}"));
    }
    rec.state(format!("{last:?}"));
    rec.step(w.len() as u64);
    rec.trace();
    Ok(())
}

/// all the ways to get an optimizer from a configuration
fn build(c: &EgorConfig, nfc: usize) -> Vec<(&'static str, Result<(), String>)> {
    let f = |x: &ArrayView2<f64>| x.sum_axis(Axis(1)).insert_axis(Axis(1));
    let fcs = || -> Vec<Cstr> {
        fn g(x: &[f64], _g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 {
            x[0]
        }
        vec![g as Cstr; nfc]
    };
    let lim = array![[0., 1.], [-20., 5.]];
    let cc = c.clone();
    let mut v = vec![("check", c.clone().check().map(|_| ()).map_err(|e| e.to_string()))];
    v.push(("optimizer", EgorFactory::optimize(f).configure(|_| cc.clone()).subject_to(fcs()).min_within(&lim).map(|_| ()).map_err(|e| e.to_string())));
    v.push(("mixed optimizer", EgorFactory::optimize(f).configure(|_| cc.clone()).subject_to(fcs()).min_within_mixint_space(&mixed()).map(|_| ()).map_err(|e| e.to_string())));
    v.push(("service", EgorServiceFactory::<Cstr>::optimize().configure(|_| cc.clone()).min_within(&lim).map(|_| ()).map_err(|e| e.to_string())));
    v.push(("mixed service", EgorServiceFactory::<Cstr>::optimize().configure(|_| cc.clone()).min_within_mixint_space(&mixed()).map(|_| ()).map_err(|e| e.to_string())));
    v
}

#[derive(Clone, Debug)]
struct Start {
    n_cstr: usize,
    tol: Option<usize>,
    nfc: usize,
    coego: Option<usize>,
    kpls: Option<usize>,
    q: usize,
    optmod: usize,
    trego: bool,
    cstr_infill: bool,
    utb: bool,
    mixed: bool,
}
impl Start {
    fn config(&self) -> EgorConfig {
        let mut c = EgorConfig::default()
            .n_cstr(self.n_cstr)
            .q_points(self.q)
            .q_optmod(self.optmod)
            .coego(self.coego.map_or(CoegoStatus::Disabled, CoegoStatus::Enabled))
            .trego(self.trego)
            .cstr_infill(self.cstr_infill)
            .cstr_strategy(if self.utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .configure_gp(|g| g.kpls_dim(self.kpls).n_start(1).max_eval(20))
            .n_start(2)
            .max_iters(1)
            .n_doe(5)
            .seed(3);
        if let Some(t) = self.tol {
            c = c.cstr_tol(Array1::from_elem(t, 0.125));
        }
        c
    }
    fn guard(&self) -> Option<&'static str> {
        if self.n_cstr > 0 && self.tol.is_some_and(|t| t != self.n_cstr) {
            return Some("a number of tolerances which is not that of constraints");
        }
        if self.coego.is_some() && self.kpls.is_some() {
            return Some("cooperative components with dimension reduction");
        }
        if self.coego == Some(0) {
            return Some("no group of components");
        }
        None
    }
    fn types(&self) -> Vec<XType> {
        if self.mixed { mixed() } else { f2() }
    }
    fn run(&self, dir: &str) -> Result<usize, String> {
        let n = self.n_cstr;
        let f = move |x: &ArrayView2<f64>| {
            Array2::from_shape_fn((x.nrows(), 1 + n), |(i, k)| {
                let s = x[[i, 0]] * 0.3 + x[[i, 1]] * 0.11;
                if k == 0 { (s - 0.2).powi(2) + 0.1 * x[[i, 0]] } else { s - 0.5 * k as f64 + 0.05 * x[[i, 1]] }
            })
        };
        fn g(x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 {
            if let Some(g) = g {
                g[0] = 1.;
                g[1] = 0.;
            }
            x[0] - 0.7
        }
        let b = EgorFactory::optimize(f).configure(|_| self.config().outdir(dir)).subject_to(vec![g as Cstr; self.nfc]);
        let r = if self.mixed {
            b.min_within_mixint_space(&mixed()).and_then(|e| e.run())
        } else {
            b.min_within(&array![[0., 1.], [-20., 5.]]).and_then(|e| e.run())
        };
        r.map(|r| r.x_doe.nrows()).map_err(|e| e.to_string())
    }
}

fn start(s: &Start, rec: &mut Rec) -> R {
    let what = format!("{s:?}");
    for (n, got) in catch(|| build(&s.config(), s.nfc)).map_err(|e| format!("{what}: building panics: {e}"))? {
        judge(&format!("{what}, {n}"), &got, s.guard())?;
        rec.step(1);
    }
    rec.state(&what);
    rec.trace();
    if s.guard().is_some() {
        rec.count("configurations refused", 1);
        return Ok(());
    }
    // an accepted configuration runs, with the settings given
    let sc = Scratch::new("e15");
    let dir = sc.path("out");
    let n = catch(|| s.run(&dir)).map_err(|e| format!("{what}: the run panics: {e}"))?.map_err(|e| format!("{what}: the run fails: {e}"))?;
    ensure!(n > 5 || s.mixed || s.trego, "{what}: no point added to the 5 initial ones");
    let text = std::fs::read_to_string(format!("{dir}/{}", egobox_ego::CONFIG_FILE)).map_err(|e| format!("{what}: no configuration saved: {e}"))?;
    let saved: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let want = serde_json::to_value(s.config().outdir(&dir).xtypes(&s.types()).check().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(leaves(&saved) == leaves(&want), "{what}: configuration saved {saved} instead of {want}");
    rec.count("configurations run", 1);
    Ok(())
}

pub fn e15(cx: &mut Cx) {
    cx.rule = "every word of setter calls up to the length from the default parameters, compared with a reference record and reference guards; every combination of small values of the settings which interact, built in every way, and run when accepted".into();
    let th = cx.thorough();
    let mut cases: Vec<Case> = vec![];
    let l = if th { 4 } else { 3 };
    let nl = gp_letters().len();
    for k in 0..nl {
        cases.push(case(format!("gp/{}", gp_letters()[k].name), move |rec: &mut Rec| {
            let ls = gp_letters();
            for w in words(nl, l - 1) {
                let w = [vec![k], w].concat();
                gp_word(&ls, &w, w.len() <= if th { 3 } else { 2 }, rec)?;
            }
            Ok(())
        }));
    }
    let nl = sgp_letters().len();
    for k in 0..nl {
        cases.push(case(format!("sgp/{}", sgp_letters()[k].name), move |rec: &mut Rec| {
            let ls = sgp_letters();
            for w in words(nl, l - 1) {
                let w = [vec![k], w].concat();
                sgp_word(&ls, &w, w.len() <= 2, rec)?;
            }
            Ok(())
        }));
    }
    let nl = moe_letters().len();
    for k in 0..nl {
        cases.push(case(format!("moe/{}", moe_letters()[k].name), move |rec: &mut Rec| {
            let ls = moe_letters();
            for w in words(nl, l - 1) {
                moe_word(&ls, &[vec![k], w].concat(), rec)?;
            }
            Ok(())
        }));
    }
    let nl = opts().len();
    for k in 0..nl {
        cases.push(case(format!("egor/{}", opts()[k].name), move |rec: &mut Rec| {
            let os = opts();
            let (d0, ds) = deltas(&os)?;
            for w in words(nl, if th { 2 } else { 1 }) {
                opt_word(&os, &d0, &ds, &[vec![k], w].concat(), rec)?;
            }
            // taken back
            for (name, group, f) in undo() {
                let c = json(&f((os[k].f)(EgorConfig::default())))?;
                let want = if group == os[k].group { d0.clone() } else { json(&(os[k].f)(EgorConfig::default()))? };
                ensure!(c == want, "{} then {name}: {:?}", os[k].name, c.iter().filter(|(p, v)| want.get(*p) != Some(*v)).collect::<Vec<_>>());
                rec.trace();
            }
            let c = json(&(os[k].f)(EgorConfig::default()).coego(CoegoStatus::Disabled))?;
            if os[k].group != "coego" {
                ensure!(c == json(&(os[k].f)(EgorConfig::default()))?, "{} then no coego", os[k].name);
            }
            Ok(())
        }));
    }
    cases.push(case("egor/criteria", |_rec: &mut Rec| {
        for (s, b) in [
            (InfillStrategy::EI, EgorConfig::default().infill_criterion(Box::new(EI))),
            (InfillStrategy::LogEI, EgorConfig::default().infill_criterion(Box::new(LOG_EI))),
            (InfillStrategy::WB2, EgorConfig::default().infill_criterion(Box::new(WB2))),
            (InfillStrategy::WB2S, EgorConfig::default().infill_criterion(Box::new(WB2S))),
        ] {
            let n = format!("{s:?}");
            ensure!(json(&EgorConfig::default().infill_strategy(s))? == json(&b)?, "strategy {n} is not its criterion");
        }
        Ok(())
    }));
    let mut v = vec![];
    for n_cstr in 0..=3usize {
        for tol in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
            for nfc in 0..=2usize {
                for coego in [None, Some(0), Some(1), Some(2), Some(3)] {
                    for kpls in [None, Some(1)] {
                        for (q, optmod) in [(1, 1), (2, 2)] {
                            for sp in [false, true] {
                                let s = Start { n_cstr, tol, nfc, coego, kpls, q, optmod, trego: false, cstr_infill: false, utb: false, mixed: sp };
                                let plain = q == 1 && coego.is_none_or(|c| c < 3) && n_cstr < 3;
                                if s.guard().is_some() || plain || th {
                                    for (trego, cstr_infill, utb) in [(false, false, false), (true, false, true), (false, true, false), (true, true, true)] {
                                        if th || !trego && !cstr_infill || plain && s.guard().is_none() && n_cstr + nfc > 0 && sp == utb {
                                            v.push(Start { trego, cstr_infill, utb, ..s.clone() });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for c in v.chunks(4) {
        let c = c.to_vec();
        cases.push(case(format!("start/{:?}", c[0]).replace(' ', ""), move |rec: &mut Rec| {
            for s in &c {
                start(s, rec)?;
            }
            Ok(())
        }));
    }
    cx.run(cases);
}
