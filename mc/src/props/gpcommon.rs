//! Type-erased access to the dense and sparse Gaussian processes, data-set and query alphabets.
use crate::refgp::{Kern, M, Trend, V};
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::metrics::PredictScore;
use egobox_gp::{
    GaussianProcess, GpParams, Inducings, ParamTuning, SgpParams, SparseGaussianProcess, SparseMethod, ThetaTuning,
};
use linfa::Dataset;
use linfa::prelude::{Fit, Predict};
use ndarray::{Array1, Array2};

pub type Val2 = (Array1<f64>, Array1<f64>);
pub trait Gp: Send + Sync {
    fn predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn predict_trait(&self, x: &Array2<f64>) -> Array1<f64>;
    fn var(&self, x: &Array2<f64>) -> Array1<f64>;
    fn valvar(&self, x: &Array2<f64>) -> Val2;
    fn grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn vgrad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn vgrad1(&self, x: &Array1<f64>) -> Option<Array1<f64>>;
    fn valvar_grad(&self, x: &Array2<f64>) -> Option<(Array2<f64>, Array2<f64>)>;
    fn kth(&self, x: &Array2<f64>, k: usize) -> Option<Array1<f64>>;
    fn sample(&self, x: &Array2<f64>, n: usize, chol: u8) -> Array2<f64>;
    fn theta(&self) -> Array1<f64>;
    fn variance(&self) -> f64;
    fn noise(&self) -> f64;
    fn lkh(&self) -> f64;
    fn kpls_dim(&self) -> Option<usize>;
    fn dims(&self) -> (usize, usize);
    fn inducings(&self) -> Option<Array2<f64>>;
    fn q2(&self, k: usize) -> f64;
    fn looq2(&self) -> f64;
    fn display(&self) -> String;
    fn json(&self) -> serde_json::Value;
}

impl<Me, Co> Gp for GaussianProcess<f64, Me, Co>
where
    Me: RegressionModel<f64> + Send + serde::Serialize,
    Co: CorrelationModel<f64> + Send + serde::Serialize,
{
    fn predict(&self, x: &Array2<f64>) -> Array1<f64> {
        GaussianProcess::predict(self, x).unwrap()
    }
    fn predict_trait(&self, x: &Array2<f64>) -> Array1<f64> {
        Predict::predict(self, x)
    }
    fn var(&self, x: &Array2<f64>) -> Array1<f64> {
        self.predict_var(x).unwrap()
    }
    fn valvar(&self, x: &Array2<f64>) -> Val2 {
        self.predict_valvar(x).unwrap()
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn vgrad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn vgrad1(&self, x: &Array1<f64>) -> Option<Array1<f64>> {
        Some(self.predict_var_gradients_single(x))
    }
    fn valvar_grad(&self, x: &Array2<f64>) -> Option<(Array2<f64>, Array2<f64>)> {
        Some(self.predict_valvar_gradients(x))
    }
    fn kth(&self, x: &Array2<f64>, k: usize) -> Option<Array1<f64>> {
        Some(self.predict_kth_derivatives(x, k))
    }
    fn sample(&self, x: &Array2<f64>, n: usize, m: u8) -> Array2<f64> {
        match m {
            0 => self.sample_chol(x, n),
            1 => self.sample_eig(x, n),
            _ => GaussianProcess::sample(self, x, n),
        }
    }
    fn theta(&self) -> Array1<f64> {
        GaussianProcess::theta(self).to_owned()
    }
    fn variance(&self) -> f64 {
        GaussianProcess::variance(self)
    }
    fn noise(&self) -> f64 {
        0.
    }
    fn lkh(&self) -> f64 {
        self.likelihood()
    }
    fn kpls_dim(&self) -> Option<usize> {
        GaussianProcess::kpls_dim(self)
    }
    fn dims(&self) -> (usize, usize) {
        GaussianProcess::dims(self)
    }
    fn inducings(&self) -> Option<Array2<f64>> {
        None
    }
    fn q2(&self, k: usize) -> f64 {
        self.q2_score(k)
    }
    fn looq2(&self) -> f64 {
        self.looq2_score()
    }
    fn display(&self) -> String {
        format!("{self}")
    }
    fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
}

impl<Co> Gp for SparseGaussianProcess<f64, Co>
where
    Co: CorrelationModel<f64> + Send + serde::Serialize,
{
    fn predict(&self, x: &Array2<f64>) -> Array1<f64> {
        SparseGaussianProcess::predict(self, x).unwrap()
    }
    fn predict_trait(&self, x: &Array2<f64>) -> Array1<f64> {
        Predict::predict(self, x)
    }
    fn var(&self, x: &Array2<f64>) -> Array1<f64> {
        self.predict_var(x).unwrap()
    }
    fn valvar(&self, x: &Array2<f64>) -> Val2 {
        (SparseGaussianProcess::predict(self, x).unwrap(), self.predict_var(x).unwrap())
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn vgrad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn vgrad1(&self, _x: &Array1<f64>) -> Option<Array1<f64>> {
        None
    }
    fn valvar_grad(&self, _x: &Array2<f64>) -> Option<(Array2<f64>, Array2<f64>)> {
        None
    }
    fn kth(&self, _x: &Array2<f64>, _k: usize) -> Option<Array1<f64>> {
        None
    }
    fn sample(&self, x: &Array2<f64>, n: usize, m: u8) -> Array2<f64> {
        match m {
            0 => self.sample_chol(x, n),
            1 => self.sample_eig(x, n),
            _ => SparseGaussianProcess::sample(self, x, n),
        }
    }
    fn theta(&self) -> Array1<f64> {
        SparseGaussianProcess::theta(self).to_owned()
    }
    fn variance(&self) -> f64 {
        SparseGaussianProcess::variance(self)
    }
    fn noise(&self) -> f64 {
        self.noise_variance()
    }
    fn lkh(&self) -> f64 {
        self.likelihood()
    }
    fn kpls_dim(&self) -> Option<usize> {
        SparseGaussianProcess::kpls_dim(self)
    }
    fn dims(&self) -> (usize, usize) {
        SparseGaussianProcess::dims(self)
    }
    fn inducings(&self) -> Option<Array2<f64>> {
        Some(SparseGaussianProcess::inducings(self).to_owned())
    }
    fn q2(&self, k: usize) -> f64 {
        self.q2_score(k)
    }
    fn looq2(&self) -> f64 {
        self.looq2_score()
    }
    fn display(&self) -> String {
        format!("{self}")
    }
    fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
}

#[derive(Clone)]
pub struct GpCfg {
    pub kern: Kern,
    pub trend: Trend,
    pub tuning: ThetaTuning<f64>,
    pub kpls: Option<usize>,
    pub n_start: usize,
    pub max_eval: usize,
    pub nugget: Option<f64>,
}
impl GpCfg {
    pub fn fixed(kern: Kern, trend: Trend, theta: &[f64]) -> GpCfg {
        GpCfg {
            kern,
            trend,
            tuning: ThetaTuning::Fixed(Array1::from_vec(theta.to_vec())),
            kpls: None,
            n_start: 0,
            max_eval: 30,
            nugget: None,
        }
    }
}

fn fit_dense<Me, Co>(m: Me, c: Co, cfg: &GpCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn Gp>, String>
where
    Me: RegressionModel<f64> + Send + serde::Serialize + 'static,
    Co: CorrelationModel<f64> + Send + serde::Serialize + 'static,
{
    let mut p = GpParams::new(m, c)
        .theta_tuning(cfg.tuning.clone())
        .kpls_dim(cfg.kpls)
        .n_start(cfg.n_start)
        .max_eval(cfg.max_eval);
    if let Some(n) = cfg.nugget {
        p = p.nugget(n);
    }
    p.fit(&Dataset::new(x.clone(), y.clone()))
        .map(|g| Box::new(g) as Box<dyn Gp>)
        .map_err(|e| e.to_string())
}

pub fn fit_gp(cfg: &GpCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn Gp>, String> {
    macro_rules! go {
        ($m:expr) => {
            match cfg.kern {
                Kern::Se => fit_dense($m, SquaredExponentialCorr::default(), cfg, x, y),
                Kern::Ae => fit_dense($m, AbsoluteExponentialCorr::default(), cfg, x, y),
                Kern::M32 => fit_dense($m, Matern32Corr::default(), cfg, x, y),
                Kern::M52 => fit_dense($m, Matern52Corr::default(), cfg, x, y),
            }
        };
    }
    match cfg.trend {
        Trend::C => go!(ConstantMean::default()),
        Trend::L => go!(LinearMean::default()),
        Trend::Q => go!(QuadraticMean::default()),
    }
}

#[derive(Clone)]
pub struct SgpCfg {
    pub kern: Kern,
    pub vfe: bool,
    pub tuning: ThetaTuning<f64>,
    pub noise: ParamTuning<f64>,
    pub inducings: Inducings<f64>,
    pub kpls: Option<usize>,
    pub n_start: usize,
    pub max_eval: usize,
    pub nugget: Option<f64>,
    pub seed: Option<u64>,
}

fn fit_s<Co>(c: Co, cfg: &SgpCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn Gp>, String>
where
    Co: CorrelationModel<f64> + Send + serde::Serialize + 'static,
{
    let mut p = SgpParams::new(c, cfg.inducings.clone())
        .theta_tuning(cfg.tuning.clone())
        .kpls_dim(cfg.kpls)
        .n_start(cfg.n_start)
        .max_eval(cfg.max_eval)
        .noise_variance(cfg.noise.clone())
        .sparse_method(if cfg.vfe { SparseMethod::Vfe } else { SparseMethod::Fitc })
        .seed(cfg.seed);
    if let Some(n) = cfg.nugget {
        p = p.nugget(n);
    }
    p.fit(&Dataset::new(x.clone(), y.clone()))
        .map(|g| Box::new(g) as Box<dyn Gp>)
        .map_err(|e| e.to_string())
}
pub fn fit_sgp(cfg: &SgpCfg, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn Gp>, String> {
    match cfg.kern {
        Kern::Se => fit_s(SquaredExponentialCorr::default(), cfg, x, y),
        Kern::Ae => fit_s(AbsoluteExponentialCorr::default(), cfg, x, y),
        Kern::M32 => fit_s(Matern32Corr::default(), cfg, x, y),
        Kern::M52 => fit_s(Matern52Corr::default(), cfg, x, y),
    }
}

pub fn arr2(x: &M) -> Array2<f64> {
    Array2::from_shape_fn((x.len(), x[0].len()), |(i, j)| x[i][j])
}
pub fn arr1(y: &[f64]) -> Array1<f64> {
    Array1::from_vec(y.to_vec())
}
pub fn mat(a: &Array2<f64>) -> M {
    a.outer_iter().map(|r| r.to_vec()).collect()
}

/// deterministic irregular outputs: pattern p over the points
pub fn outputs(p: usize, x: &M) -> V {
    x.iter()
        .enumerate()
        .map(|(i, r)| {
            let s: f64 = r.iter().enumerate().map(|(j, v)| v * (1. + 0.37 * j as f64)).sum();
            match p {
                0 => (1.3 * s).sin() + 0.2 * s,
                1 => [2., -1., 0.5, 3., -2.5, 1.][i % 6],
                2 => if i == 1 { 1. } else { 0. },
                3 => 4.5,
                4 => 2. * s - 1.,
                _ => 1e-3 * s * s * s + if i % 2 == 0 { 100. } else { 101. },
            }
        })
        .collect()
}

/// n points of the (irregular) grid of dimension d selected by indices
pub fn grid(d: usize, levels: &[f64]) -> M {
    let r: Vec<usize> = vec![levels.len(); d];
    crate::util::odometer(&r)
        .into_iter()
        .map(|w| w.iter().enumerate().map(|(j, &k)| levels[k] + 0.13 * j as f64 * k as f64).collect())
        .collect()
}

/// all subsets of size n of 0..g
pub fn combos(g: usize, n: usize) -> Vec<Vec<usize>> {
    fn rec(s: usize, g: usize, n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in s..g {
            cur.push(i);
            rec(i + 1, g, n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(0, g, n, &mut vec![], &mut out);
    out
}
