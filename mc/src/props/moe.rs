//! M01-M04: mixtures of experts: recombination, gradients, training, save/load.
use super::gpcommon::{GpCfg, arr1, arr2, fit_gp, grid, outputs};
use crate::cx::*;
use crate::ensure;
use crate::refgp::{Kern, M, Trend};
use crate::util::*;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::{GpParams, Inducings, ParamTuning, SgpParams, ThetaTuning};
use egobox_ego::XType;
use egobox_ego::gpmix::mixint::*;
use egobox_moe::*;
use std::result::Result;
use linfa::Dataset;
use linfa::ParamGuard;
use linfa::prelude::Fit;
use ndarray::{Array1, Array2, Array3, Axis, s};
use rand_xoshiro::Xoshiro256Plus;
use rand_xoshiro::rand_core::SeedableRng;

// ---------------------------------------------------------------- reference mixture

/// Gaussian mixture written from its definition: p_k(x) ~ w_k N(x; mu_k, f C_k)
pub struct Mix {
    pub w: Vec<f64>,
    pub mu: M,
    pub prec: Vec<M>,
    pub logdet: Vec<f64>,
    pub f: f64,
}
fn inv_logdet(c: &M) -> (M, f64) {
    let n = c.len();
    let mut a: M = (0..n)
        .map(|i| (0..2 * n).map(|j| if j < n { c[i][j] } else { (j - n == i) as u8 as f64 }).collect())
        .collect();
    let mut ld = 0.;
    for i in 0..n {
        let p = (i..n).max_by(|&p, &q| a[p][i].abs().total_cmp(&a[q][i].abs())).unwrap();
        a.swap(i, p);
        let d = a[i][i];
        ld += d.abs().ln();
        for j in 0..2 * n {
            a[i][j] /= d;
        }
        for r in 0..n {
            if r != i {
                let m = a[r][i];
                for j in 0..2 * n {
                    let v = a[i][j];
                    a[r][j] -= m * v;
                }
            }
        }
    }
    (a.into_iter().map(|r| r[n..].to_vec()).collect(), ld)
}
impl Mix {
    pub fn new(w: &[f64], mu: &M, cov: &[M], f: f64) -> Mix {
        let (mut prec, mut logdet) = (vec![], vec![]);
        for c in cov {
            let (p, l) = inv_logdet(c);
            prec.push(p);
            logdet.push(l);
        }
        Mix { w: w.to_vec(), mu: mu.clone(), prec, logdet, f }
    }
    pub fn of(g: &GaussianMixture<f64>, f: f64) -> Mix {
        let mu: M = g.means().outer_iter().map(|r| r.to_vec()).collect();
        let cov: Vec<M> =
            g.covariances().outer_iter().map(|c| c.outer_iter().map(|r| r.to_vec()).collect()).collect();
        Mix::new(&g.weights().to_vec(), &mu, &cov, f)
    }
    fn delta(&self, x: &[f64], k: usize) -> Vec<f64> {
        let d: Vec<f64> = x.iter().zip(&self.mu[k]).map(|(a, b)| a - b).collect();
        self.prec[k].iter().map(|r| r.iter().zip(&d).map(|(a, b)| a * b).sum::<f64>() / self.f).collect()
    }
    /// weighted log densities up to a common constant
    fn logs(&self, x: &[f64]) -> Vec<f64> {
        (0..self.w.len())
            .map(|k| {
                let q: f64 =
                    self.delta(x, k).iter().zip(x.iter().zip(&self.mu[k])).map(|(p, (a, b))| p * (a - b)).sum();
                self.w[k].ln() - 0.5 * (q + self.logdet[k])
            })
            .collect()
    }
    /// probabilities and a bound of their rounding error
    pub fn probas(&self, x: &[f64]) -> (Vec<f64>, f64) {
        let l = self.logs(x);
        let m = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let e: Vec<f64> = l.iter().map(|v| (v - m).exp()).collect();
        let t: f64 = e.iter().sum();
        let size = l.iter().fold(1f64, |a, v| if v.is_finite() { a.max(v.abs()) } else { a });
        (e.iter().map(|v| v / t).collect(), 1e-10 + 1e-12 * size)
    }
    pub fn dprobas(&self, x: &[f64]) -> M {
        let (p, _) = self.probas(x);
        let d: M = (0..p.len()).map(|k| self.delta(x, k)).collect();
        (0..p.len())
            .map(|k| {
                (0..x.len())
                    .map(|j| p[k] * ((0..p.len()).map(|i| p[i] * d[i][j]).sum::<f64>() - d[k][j]))
                    .collect()
            })
            .collect()
    }
}

// ---------------------------------------------------------------- experts, mixtures

fn tun(t: &[f64]) -> ThetaTuning<f64> {
    ThetaTuning::Fixed(arr1(t))
}
fn lv(d: usize) -> Vec<f64> {
    if d == 1 { vec![0., 0.21, 0.5, 0.63, 1.] } else { vec![0., 0.46, 1.] }
}
fn data(d: usize, which: usize) -> (Array2<f64>, Array2<f64>) {
    let mut pts = grid(d, &lv(d));
    let n = pts.len();
    pts = pts.into_iter().enumerate().filter(|(i, _)| n < 6 || (i * 7 + which) % 5 != 0).map(|(_, p)| p).collect();
    pts.truncate(11);
    let y: Vec<f64> = outputs(which % 3, &pts).iter().map(|v| v * (1. + which as f64) + 3. * which as f64).collect();
    (arr2(&pts), arr1(&y).insert_axis(Axis(1)))
}

macro_rules! dense {
    ($S:ident, $m:ident, $c:ident, $d:expr, $which:expr, $th:expr, $kpls:expr) => {{
        let mut p = $S::new(GpParams::new($m::default(), $c::default()));
        p.theta_tuning(tun($th));
        p.n_start(0);
        p.kpls_dim($kpls);
        let (x, y) = data($d, $which);
        p.train(&x.view(), &y.view()).unwrap()
    }};
}
macro_rules! sparse {
    ($S:ident, $c:ident, $d:expr, $which:expr, $th:expr, $m:expr) => {{
        let (x, y) = data($d, $which);
        let z = x.slice(s![..;2, ..]).to_owned();
        let mut p = $S::new(
            SgpParams::new($c::default(), Inducings::Located(z)).noise_variance(ParamTuning::Fixed(0.05)),
        );
        p.theta_tuning(tun($th));
        p.n_start(0);
        p.sparse_method($m);
        p.seed(Some(42));
        p.train(&x.view(), &y.view()).unwrap()
    }};
}
pub fn expert(d: usize, kind: usize) -> Box<dyn FullGpSurrogate> {
    let t = &[1.7, 0.6, 1.1][..d];
    match kind {
        0 => dense!(GpConstantSquaredExponentialSurrogateParams, ConstantMean, SquaredExponentialCorr, d, 0, t, None),
        1 => dense!(GpLinearMatern52SurrogateParams, LinearMean, Matern52Corr, d, 1, t, None),
        2 => dense!(GpConstantAbsoluteExponentialSurrogateParams, ConstantMean, AbsoluteExponentialCorr, d, 2, t, None),
        3 => dense!(GpConstantMatern32SurrogateParams, ConstantMean, Matern32Corr, d, 3, &t[..1], (d > 1).then_some(1)),
        4 => dense!(GpLinearSquaredExponentialSurrogateParams, LinearMean, SquaredExponentialCorr, d, 4, t, None),
        5 => sparse!(SgpSquaredExponentialSurrogateParams, SquaredExponentialCorr, d, 5, t, SparseMethod::Fitc),
        6 => sparse!(SgpMatern52SurrogateParams, Matern52Corr, d, 6, t, SparseMethod::Vfe),
        _ => dense!(GpQuadraticMatern32SurrogateParams, QuadraticMean, Matern32Corr, d, 7, t, None),
    }
}
const SETS: [[usize; 3]; 4] = [[0, 1, 2], [5, 6, 0], [3, 4, 7], [2, 0, 5]];

fn covs(d: usize, thorough: bool) -> Vec<M> {
    let diag = |v: f64| -> M { (0..d).map(|i| (0..d).map(|j| if i == j { v * (1. + i as f64) } else { 0. }).collect()).collect() };
    let mut o = vec![diag(0.02), diag(1.), diag(40.)];
    if d > 1 {
        let mut c = diag(0.3);
        for i in 0..d {
            for j in 0..d {
                if i != j {
                    c[i][j] = 0.2 * if (i + j) % 2 == 1 { -1. } else { 0.5 };
                }
            }
        }
        o.push(c);
    }
    if thorough {
        o.push(diag(1e-4));
        o.push(diag(3e3));
    }
    o
}
fn means(d: usize, k: usize) -> Vec<M> {
    let m = |f: &dyn Fn(usize, usize) -> f64| -> M { (0..k).map(|c| (0..d).map(|j| f(c, j)).collect()).collect() };
    vec![
        m(&|c, j| 0.2 + 0.35 * c as f64 + 0.1 * j as f64 * (c as f64 - 1.)),
        m(&|c, j| if j == 0 { 10. * c as f64 } else { 0.5 }),
        m(&|_, j| 0.4 + 0.1 * j as f64),
        m(&|c, j| 1e3 * c as f64 - j as f64),
    ]
}
fn weights(k: usize) -> Vec<Vec<f64>> {
    match k {
        1 => vec![vec![1.]],
        2 => vec![vec![0.5, 0.5], vec![0.9, 0.1], vec![1e-9, 1. - 1e-9]],
        _ => vec![vec![1. / 3.; 3], vec![0.7, 0.2, 0.1], vec![1e-9, 0.6, 0.4 - 1e-9]],
    }
}
fn queries(d: usize, mu: &M) -> M {
    let mut q: M = vec![vec![0.31; d], vec![0.93; d], mu[0].clone(), mu[mu.len() - 1].clone()];
    if mu.len() > 1 {
        q.push((0..d).map(|j| 0.5 * (mu[0][j] + mu[1][j])).collect());
    }
    for v in [-0.7, 3.2, 25., -140., 4e3, -3e5, 1e8, 1e12, -1e40, 1e100] {
        q.push((0..d).map(|j| if j % 2 == 0 { v } else { -0.4 * v }).collect());
    }
    q.push((0..d).map(|j| if j == d - 1 { 77. } else { 0.5 }).collect());
    q
}
fn a3(c: &[M]) -> Array3<f64> {
    let d = c[0].len();
    Array3::from_shape_fn((c.len(), d, d), |(k, i, j)| c[k][i][j])
}
fn base_moe(d: usize, set: usize, k: usize) -> GpMixture {
    let (x, y) = data(d, 0);
    let m = GpMixture::params()
        .n_clusters(NbClusters::fixed(1))
        .recombination(Recombination::Hard)
        .theta_tunings(&[tun(&vec![1.; d])])
        .n_start(0)
        .with_rng(Xoshiro256Plus::seed_from_u64(1))
        .fit(&Dataset::new(x, y.remove_axis(Axis(1))))
        .unwrap();
    m.set_experts((0..k).map(|i| expert(d, SETS[set][i])).collect())
}
fn row(x: &[f64]) -> Array2<f64> {
    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap()
}
fn near(a: f64, b: f64, tol: f64, scale: f64) -> bool {
    (a - b).abs() <= tol * scale || (a == b)
}

/// prediction of the mixture at one point against its definition
fn check_point(m: &GpMixture, mix: &Mix, hard: bool, x: &[f64], rec: &mut Rec, grads: bool) -> R {
    let k = mix.w.len();
    let xr = row(x);
    let p = m.gmx().predict_probas(&xr);
    rec.step(1);
    ensure!(p.dim() == (1, k), "probabilities have dimensions {:?}", p.dim());
    let p: Vec<f64> = p.row(0).to_vec();
    ensure!(p.iter().all(|v| *v >= 0.), "cluster probabilities {p:?} at {x:?} are not non-negative numbers");
    let sum: f64 = p.iter().sum();
    ensure!((sum - 1.).abs() <= 1e-9, "cluster probabilities {p:?} at {x:?} sum to {sum}");
    let (rp, tol) = mix.probas(x);
    let reliable = tol < 1e-3;
    if reliable {
        for i in 0..k {
            ensure!((p[i] - rp[i]).abs() <= tol, "probability of cluster {i} at {x:?} is {} instead of {}", p[i], rp[i]);
        }
        rec.count("probabilities compared", 1);
    }
    // recombination against the experts (with the checked probabilities)
    let ex: Vec<(f64, f64)> =
        m.experts().iter().map(|e| (e.predict(&xr.view()).unwrap()[0], e.predict_var(&xr.view()).unwrap()[0])).collect();
    if x.iter().any(|v| v.abs() > 1e30) {
        // the experts' own values overflow: only the probabilities are meaningful
        return Ok(());
    }
    let mean = m.predict(&xr).map_err(|e| format!("predict at {x:?}: {e}"))?[0];
    let var = m.predict_var(&xr).map_err(|e| format!("predict_var at {x:?}: {e}"))?[0];
    let (m2, v2) = m.predict_valvar(&xr).map_err(|e| format!("predict_valvar at {x:?}: {e}"))?;
    let sc = ex.iter().map(|e| e.0.abs()).fold(1e-300, f64::max);
    let sv = ex.iter().map(|e| e.1.abs()).fold(1e-300, f64::max);
    let amax = (0..k).max_by(|&a, &b| p[a].total_cmp(&p[b])).unwrap();
    let mut second = 0f64;
    for i in 0..k {
        if i != amax {
            second = second.max(p[i]);
        }
    }
    let tie = p[amax] - second <= 2. * tol.min(0.5) + 1e-12;
    if hard || k == 1 {
        let ok = |i: usize| near(mean, ex[i].0, 1e-12, sc) && near(var, ex[i].1, 1e-12, sv);
        ensure!(
            ok(amax) || (tie && (0..k).any(|i| ok(i))),
            "hard prediction at {x:?} is ({mean}, {var}) instead of {:?} of the most probable cluster {amax}, p={p:?}",
            ex[amax]
        );
    } else {
        let rm: f64 = (0..k).map(|i| p[i] * ex[i].0).sum();
        let rv: f64 = (0..k).map(|i| p[i] * p[i] * ex[i].1).sum();
        ensure!(near(mean, rm, 1e-11, sc), "smooth prediction at {x:?} is {mean} instead of {rm}; p={p:?} experts {ex:?}");
        ensure!(near(var, rv, 1e-11, sv), "smooth variance at {x:?} is {var} instead of {rv}; p={p:?} experts {ex:?}");
    }
    ensure!(near(m2[0], mean, 1e-10, sc) && near(v2[0], var, 1e-9, sv),
        "predict_valvar at {x:?} gives ({}, {}), separate calls ({mean}, {var})", m2[0], v2[0]);
    if !grads {
        return Ok(());
    }
    let d = x.len();
    let dp = m.gmx().predict_probas_derivatives(&xr);
    ensure!(dp.dim() == (1, k, d), "probability derivatives have dimensions {:?}", dp.dim());
    let rdp = mix.dprobas(x);
    let size = (0..k).flat_map(|c| mix.delta(x, c)).fold(1e-300f64, |a, v| a.max(v.abs()));
    for c in 0..k {
        for j in 0..d {
            let v = dp[[0, c, j]];
            ensure!(v.is_finite(), "derivative of the probability of cluster {c} wrt x{j} at {x:?} is {v}");
            if reliable {
                ensure!((v - rdp[c][j]).abs() <= (4. * tol + 1e-9) * size,
                    "derivative of the probability of cluster {c} wrt x{j} at {x:?} is {v} instead of {}", rdp[c][j]);
            }
        }
    }
    let g = m.predict_gradients(&xr).map_err(|e| e.to_string())?;
    let vg = m.predict_var_gradients(&xr).map_err(|e| e.to_string())?;
    let (g2, vg2) = m.predict_valvar_gradients(&xr).map_err(|e| e.to_string())?;
    ensure!(g.dim() == (1, d) && vg.dim() == (1, d) && g2.dim() == (1, d) && vg2.dim() == (1, d), "gradient dimensions");
    let eg: Vec<(Array2<f64>, Array2<f64>)> = m
        .experts()
        .iter()
        .map(|e| (e.predict_gradients(&xr.view()).unwrap(), e.predict_var_gradients(&xr.view()).unwrap()))
        .collect();
    for j in 0..d {
        let sg = eg.iter().map(|e| e.0[[0, j]].abs()).fold(1e-300, f64::max) + sc * dp.slice(s![0, .., j]).iter().fold(0f64, |a, v| a.max(v.abs()));
        let svg = eg.iter().map(|e| e.1[[0, j]].abs()).fold(1e-300, f64::max) + sv * dp.slice(s![0, .., j]).iter().fold(0f64, |a, v| a.max(v.abs()));
        if hard || k == 1 {
            let ok = |i: usize| near(g[[0, j]], eg[i].0[[0, j]], 1e-12, sg) && near(vg[[0, j]], eg[i].1[[0, j]], 1e-12, svg);
            ensure!(ok(amax) || (tie && (0..k).any(|i| ok(i))),
                "hard gradients at {x:?} wrt x{j} are ({}, {}) instead of those of expert {amax} ({}, {})",
                g[[0, j]], vg[[0, j]], eg[amax].0[[0, j]], eg[amax].1[[0, j]]);
        } else {
            let rg: f64 = (0..k).map(|i| p[i] * eg[i].0[[0, j]] + dp[[0, i, j]] * ex[i].0).sum();
            let rvg: f64 = (0..k).map(|i| p[i] * p[i] * eg[i].1[[0, j]] + 2. * p[i] * dp[[0, i, j]] * ex[i].1).sum();
            ensure!(near(g[[0, j]], rg, 1e-10, sg), "gradient at {x:?} wrt x{j} is {} instead of {rg}; p={p:?}", g[[0, j]]);
            ensure!(near(vg[[0, j]], rvg, 1e-10, svg), "gradient of the variance at {x:?} wrt x{j} is {} instead of {rvg}; p={p:?}", vg[[0, j]]);
        }
        ensure!(near(g2[[0, j]], g[[0, j]], 1e-9, sg) && near(vg2[[0, j]], vg[[0, j]], 1e-9, svg),
            "predict_valvar_gradients at {x:?} wrt x{j} gives ({}, {}), separate calls ({}, {})",
            g2[[0, j]], vg2[[0, j]], g[[0, j]], vg[[0, j]]);
    }
    rec.count("gradient components compared", d as u64);
    Ok(())
}

/// several rows at once give what each row gives
fn check_batch(m: &GpMixture, q: &M, grads: bool) -> R {
    let x = arr2(q);
    let e = |e: MoeError| e.to_string();
    let (a, b) = (m.predict(&x).map_err(e)?, m.predict_var(&x).map_err(e)?);
    let (a2, b2) = m.predict_valvar(&x).map_err(e)?;
    for (i, r) in q.iter().enumerate() {
        let xr = row(r);
        let (s, t) = (m.predict(&xr).map_err(e)?[0], m.predict_var(&xr).map_err(e)?[0]);
        for (n, u, v) in [("predict", a[i], s), ("predict_var", b[i], t), ("predict_valvar", a2[i], s), ("predict_valvar (variance)", b2[i], t)] {
            ensure!(near(u, v, 1e-9, v.abs().max(1e-6)), "{n} of {} points gives {u} at {r:?}, {v} alone", q.len());
        }
    }
    if grads {
        let (g, v) = (m.predict_gradients(&x).map_err(e)?, m.predict_var_gradients(&x).map_err(e)?);
        let (g2, v2) = m.predict_valvar_gradients(&x).map_err(e)?;
        for (i, r) in q.iter().enumerate() {
            let xr = row(r);
            let (sg, sv) = (m.predict_gradients(&xr).map_err(e)?, m.predict_var_gradients(&xr).map_err(e)?);
            for j in 0..r.len() {
                for (n, u, w) in [("gradients", g[[i, j]], sg[[0, j]]), ("variance gradients", v[[i, j]], sv[[0, j]]),
                    ("combined gradients", g2[[i, j]], sg[[0, j]]), ("combined variance gradients", v2[[i, j]], sv[[0, j]])] {
                    ensure!(near(u, w, 1e-8, w.abs().max(1e-5)), "{n} of {} points wrt x{j} give {u} at {r:?}, {w} alone", q.len());
                }
            }
        }
    }
    Ok(())
}

fn mixtures(cx: &mut Cx, grads: bool) {
    let th = cx.thorough();
    let mut cases = vec![];
    for d in 1..=3 {
        for k in 1..=3 {
            for set in 0..SETS.len() {
                if !th && (d == 3 && k == 3 && set > 1) {
                    continue;
                }
                let factors: Vec<Option<f64>> = vec![None, Some(1.), Some(0.1), Some(2.1), Some(12.)];
                for f in factors {
                    cases.push(case(format!("mix/d{d}/k{k}/e{set}/{f:?}"), move |rec: &mut Rec| {
                        let mut m = base_moe(d, set, k);
                        let cs = covs(d, th);
                        let mut n = 0;
                        for w in weights(k) {
                            for mu in means(d, k) {
                                for sel in odometer(&vec![cs.len(); k]) {
                                    if !th && k == 3 && (sel[0] + 2 * sel[1] + sel[2]) % 3 != 0 {
                                        continue;
                                    }
                                    let cov: Vec<M> = sel.iter().map(|&i| cs[i].clone()).collect();
                                    let rc = match f {
                                        None => Recombination::Hard,
                                        f => Recombination::Smooth(f),
                                    };
                                    let (w, mu) = (w.clone(), mu.clone());
                                    m = catch(move || {
                                        m.set_gmx(arr1(&w), arr2(&mu), a3(&cov)).set_recombination(rc)
                                    })?;
                                    let mu: M = m.gmx().means().outer_iter().map(|r| r.to_vec()).collect();
                                    let mix = Mix::of(m.gmx(), f.unwrap_or(1.));
                                    let q = queries(d, &mu);
                                    for x in &q {
                                        catch(|| check_point(&m, &mix, f.is_none(), x, rec, grads))?
                                            .map_err(|e| format!("{e} [weights {:?} means {mu:?} covariances {sel:?} factor {f:?}]", m.gmx().weights()))?;
                                    }
                                    n += 1;
                                    if n % 7 == 1 {
                                        catch(|| check_batch(&m, &q[..8.min(q.len())].to_vec(), grads))??;
                                    }
                                    rec.state((d, k, set, n, f.map(|v| v.to_bits())));
                                }
                            }
                        }
                        rec.count("mixtures", n);
                        Ok(())
                    }));
                }
            }
        }
    }
    // mixtures as trained
    for (name, x, y) in train_data(th) {
        for nb in 1..=3usize {
            for (rn, rc) in [("hard", Recombination::Hard), ("smooth", Recombination::Smooth(None)), ("smooth.4", Recombination::Smooth(Some(0.4)))] {
                let (x, y, name) = (x.clone(), y.clone(), name.clone());
                if x.nrows() < 6 * nb {
                    continue;
                }
                cases.push(case(format!("trained/{name}/k{nb}/{rn}"), move |rec: &mut Rec| {
                    let d = x.ncols();
                    let r = catch(|| {
                        GpMixture::params()
                            .n_clusters(NbClusters::fixed(nb))
                            .recombination(rc)
                            .theta_tunings(&vec![tun(&vec![1.; d]); 1])
                            .n_start(0)
                            .with_rng(Xoshiro256Plus::seed_from_u64(42))
                            .fit(&Dataset::new(x.clone(), y.clone()))
                    });
                    let Ok(Ok(m)) = r else {
                        rec.vacuous = true;
                        return Ok(());
                    };
                    let (hard, f) = match m.recombination() {
                        Recombination::Hard => (true, 1.),
                        Recombination::Smooth(Some(f)) => (false, f),
                        Recombination::Smooth(None) => (false, 1.),
                    };
                    if let (Recombination::Smooth(Some(w)), false) = (rc, hard) {
                        ensure!(w == f, "heaviside factor {f} instead of the requested {w}");
                    }
                    let mix = Mix::of(m.gmx(), f);
                    let mu: M = m.gmx().means().outer_iter().map(|r| r.to_vec()).collect();
                    let mut q = queries(d, &mu);
                    q.extend(x.outer_iter().take(6).map(|r| r.to_vec()));
                    for p in &q {
                        catch(|| check_point(&m, &mix, hard, p, rec, grads))?
                            .map_err(|e| format!("{e} [trained mixture {m}]"))?;
                    }
                    catch(|| check_batch(&m, &q, grads))??;
                    rec.count("trained mixtures", 1);
                    rec.state((&name, nb, rn));
                    // every history of changes of recombination
                    let letters = [Recombination::Hard, Recombination::Smooth(None), Recombination::Smooth(Some(0.3)), Recombination::Smooth(Some(3.))];
                    let mut m = m;
                    for (i, l) in de_bruijn(letters.len(), if th { 4 } else { 3 }).into_iter().enumerate() {
                        let rc = letters[l];
                        m = catch(move || m.set_recombination(rc))?;
                        let (hard, f) = match m.recombination() {
                            Recombination::Hard => (true, 1.),
                            Recombination::Smooth(f) => (false, f.unwrap_or(1.)),
                        };
                        ensure!(hard == (l == 0), "recombination {} after {rc:?} is set", m.recombination());
                        if let Recombination::Smooth(Some(w)) = rc {
                            ensure!(w == f, "heaviside factor {f} instead of {w} after change {i}");
                        }
                        let mix = Mix::of(m.gmx(), f);
                        for p in q.iter().step_by(if th { 1 } else { 5 }) {
                            catch(|| check_point(&m, &mix, hard, p, rec, grads))?
                                .map_err(|e| format!("{e} [change of recombination number {i} to {rc:?} in {m}]"))?;
                        }
                        rec.count("changes of recombination", 1);
                    }
                    Ok(())
                }));
            }
        }
    }
    cx.run(cases);
}

pub fn m01(cx: &mut Cx) {
    cx.rule = "every combination of weights, means, covariances, number of clusters, expert set, recombination and query point of the alphabets (plus trained mixtures): probabilities against an independent mixture density, recombination against the experts".into();
    cx.assumptions = vec!["points up to 1e100 from the data; probabilities are compared to the reference where double precision determines them, the partition of unity everywhere".into()];
    mixtures(cx, false);
}
pub fn m02(cx: &mut Cx) {
    cx.rule = "same mixtures as M01: derivatives of the probabilities against their closed form, gradients against the product rule over experts' gradients (themselves decided by G02, G03, G05)".into();
    cx.assumptions = vec!["the experts' own gradients are those of their predictions (decided by G02 and G05)".into()];
    mixtures(cx, true);
}

// ---------------------------------------------------------------- training

fn train_data(thorough: bool) -> Vec<(String, Array2<f64>, Array1<f64>)> {
    let mut out = vec![];
    let f3 = |x: f64| if x < 0.4 { x * x } else if x < 0.8 { 3. * x + 1. } else { (10. * x).sin() };
    let ns: &[usize] = if thorough { &[1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 22] } else { &[1, 2, 3, 4, 5, 7, 12, 20] };
    for &n in ns {
        let x: Vec<f64> = (0..n).map(|i| ((i * 7 + 3) % n.max(1)) as f64 / (n.max(2) - 1) as f64 + 0.003 * ((i * i) % 5) as f64).collect();
        let xa = Array2::from_shape_vec((n, 1), x.clone()).unwrap();
        out.push((format!("1d{n}-modes"), xa.clone(), x.iter().map(|&v| f3(v)).collect()));
        out.push((format!("1d{n}-zero"), xa.clone(), Array1::zeros(n)));
        if n == 5 || n == 12 {
            out.push((format!("1d{n}-step"), xa.clone(), x.iter().map(|&v| if v < 0.5 { 0. } else { 10. }).collect()));
            out.push((format!("1d{n}-shifted"), &xa * 200. - 1e4, x.iter().map(|&v| 1e6 + f3(v)).collect()));
        }
        // repeated points (also at the origin)
        let xr: Vec<f64> = (0..n).map(|i| (i / 2) as f64 * 0.3).collect();
        if n >= 2 {
            out.push((format!("1d{n}-repeated"), Array2::from_shape_vec((n, 1), xr.clone()).unwrap(), xr.iter().map(|&v| f3(v)).collect()));
        }
    }
    for &n in if thorough { &[4usize, 6, 9, 14, 20][..] } else { &[4usize, 6, 9, 16][..] } {
        let x = Array2::from_shape_fn((n, 2), |(i, j)| {
            let s = if i % 2 == 0 { 0. } else { 3. };
            s + 0.37 * ((i * (3 + 2 * j) + j) % n) as f64 / n as f64
        });
        let y: Array1<f64> = x.outer_iter().map(|r| if r[0] < 2. { r[0] + r[1] } else { 5. - r[0] * r[1] }).collect();
        out.push((format!("2d{n}-blobs"), x.clone(), y));
        if n >= 9 {
            out.push((format!("2d{n}-const"), x, Array1::from_elem(n, 2.5)));
        }
    }
    out
}

const MEANS: [(RegressionSpec, &str); 3] =
    [(RegressionSpec::CONSTANT, "Constant"), (RegressionSpec::LINEAR, "Linear"), (RegressionSpec::QUADRATIC, "Quadratic")];
const CORRS: [(CorrelationSpec, &str); 4] = [
    (CorrelationSpec::SQUAREDEXPONENTIAL, "SquaredExponential"),
    (CorrelationSpec::ABSOLUTEEXPONENTIAL, "AbsoluteExponential"),
    (CorrelationSpec::MATERN32, "Matern32"),
    (CorrelationSpec::MATERN52, "Matern52"),
];

#[derive(Clone)]
struct Tr {
    nb: NbClusters,
    rc: Recombination<f64>,
    re: RegressionSpec,
    co: CorrelationSpec,
    tunings: Vec<ThetaTuning<f64>>,
    sparse: Option<SparseMethod>,
    kpls: Option<usize>,
    n_start: usize,
}

fn train(t: &Tr, x: &Array2<f64>, y: &Array1<f64>) -> Result<Result<GpMixture, MoeError>, String> {
    let gp_type = match t.sparse {
        None => GpType::FullGp,
        Some(m) => GpType::SparseGp { sparse_method: m, inducings: Inducings::Randomized((x.nrows() / 3).max(1)) },
    };
    catch(|| {
        GpMixtureParams::new_with_rng(gp_type, Xoshiro256Plus::seed_from_u64(42))
            .n_clusters(t.nb.clone())
            .recombination(t.rc)
            .regression_spec(t.re)
            .correlation_spec(t.co)
            .theta_tunings(&t.tunings)
            .kpls_dim(t.kpls)
            .n_start(t.n_start)
            .max_eval(25)
            .check()?
            .train(x, y)
    })
}

fn check_training(t: &Tr, x: &Array2<f64>, y: &Array1<f64>, rec: &mut Rec) -> R {
    let m = match train(t, x, y)? {
        Err(e) => {
            if std::env::var("MC_DBG").is_ok() {
                eprintln!("ERR n={} {:?} {:?} {:?} {:?} {e:?}", x.nrows(), t.nb, t.rc, t.sparse, t.tunings.len());
            }
            rec.count("training errors", 1);
            return Ok(());
        }
        Ok(m) => m,
    };
    rec.count("trained", 1);
    let k = m.n_clusters();
    if let NbClusters::Fixed { nb } = t.nb {
        ensure!(k == nb, "{k} clusters instead of the requested {nb}");
    }
    if let NbClusters::Auto { max: Some(max) } = t.nb
        && max > 0
    {
        ensure!(k <= max, "{k} clusters found, at most {max} allowed");
    }
    ensure!(m.experts().len() == k, "{} experts for {k} clusters", m.experts().len());
    let bo = x.fold_axis(Axis(0), (f64::INFINITY, f64::NEG_INFINITY), |a, &v| (a.0.min(v), a.1.max(v)));
    let mut q: M = x.outer_iter().map(|r| r.to_vec()).collect();
    for i in 0..5 {
        q.push(bo.iter().map(|b| b.0 + (b.1 - b.0) * i as f64 / 4.).collect());
    }
    let qa = arr2(&q);
    let (p, v) = catch(|| m.predict_valvar(&qa))?.map_err(|e| e.to_string())?;
    ensure!(p.iter().all(|v| v.is_finite()), "prediction {p} not finite on the training domain {}", fmt2(&qa));
    ensure!(v.iter().all(|v| v.is_finite() && *v >= 0.), "variance {v} not finite or negative on the training domain");
    for (i, e) in m.experts().iter().enumerate() {
        let n = e.to_string();
        let ok = CORRS.iter().any(|c| {
            t.co.contains(c.0)
                && if t.sparse.is_some() {
                    n.starts_with(c.1)
                } else {
                    MEANS.iter().any(|r| t.re.contains(r.0) && n.starts_with(&format!("{}_{}", r.1, c.1)))
                }
        });
        ensure!(ok, "expert {i} is {n}, allowed {:?} {:?}", t.re, t.co);
        let th = e.theta();
        let tu = if t.tunings.len() == 1 { &t.tunings[0] } else { &t.tunings[i] };
        match tu {
            ThetaTuning::Fixed(f) => ensure!(
                if f.len() == 1 { th.iter().all(|v| *v == f[0]) } else { th == f },
                "expert {i} has theta {th} instead of the fixed {f}"
            ),
            ThetaTuning::Full { bounds, .. } => {
                for (j, v) in th.iter().enumerate() {
                    let b = if bounds.len() == 1 { bounds[0] } else { bounds[j] };
                    ensure!(*v >= b.0 * (1. - 1e-9) && *v <= b.1 * (1. + 1e-9), "expert {i} has theta {th} outside {b:?}");
                }
            }
            _ => {}
        }
        rec.count("experts", 1);
    }
    // an expert is the model of the points of its cluster
    if t.sparse.is_none() {
        use linfa::prelude::Predict;
        let cl: Vec<usize> = if k == 1 { vec![0; x.nrows()] } else { m.gmx().predict(x).to_vec() };
        for (i, e) in m.experts().iter().enumerate() {
            let rows: Vec<usize> = (0..x.nrows()).filter(|&r| cl[r] == i).collect();
            let n = e.to_string();
            let kern = [Kern::Se, Kern::Ae, Kern::M32, Kern::M52][CORRS.iter().position(|c| n.contains(c.1)).unwrap()];
            let trend = [Trend::C, Trend::L, Trend::Q][MEANS.iter().position(|c| n.starts_with(c.1)).unwrap()];
            let cfg = GpCfg { kpls: t.kpls, ..GpCfg::fixed(kern, trend, &e.theta().to_vec()) };
            let g = catch(|| fit_gp(&cfg, &x.select(Axis(0), &rows), &y.select(Axis(0), &rows)))?
                .map_err(|e| format!("expert {i} ({n}) is not a model of the points {rows:?} of its cluster: {e}"))?;
            let want = catch(|| g.predict(&qa))?;
            let got = catch(|| e.predict(&qa.view()))?.map_err(|e| e.to_string())?;
            let ys = y.iter().fold(0f64, |a, v| a.max(v.abs()));
            for j in 0..want.len() {
                ensure!((want[j] - got[j]).abs() <= 1e-5 * (ys + want[j].abs()), "expert {i} ({n}) predicts {} at {:?}, the model of the points {rows:?} of its cluster predicts {}", got[j], q[j], want[j]);
            }
            rec.count("experts compared to the model of their cluster", 1);
        }
    }
    let m2 = train(t, x, y)?.map_err(|e| format!("second training with the same seed fails: {e}"))?;
    ensure!(m.to_string() == m2.to_string(), "same seed, different models {m} and {m2}");
    let (p2, v2) = m2.predict_valvar(&qa).map_err(|e| e.to_string())?;
    ensure!(bits1(&p) == bits1(&p2) && bits1(&v) == bits1(&v2), "same seed, different predictions");
    Ok(())
}

pub fn m03(cx: &mut Cx) {
    cx.rule = "every data set of the alphabet x every training configuration (clusters fixed or automatic, recombination, allowed models, tunings, sparse or full), each trained twice".into();
    cx.assumptions = vec!["up to 22 points, 2 inputs, 3 clusters; hyperparameter searches of 25 evaluations".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    let full = |t0: f64, b: (f64, f64)| ThetaTuning::Full { init: Array1::from_vec(vec![t0]), bounds: Array1::from_vec(vec![b]) };
    let base = Tr {
        nb: NbClusters::fixed(1),
        rc: Recombination::Smooth(Some(1.)),
        re: RegressionSpec::CONSTANT,
        co: CorrelationSpec::SQUAREDEXPONENTIAL,
        tunings: vec![ThetaTuning::default()],
        sparse: None,
        kpls: None,
        n_start: 1,
    };
    for (name, x, y) in train_data(th) {
        let n = x.nrows();
        let mut v: Vec<(String, Tr)> = vec![];
        for nb in [NbClusters::fixed(0), NbClusters::fixed(1), NbClusters::fixed(2), NbClusters::fixed(3), NbClusters::auto(),
            NbClusters::automax(0), NbClusters::automax(1), NbClusters::automax(3)] {
            let auto = nb.is_auto();
            if auto && n > 12 && !th {
                continue;
            }
            let rcs: Vec<(&str, Recombination<f64>)> = if auto {
                vec![("h", Recombination::Hard)]
            } else {
                vec![("h", Recombination::Hard), ("s", Recombination::Smooth(None)), ("s.5", Recombination::Smooth(Some(0.5)))]
            };
            for (rn, rc) in rcs {
                // tunings
                let k = nb.n_or_else_one();
                let mut ts: Vec<(&str, Vec<ThetaTuning<f64>>)> = vec![("def", vec![ThetaTuning::default()])];
                ts.push(("fix", vec![tun(&[0.37])]));
                ts.push(("each", (0..k).map(|i| [full(0.5, (0.2, 0.9)), tun(&[2.5]), full(1.5, (1.2, 1.9))][i % 3].clone()).collect()));
                if rn == "h" {
                    ts.push(("more", vec![ThetaTuning::default(); k + 1]));
                    ts.push(("none", vec![]));
                }
                for (tn, tu) in ts {
                    v.push((format!("{nb:?}/{rn}/{tn}"), Tr { nb: nb.clone(), rc, tunings: tu.clone(), ..base.clone() }));
                    if !auto && (rn == "h" || rn == "s.5") && tn != "more" && n >= 3 {
                        for m in [SparseMethod::Fitc, SparseMethod::Vfe] {
                            v.push((format!("{nb:?}/{rn}/{tn}/{m:?}"), Tr { nb: nb.clone(), rc, tunings: tu.clone(), sparse: Some(m), ..base.clone() }));
                        }
                    }
                }
                // allowed models
                let specs: Vec<(RegressionSpec, CorrelationSpec)> = vec![
                    (RegressionSpec::LINEAR, CorrelationSpec::MATERN52),
                    (RegressionSpec::QUADRATIC, CorrelationSpec::ABSOLUTEEXPONENTIAL),
                    (RegressionSpec::empty(), CorrelationSpec::MATERN32),
                    (RegressionSpec::CONSTANT, CorrelationSpec::empty()),
                    (RegressionSpec::CONSTANT | RegressionSpec::LINEAR, CorrelationSpec::MATERN32),
                    (RegressionSpec::QUADRATIC | RegressionSpec::LINEAR, CorrelationSpec::MATERN32 | CorrelationSpec::MATERN52),
                    (RegressionSpec::ALL, CorrelationSpec::ALL),
                ];
                for (i, (re, co)) in specs.into_iter().enumerate() {
                    if (auto || rn == "s") && (!th || n > 12) && i != 1 {
                        continue;
                    }
                    if i == 6 && !th && n > 7 {
                        continue;
                    }
                    let t = Tr { nb: nb.clone(), rc, re, co, tunings: vec![ThetaTuning::default()], ..base.clone() };
                    v.push((format!("{nb:?}/{rn}/spec{i}"), t.clone()));
                    if rn == "h" && i < 5 && n >= 3 {
                        v.push((format!("{nb:?}/{rn}/spec{i}/sparse"), Tr { sparse: Some(SparseMethod::Fitc), ..t }));
                    }
                }
            }
        }
        for (i, kp) in [0usize, 1, 2, 3].into_iter().enumerate() {
            for nb in [1, 2] {
                v.push((format!("kpls{i}/k{nb}"), Tr { kpls: Some(kp), nb: NbClusters::fixed(nb), rc: Recombination::Hard, ..base.clone() }));
            }
        }
        for (tn, t) in v {
            let (x, y) = (x.clone(), y.clone());
            cases.push(case(format!("{name}/{tn}"), move |rec: &mut Rec| {
                let r = check_training(&t, &x, &y, rec);
                rec.state((x.nrows(), format!("{:?}", t.nb)));
                if let Err(e) = &r
                    && e.contains("NaN values in array")
                    && t.kpls.is_some()
                {
                    rec.kind("pls-exhausted-panic", e.clone());
                    return Ok(());
                }
                r
            }));
        }
    }
    cx.run(cases);
}

// ---------------------------------------------------------------- save / load

struct Chars {
    dims: (usize, usize),
    display: String,
    vals: Vec<Array1<f64>>,
    grads: Vec<Array2<f64>>,
    nums: Vec<f64>,
    /// serialized model
    text: String,
}
fn text<T: serde::Serialize + ?Sized>(m: &T) -> Result<String, String> {
    serde_json::to_string(m).map_err(|e| format!("json serialization: {e}"))
}
fn chars_gp(m: &dyn GpSurrogate, q: &Array2<f64>) -> Result<Chars, String> {
    let e = |e: MoeError| e.to_string();
    let x = &q.view();
    let (a, b) = m.predict_valvar(x).map_err(e)?;
    Ok(Chars { dims: m.dims(), display: m.to_string(), vals: vec![m.predict(x).map_err(e)?, m.predict_var(x).map_err(e)?, a, b], grads: vec![], nums: vec![], text: text(m)? })
}
fn chars_full(m: &dyn FullGpSurrogate, q: &Array2<f64>) -> Result<Chars, String> {
    let e = |e: MoeError| e.to_string();
    let x = &q.view();
    let (a, b) = m.predict_valvar(x).map_err(e)?;
    let (c, d) = m.predict_valvar_gradients(x).map_err(e)?;
    let mut nums = m.theta().to_vec();
    nums.extend([m.variance(), m.noise_variance(), m.likelihood()]);
    Ok(Chars {
        dims: m.dims(),
        display: m.to_string(),
        vals: vec![m.predict(x).map_err(e)?, m.predict_var(x).map_err(e)?, a, b],
        grads: vec![m.predict_gradients(x).map_err(e)?, m.predict_var_gradients(x).map_err(e)?, c, d],
        nums,
        text: text(m)?,
    })
}
fn chars_mix(m: &dyn MixtureGpSurrogate, q: &Array2<f64>) -> Result<Chars, String> {
    let mut c = chars_gp_like(m, q)?;
    c.nums.push(m.n_clusters() as f64);
    c.nums.push(match m.recombination() {
        Recombination::Hard => -1.,
        Recombination::Smooth(None) => -2.,
        Recombination::Smooth(Some(f)) => f,
    });
    let (x, y) = m.training_data();
    c.vals.push(y.clone());
    c.grads.push(x.clone());
    c.nums.push(m.experts().len() as f64);
    for e in m.experts() {
        c.nums.extend(e.theta().iter());
        c.nums.extend([e.variance(), e.noise_variance(), e.likelihood()]);
        c.display += &e.to_string();
    }
    let g = m.to_clustering();
    c.nums.extend(g.gmx().weights().iter());
    c.nums.extend(g.gmx().means().iter());
    c.nums.extend(g.gmx().covariances().iter());
    Ok(c)
}
fn chars_gp_like(m: &dyn MixtureGpSurrogate, q: &Array2<f64>) -> Result<Chars, String> {
    let e = |e: MoeError| e.to_string();
    let x = &q.view();
    let (a, b) = m.predict_valvar(x).map_err(e)?;
    let mut c = Chars { dims: m.dims(), display: m.to_string(), vals: vec![m.predict(x).map_err(e)?, m.predict_var(x).map_err(e)?, a, b], grads: vec![], nums: vec![], text: text(m)? };
    if let Ok(g) = catch(|| m.predict_gradients(x)) {
        c.grads = vec![g.map_err(e)?, m.predict_var_gradients(x).map_err(e)?];
    }
    Ok(c)
}
fn same(a: &Chars, b: &Chars, exact: bool) -> R {
    ensure!(a.dims == b.dims, "dimensions {:?} instead of {:?}", b.dims, a.dims);
    if exact {
        ensure!(a.display == b.display, "displayed as {} instead of {}", b.display, a.display);
    } else {
        let k = |s: &str| s.split(|c: char| c == '[' || c == '=').next().unwrap_or("").to_string();
        ensure!(k(&a.display) == k(&b.display), "displayed as {} instead of {}", b.display, a.display);
    }
    ensure!(a.vals.len() == b.vals.len() && a.grads.len() == b.grads.len() && a.nums.len() == b.nums.len(), "different number of characteristics");
    same_text(&a.text, &b.text, exact)?;
    let pa: Vec<f64> = a.vals.iter().flatten().chain(a.grads.iter().flatten()).copied().collect();
    let pb: Vec<f64> = b.vals.iter().flatten().chain(b.grads.iter().flatten()).copied().collect();
    let scale = pa.iter().fold(1e-300f64, |m, v| m.max(v.abs()));
    for (what, va, vb, tol) in [("predictions", &pa, &pb, 1e-2 * scale), ("characteristics", &a.nums, &b.nums, 0.)] {
        ensure!(va.len() == vb.len(), "different number of {what}");
        for (i, (u, v)) in va.iter().zip(vb.iter()).enumerate() {
            let ok = u.to_bits() == v.to_bits() || (!exact && ((u - v).abs() <= 1e-9 * u.abs() || (u - v).abs() <= tol));
            ensure!(ok, "value {i} of {what} is {v:?} after reloading instead of {u:?}");
        }
    }
    Ok(())
}

/// same serialized content: same structure, numbers identical, or within the printing precision of the text format
fn same_text(a: &str, b: &str, exact: bool) -> R {
    if a == b {
        return Ok(());
    }
    let va: serde_json::Value = serde_json::from_str(a).map_err(|e| e.to_string())?;
    let vb: serde_json::Value = serde_json::from_str(b).map_err(|e| e.to_string())?;
    fn cmp(path: &str, a: &serde_json::Value, b: &serde_json::Value, exact: bool) -> R {
        use serde_json::Value::*;
        match (a, b) {
            (Number(u), Number(v)) => {
                let (u, v) = (u.as_f64().unwrap_or(f64::NAN), v.as_f64().unwrap_or(f64::NAN));
                ensure!(u == v || (!exact && (u - v).abs() <= 4. * f64::EPSILON * u.abs()), "content {path} is {v:?} after reloading instead of {u:?}");
            }
            (Array(u), Array(v)) if u.len() == v.len() => {
                for (i, (x, y)) in u.iter().zip(v).enumerate() {
                    cmp(&format!("{path}[{i}]"), x, y, exact)?;
                }
            }
            (Object(u), Object(v)) if u.len() == v.len() => {
                for (k, x) in u {
                    let Some(y) = v.get(k) else { return Err(format!("content {path}.{k} is missing after reloading")) };
                    cmp(&format!("{path}.{k}"), x, y, exact)?;
                }
            }
            (u, v) => ensure!(u == v, "content {path} is {v} after reloading instead of {u}"),
        }
        Ok(())
    }
    cmp("", &va, &vb, exact)
}

type Loader<'a> = &'a dyn Fn(&str, GpFileFormat) -> Result<Chars, String>;
/// save in both formats, reload, every truncation, damaged bytes, missing files
fn check_files(orig: &Chars, save: &dyn Fn(&str, GpFileFormat) -> Result<(), String>, load: Loader, thorough: bool, rec: &mut Rec) -> R {
    let dir = Scratch::new("m04");
    for bin in [false, true] {
        let fmt = || if bin { GpFileFormat::Binary } else { GpFileFormat::Json };
        let what = if bin { "binary" } else { "json" };
        let p = dir.path(what);
        catch(|| save(&p, fmt()))?.map_err(|e| format!("saving in {what} format fails: {e}"))?;
        let c = catch(|| load(&p, fmt()))?.map_err(|e| format!("the file saved in {what} format does not load: {e}"))?;
        same(orig, &c, bin).map_err(|e| format!("{what} format: {e}"))?;
        rec.trace();
        // saving over a longer existing file
        let bytes = std::fs::read(&p).unwrap();
        let p2 = dir.path("over");
        std::fs::write(&p2, vec![b'7'; bytes.len() + 100]).unwrap();
        catch(|| save(&p2, fmt()))?.map_err(|e| format!("saving over an existing file fails: {e}"))?;
        let c = catch(|| load(&p2, fmt()))?.map_err(|e| format!("the file saved over a longer one does not load: {e}"))?;
        same(orig, &c, bin).map_err(|e| format!("{what} format, saved over a longer file: {e}"))?;
        // truncations
        let step = if thorough || bytes.len() < 1500 { 1 } else { 3 };
        let pt = dir.path("t");
        let mut n = 0;
        while n < bytes.len() {
            std::fs::write(&pt, &bytes[..n]).unwrap();
            let r = catch(|| load(&pt, fmt())).map_err(|e| format!("loading a {what} file truncated to {n} bytes of {}: {e}", bytes.len()))?;
            if let Ok(c) = r {
                same(orig, &c, bin).map_err(|e| format!("a {what} file truncated to {n} bytes of {} loads as another model: {e}", bytes.len()))?;
            }
            rec.state((what, n, orig.display.len()));
            rec.step(1);
            n += if n + 8 > bytes.len() { 1 } else { step };
        }
        rec.count("truncated files loaded", bytes.len() as u64 / step as u64);
        // damaged structure of text files: never a panic
        if !bin {
            let stride = if thorough { 1 } else { 7 };
            for i in (0..bytes.len()).step_by(stride) {
                for c in [b'"', b'}', b',', b'x', 0xffu8] {
                    let mut b = bytes.clone();
                    b[i] = c;
                    std::fs::write(&pt, &b).unwrap();
                    catch(|| load(&pt, fmt()).is_ok()).map_err(|e| format!("loading a json file with byte {i} set to {c}: {e}"))?;
                    rec.step(1);
                }
            }
        }
        for (n, q) in [("missing file", dir.path("missing")), ("directory", dir.path(".")), ("missing directory", dir.path("no/such/file"))] {
            let r = catch(|| load(&q, fmt())).map_err(|e| format!("loading a {n}: {e}"))?;
            ensure!(r.is_err(), "loading a {n} succeeds");
        }
        for (n, q) in [("directory", dir.path(".")), ("missing directory", dir.path("no/such/file"))] {
            let r = catch(|| save(&q, fmt())).map_err(|e| format!("saving in a {n}: {e}"))?;
            ensure!(r.is_err(), "saving in a {n} succeeds");
        }
    }
    Ok(())
}

macro_rules! opt_dense {
    ($v:ident, $d:expr, $kpls:expr, $($S:ident $m:ident $c:ident),*) => { $(
        $v.push((stringify!($S), Box::new(move || {
            let mut p = $S::new(GpParams::new($m::default(), $c::default()));
            p.n_start(0);
            p.max_eval(25);
            p.kpls_dim($kpls);
            let (x, y) = data($d, 3);
            p.train(&x.view(), &y.view()).unwrap()
        })));
    )* };
}
macro_rules! opt_sparse {
    ($v:ident, $d:expr, $m:expr, $($S:ident $c:ident),*) => { $(
        $v.push((stringify!($S), Box::new(move || {
            let (x, y) = data($d, 3);
            let mut p = $S::new(SgpParams::new($c::default(), Inducings::Randomized(4)));
            p.n_start(0);
            p.max_eval(25);
            p.sparse_method($m);
            p.seed(Some(42));
            p.train(&x.view(), &y.view()).unwrap()
        })));
    )* };
}
type Mk = Box<dyn Fn() -> Box<dyn FullGpSurrogate> + Send + Sync>;
fn all_experts(d: usize, kpls: Option<usize>) -> Vec<(&'static str, Mk)> {
    let mut v: Vec<(&'static str, Mk)> = vec![];
    opt_dense!(v, d, kpls,
        GpConstantSquaredExponentialSurrogateParams ConstantMean SquaredExponentialCorr,
        GpConstantAbsoluteExponentialSurrogateParams ConstantMean AbsoluteExponentialCorr,
        GpConstantMatern32SurrogateParams ConstantMean Matern32Corr,
        GpConstantMatern52SurrogateParams ConstantMean Matern52Corr,
        GpLinearSquaredExponentialSurrogateParams LinearMean SquaredExponentialCorr,
        GpLinearAbsoluteExponentialSurrogateParams LinearMean AbsoluteExponentialCorr,
        GpLinearMatern32SurrogateParams LinearMean Matern32Corr,
        GpLinearMatern52SurrogateParams LinearMean Matern52Corr,
        GpQuadraticSquaredExponentialSurrogateParams QuadraticMean SquaredExponentialCorr,
        GpQuadraticAbsoluteExponentialSurrogateParams QuadraticMean AbsoluteExponentialCorr,
        GpQuadraticMatern32SurrogateParams QuadraticMean Matern32Corr,
        GpQuadraticMatern52SurrogateParams QuadraticMean Matern52Corr);
    if kpls.is_none() {
        for m in [SparseMethod::Fitc, SparseMethod::Vfe] {
            opt_sparse!(v, d, m,
                SgpSquaredExponentialSurrogateParams SquaredExponentialCorr,
                SgpAbsoluteExponentialSurrogateParams AbsoluteExponentialCorr,
                SgpMatern32SurrogateParams Matern32Corr,
                SgpMatern52SurrogateParams Matern52Corr);
        }
    }
    v
}

pub fn m04(cx: &mut Cx) {
    cx.rule = "every kind of surrogate x file format: saved, reloaded, and loaded from every truncation of the file (crash point of the write) and from damaged text".into();
    cx.assumptions = vec![
        "json keeps numbers to their printing precision (content compared at 4 ulps, predictions at 1e-2 of their scale as they may be ill-conditioned functions of it), the binary format is compared bit by bit".into(),
        "damage that is itself a well-formed model (another digit) cannot be told from an intact file".into(),
    ];
    let th = cx.thorough();
    let mut cases = vec![];
    for d in 1..=cx.q(2, 3) {
        for kpls in [None, Some(1)] {
            if kpls.is_some() && d == 1 {
                continue;
            }
            for (i, (n, mk)) in all_experts(d, kpls).into_iter().enumerate() {
                cases.push(case(format!("gp/d{d}/{kpls:?}/{i}-{n}"), move |rec: &mut Rec| {
                    let m = mk();
                    let q = arr2(&queries(d, &vec![vec![0.4; d]])[..7].to_vec());
                    let c = chars_full(&*m, &q)?;
                    // the model itself, through serde
                    let js = serde_json::to_string(&m).map_err(|e| format!("json serialization: {e}"))?;
                    let r: Box<dyn FullGpSurrogate> = catch(|| serde_json::from_str(&js))?.map_err(|e| format!("json deserialization: {e}"))?;
                    same(&c, &chars_full(&*r, &q)?, false).map_err(|e| format!("serde json: {e}"))?;
                    let bs = bincode::serde::encode_to_vec(&m, bincode::config::standard()).map_err(|e| format!("binary serialization: {e}"))?;
                    let (r, used): (Box<dyn FullGpSurrogate>, usize) =
                        catch(|| bincode::serde::decode_from_slice(&bs, bincode::config::standard()))?.map_err(|e| format!("binary deserialization: {e}"))?;
                    ensure!(used == bs.len(), "binary deserialization leaves {} bytes", bs.len() - used);
                    same(&c, &chars_full(&*r, &q)?, true).map_err(|e| format!("serde binary: {e}"))?;
                    let c = chars_gp(&*m, &q)?;
                    check_files(&c, &|p, f| m.save(p, f).map_err(|e| e.to_string()),
                        &|p, f| load(p, f).map_err(|e| e.to_string()).and_then(|m| chars_gp(&*m, &q)), th, rec)
                }));
            }
        }
    }
    for d in 1..=2 {
        for k in 1..=3 {
            for set in 0..SETS.len() {
                for f in [None, Some(0.4)] {
                    cases.push(case(format!("moe/d{d}/k{k}/e{set}/{f:?}"), move |rec: &mut Rec| {
                        let m = base_moe(d, set, k);
                        let (w, mu, c) = (weights(k)[1.min(weights(k).len() - 1)].clone(), means(d, k)[0].clone(), covs(d, false)[0].clone());
                        let m = m.set_gmx(arr1(&w), arr2(&mu), a3(&vec![c; k])).set_recombination(match f {
                            None => Recombination::Hard,
                            f => Recombination::Smooth(f),
                        });
                        let q = arr2(&queries(d, &mu)[..7].to_vec());
                        let c = chars_mix(&m, &q)?;
                        check_files(&c, &|p, f| GpSurrogate::save(&m, p, f).map_err(|e| e.to_string()),
                            &|p, f| GpMixture::load(p, f).map_err(|e| e.to_string()).and_then(|m| chars_mix(&*m, &q)), th, rec)
                    }));
                }
            }
        }
    }
    for (name, x, y) in train_data(th) {
        if name != "1d12-modes" && name != "2d9-blobs" && name != "1d12-repeated" {
            continue;
        }
        for sparse in [false, true] {
            for nb in 1..=2usize {
                let (x, y) = (x.clone(), y.clone());
                cases.push(case(format!("trained/{name}/k{nb}/{sparse}"), move |rec: &mut Rec| {
                    let t = Tr {
                        nb: NbClusters::fixed(nb),
                        rc: Recombination::Smooth(Some(0.7)),
                        re: RegressionSpec::CONSTANT,
                        co: CorrelationSpec::MATERN52,
                        tunings: vec![ThetaTuning::default()],
                        sparse: sparse.then_some(SparseMethod::Vfe),
                        kpls: None,
                        n_start: 0,
                    };
                    let Ok(m) = train(&t, &x, &y)? else {
                        rec.vacuous = true;
                        return Ok(());
                    };
                    let c = chars_mix(&m, &x)?;
                    check_files(&c, &|p, f| GpSurrogate::save(&m, p, f).map_err(|e| e.to_string()),
                        &|p, f| GpMixture::load(p, f).map_err(|e| e.to_string()).and_then(|m| chars_mix(&*m, &x)), th, rec)
                }));
            }
        }
    }
    // mixed-integer mixtures
    let types: Vec<(&str, Vec<XType>)> = vec![
        ("float-int", vec![XType::Float(-1., 2.), XType::Int(0, 4)]),
        ("ord-enum", vec![XType::Ord(vec![1., 2.5, 7.]), XType::Enum(3)]),
        ("enum-float", vec![XType::Enum(2), XType::Float(0., 1.)]),
        ("float", vec![XType::Float(0., 1.)]),
    ];
    for (name, ts) in types {
        for folded in [false, true] {
            for nb in 1..=2usize {
                let ts = ts.clone();
                cases.push(case(format!("mixint/{name}/{folded}/k{nb}"), move |rec: &mut Rec| {
                    use egobox_doe::SamplingMethod;
                    let ctx = MixintContext::new(&ts);
                    let xf = ctx.create_lhs_sampling::<f64>(egobox_doe::LhsKind::Classic, Some(3)).sample(16);
                    let xt = if folded { xf } else { to_continuous_space(&ts, &xf) };
                    let y: Array1<f64> = xt.outer_iter().map(|r| r.iter().enumerate().map(|(j, v)| (v * (1.3 + j as f64)).sin() + 0.3 * v).sum()).collect();
                    let b = GpMixtureParams::<f64>::new()
                        .n_clusters(NbClusters::fixed(nb))
                        .n_start(0)
                        .with_rng(Xoshiro256Plus::seed_from_u64(42));
                    let mut p = MixintGpMixtureParams::new(&ts, &b);
                    p.work_in_folded_space(folded);
                    let m = catch(|| p.check().unwrap().fit(&Dataset::new(xt.clone(), y.clone())))?;
                    let Ok(m) = m else {
                        rec.vacuous = true;
                        return Ok(());
                    };
                    let c = chars_mix(&m, &xt)?;
                    check_files(&c, &|p, f| GpSurrogate::save(&m, p, f).map_err(|e| e.to_string()),
                        &|p, f| MixintGpMixture::load(p, f).map_err(|e| e.to_string()).and_then(|m| chars_mix(&*m, &xt)), th, rec)
                }));
            }
        }
    }
    cx.run(cases);
}
