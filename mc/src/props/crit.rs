//! E11, E12: infill criteria and constraint criteria against their definitions.
use crate::cx::*;
use crate::ensure;
use crate::mock::Mock;
use crate::util::permutations;
use egobox_ego::criteria::*;
#[cfg(egobox_mc)]
use egobox_ego::mc_hooks as hk;
use egobox_ego::{Cstr, EgorConfig, EgorSolver, XType};
use egobox_moe::{GpMixture, GpMixtureParams, GpSurrogate, GpSurrogateExt, MixtureGpSurrogate, NbClusters};
use linfa::prelude::*;
use ndarray::{Array1, Array2, Axis};
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

type Solver = EgorSolver<GpMixtureParams<f64>, Cstr>;

/// without the hook, the same through the constrained criteria of the solver when no feasible point is known
#[cfg(not(egobox_mc))]
mod hk {
    use super::*;
    type Ms<'a> = &'a [Box<dyn MixtureGpSurrogate>];
    fn solver(d: usize, log: bool) -> Solver {
        let xtypes: Vec<XType> = (0..d).map(|_| XType::Float(-10., 10.)).collect();
        let c: Box<dyn InfillCriterion> = if log { Box::new(LOG_EI) } else { Box::new(EI) };
        Solver::new(EgorConfig::default().xtypes(&xtypes).infill_criterion(c).check().unwrap())
    }
    fn val(x: &[f64], ms: Ms, tols: &[f64], log: bool) -> f64 {
        let o = Mock::new(x, 0., &vec![0.; x.len()], 1., &vec![0.; x.len()]);
        -solver(x.len(), log).eval_infill_obj_with_cstrs(x, &o, ms, &tols.iter().copied().collect(), 0., 1., 1., false, 1.)
    }
    fn grad(x: &[f64], ms: Ms, tols: &[f64], log: bool) -> Array1<f64> {
        if ms.is_empty() {
            return Array1::zeros(x.len());
        }
        let o = Mock::new(x, 0., &vec![0.; x.len()], 1., &vec![0.; x.len()]);
        -Array1::from(solver(x.len(), log).eval_grad_infill_obj_with_cstrs(x, &o, ms, &tols.iter().copied().collect(), 0., 1., 1., false, 1.))
    }
    pub fn pofs(x: &[f64], ms: Ms, tols: &[f64]) -> f64 {
        val(x, ms, tols, false)
    }
    pub fn logpofs(x: &[f64], ms: Ms, tols: &[f64]) -> f64 {
        val(x, ms, tols, true)
    }
    pub fn pofs_grad(x: &[f64], ms: Ms, tols: &[f64]) -> Array1<f64> {
        grad(x, ms, tols, false)
    }
    pub fn logpofs_grad(x: &[f64], ms: Ms, tols: &[f64]) -> Array1<f64> {
        grad(x, ms, tols, true)
    }
    pub fn compute_cstr_scales(x: &ndarray::ArrayView2<f64>, ms: Ms) -> Array1<f64> {
        ms.iter()
            .map(|m| {
                let v = m.predict(x).unwrap().iter().fold(0f64, |a, v| a.max(v.abs()));
                if v.is_finite() && v > 0. { v } else { 1. }
            })
            .collect()
    }
}

// ------------------------------------------------------------ reference normal functions
const LOG_SQRT_2PI: f64 = 0.918_938_533_204_672_8;
fn ref_logpdf(u: f64) -> f64 {
    -0.5 * u * u - LOG_SQRT_2PI
}
fn ref_pdf(u: f64) -> f64 {
    ref_logpdf(u).exp()
}
/// c such that the upper tail of the normal at t >= 1 is pdf(t) / (t + c)
fn tail_cf(t: f64) -> f64 {
    let n = if t > 50. { 40 } else { 3000 };
    let mut f = t;
    for k in (2..=n).rev() {
        f = t + k as f64 / f;
    }
    1. / f
}
/// log of the normal cumulative distribution
fn ref_logcdf(u: f64) -> f64 {
    if u <= -1. {
        let t = -u;
        ref_logpdf(t) - (t + tail_cf(t)).ln()
    } else if u >= 1. {
        (-(ref_logcdf(-u).exp())).ln_1p()
    } else {
        // 1/2 + pdf(u) * sum u^(2n+1)/(2n+1)!!
        let (mut t, mut s) = (u, u);
        for n in 1..60 {
            t *= u * u / (2 * n + 1) as f64;
            s += t;
        }
        (0.5 + ref_pdf(u) * s).ln()
    }
}
/// log of h(u) = pdf(u) + u cdf(u), and its derivative cdf/h
fn ref_logh(u: f64) -> (f64, f64) {
    if u <= -1. {
        let t = -u;
        let c = tail_cf(t);
        (ref_logpdf(t) + (c / (t + c)).ln(), 1. / c)
    } else {
        let cdf = ref_logcdf(u).exp();
        let h = ref_pdf(u) + u * cdf;
        (h.ln(), cdf / h)
    }
}

/// relative tolerances (rounding of the difference between the current minimum and the prediction is common to both sides)
fn close(what: &str, got: f64, want: f64, tol: f64) -> R {
    ensure!(!got.is_nan(), "{what} is NaN");
    ensure!(got == want || (got - want).abs() <= tol, "{what} is {got:e} instead of {want:e} (tolerance {tol:e})");
    Ok(())
}

struct Pt {
    p: f64,
    v: f64,
    gp: Vec<f64>,
    gv: Vec<f64>,
}

/// all criteria at one point, given mean, variance and their gradients
fn check_criteria(m: &dyn MixtureGpSurrogate, x: &[f64], pt: &Pt, fmin: f64, ctx: &str, rec: &mut Rec) -> R {
    let d = x.len();
    let certain = pt.v < f64::EPSILON;
    let s = pt.v.sqrt();
    for k in [None, Some(0.1), Some(0.75), Some(1.), Some(3.), Some(100.)] {
        let kk = k.unwrap_or(1.);
        let u = (fmin - pt.p) / (kk * s);
        let (lh, dlh) = ref_logh(u);
        // cdf and pdf at u
        let (cdf, pdf) = (ref_logcdf(u).exp(), ref_pdf(u));
        let ei = if certain { 0. } else { kk * s * lh.exp() };
        let rel = 1e-11 * (1. + u * u).min(1e3);
        let tiny = 1e-300 * (1. + kk * s);
        let sp: Vec<f64> = pt.gv.iter().map(|v| v / (2. * s)).collect();
        let dei: Vec<f64> = (0..d).map(|i| if certain { 0. } else { -cdf * pt.gp[i] + pdf * kk * sp[i] }).collect();
        // cancelling terms of the derivative: diff * pdf * u'
        let mag: Vec<f64> = (0..d)
            .map(|i| {
                let up = (pt.gp[i] / (kk * s)).abs() + (u * sp[i] / s).abs();
                if certain { 0. } else { pdf * (fmin - pt.p).abs() * up + (cdf * pt.gp[i]).abs() + pdf * kk * sp[i].abs() }
            })
            .collect();
        for sc in [None, Some(0.5), Some(-2.)] {
            let c = || format!("{ctx}, minimum {fmin:e}, weight {k:?}, scale {sc:?}");
            let v = EI.value(x, m, fmin, k, sc);
            close(&format!("EI ({})", c()), v, ei, rel * ei + tiny)?;
            let g = EI.grad(x, m, fmin, k, sc);
            ensure!(g.len() == d, "EI gradient has {} components", g.len());
            for i in 0..d {
                close(&format!("EI gradient [{i}] ({})", c()), g[i], dei[i], 1e-11 * mag[i] + 1e-290)?;
            }
            for (w, own) in [(WB2, Some(1.)), (WB2S, None), (WB2Criterion(Some(7.)), Some(7.))] {
                let f = sc.unwrap_or(own.unwrap_or(1.));
                let want = f * ei - pt.p;
                close(&format!("{} ({})", w.name(), c()), w.value(x, m, fmin, k, sc), want, rel * (f * ei).abs() + 1e-14 * pt.p.abs() + tiny)?;
                let g = w.grad(x, m, fmin, k, sc);
                for i in 0..d {
                    let want = f * dei[i] - pt.gp[i];
                    close(&format!("{} gradient [{i}] ({})", w.name(), c()), g[i], want, 1e-11 * (f.abs() * mag[i] + pt.gp[i].abs()) + 1e-290)?;
                }
            }
            rec.step(5 + 5 * d as u64);
        }
        if kk == 1. {
            let v = LOG_EI.value(x, m, fmin, k, None);
            let g = LOG_EI.grad(x, m, fmin, k, None);
            if certain {
                ensure!(v == f64::MIN, "LogEI is {v:e} with a null variance ({ctx})");
                ensure!(g.len() == d && g.iter().all(|v| !v.is_nan()), "gradient of LogEI is {g} with a null variance ({ctx})");
            } else {
                let want = lh + s.ln();
                // erfc underflows from u = -37.5 on, down to the switch to the asymptotic expansion at u = -1e6
                if (-1.0000001e6..-37.4).contains(&u) && (v.is_nan() || g.iter().any(|v| v.is_nan()) || u > -38.6) {
                    rec.kind("logei-hopeless-nan", format!("LogEI is {v:e}, its gradient {g}, instead of {want:e} ({ctx}, minimum {fmin:e}, u {u:e})"));
                    continue;
                }
                close(&format!("LogEI ({ctx}, minimum {fmin:e})"), v, want, 1e-9 + 1e-12 * want.abs() + 1e-14 * (u * u).min(1e12))?;
                for i in 0..d {
                    let up = -pt.gp[i] / s - u * sp[i] / s;
                    let upm = (pt.gp[i] / s).abs() + (u * sp[i] / s).abs();
                    let want = dlh * up + sp[i] / s;
                    let t = upm * (dlh * 1e-9 + 1e-14 * u.abs().min(2e6).powi(3)) + 1e-12 * (sp[i] / s).abs() + 1e-290;
                    close(&format!("LogEI gradient [{i}] ({ctx}, minimum {fmin:e}, u {u:e})"), g[i], want, t)?;
                }
            }
            rec.step(1 + d as u64);
        }
    }
    Ok(())
}

fn us() -> Vec<f64> {
    let mut v = vec![0.];
    for a in [1e-8, 1e-3, 0.3, 0.5, 0.99, 0.999999, 1., 1.000001, 1.01, 1.5, 2., 5., 8., 10., 15., 20., 25., 30., 35., 35.4, 36., 37., 37.5, 38., 38.4, 39., 40., 50., 100., 1e3, 1e4, 1e5, 9.9e5, 1e6, 1.1e6, 1e8, 1e12] {
        v.push(a);
        v.push(-a);
    }
    v
}

/// trained models with their query points
fn real_models(thorough: bool) -> Vec<(String, GpMixture, Vec<Vec<f64>>)> {
    let mut out = vec![];
    let f = |r: &[f64]| -> f64 { r.iter().enumerate().map(|(j, v)| (v * (1.1 + j as f64)).sin() + 0.2 * v).sum() };
    for d in 1..=if thorough { 3 } else { 2 } {
        for k in 1..=2 {
            for scale in [1e-9, 1e-6, 1., 1e8] {
                let n = 8 + 4 * d;
                let x = Array2::from_shape_fn((n, d), |(i, j)| {
                    let t = (i * (7 * j + 3) + 5 * j) % n;
                    10. * t as f64 / n as f64 - 4.
                });
                let y: Array1<f64> = x.outer_iter().map(|r| scale * f(&r.to_vec())).collect();
                let m = catch(|| {
                    GpMixture::params()
                        .n_clusters(NbClusters::fixed(k))
                        .n_start(1)
                        .with_rng(Xoshiro256Plus::seed_from_u64(42))
                        .fit(&Dataset::new(x.clone(), y))
                });
                let Ok(Ok(m)) = m else { continue };
                let mut q: Vec<Vec<f64>> = x.outer_iter().take(4).map(|r| r.to_vec()).collect();
                for t in [-4.7, -3.1, -0.05, 0.33, 2.2, 9., 40., 1e5] {
                    q.push((0..d).map(|j| t * (1. - 0.3 * j as f64)).collect());
                    q.push((0..d).map(|j| if j == 0 { t } else { 0.5 }).collect());
                }
                for r in x.outer_iter().take(2) {
                    for e in [1e-9, 1e-7, 1e-5, 1e-3] {
                        q.push(r.iter().map(|v| v + e).collect());
                    }
                }
                out.push((format!("d{d}/k{k}/y{scale:e}"), m, q));
            }
        }
    }
    out
}
fn pt_of(m: &dyn MixtureGpSurrogate, x: &[f64]) -> Result<Pt, String> {
    let q = Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
    let e = |e: egobox_moe::MoeError| e.to_string();
    let (p, v) = m.predict_valvar(&q.view()).map_err(e)?;
    let (gp, gv) = m.predict_valvar_gradients(&q.view()).map_err(e)?;
    Ok(Pt {
        p: p[0],
        v: v[0],
        gp: gp.row(0).to_vec(),
        gv: gv.row(0).to_vec(),
    })
}

const XS: [f64; 3] = [0.3, -1.2, 7.];
const VARS: [f64; 10] = [0., 1e-20, 2.0e-16, 2.5e-16, 1e-14, 1e-8, 1e-3, 1., 1e6, 1e14];

pub fn e11(cx: &mut Cx) {
    cx.rule = "mean x variance x gradients of the surrogate x current minimum x standard-deviation weight x scale over alphabets (improvements from hopeless to certain), values and gradients of every criterion compared with an independent continued-fraction evaluation of their definitions; same on trained mixtures; scaling of WB2S recomputed".into();
    cx.assumptions = vec!["below a variance of machine epsilon EI is zero and LogEI is the lowest number, by convention".into()];
    let th = cx.thorough();
    let grads: Vec<Vec<f64>> = vec![vec![0., 0., 0.], vec![1., -2., 0.5], vec![-1e3, 1e-3, 0.], vec![1e-6, 0., 30.]];
    let mut cases = vec![];
    for d in 1..=3usize {
        for v in VARS {
            let grads = grads.clone();
            cases.push(case(format!("mock/d{d}/v{v:e}"), move |rec: &mut Rec| {
                for fmin in [0., 1., -3., 1e5, -1e-6] {
                    for u in us() {
                        let p = fmin - u * v.max(f64::EPSILON).sqrt();
                        for gm in &grads {
                            for gv in &grads {
                                let gv: Vec<f64> = gv[..d].iter().map(|g| g * v.max(1e-16)).collect();
                                let m = Mock::new(&XS[..d], p, &gm[..d], v, &gv);
                                let pt = Pt { p, v, gp: gm[..d].to_vec(), gv };
                                check_criteria(&m, &XS[..d], &pt, fmin, &format!("mean {p:e}, variance {v:e}"), rec)?;
                                rec.state((p.to_bits(), v.to_bits(), fmin.to_bits(), d));
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    for (name, m, q) in real_models(th) {
        cases.push(case(format!("model/{name}"), move |rec: &mut Rec| {
            let y = &egobox_moe::GpQualityAssurance::training_data(&m).1;
            let ymin = y.iter().cloned().fold(f64::INFINITY, f64::min);
            let ymax = y.iter().cloned().fold(-f64::INFINITY, f64::max);
            for x in &q {
                let pt = pt_of(&m, x)?;
                for fmin in [ymin, ymax, ymin - 10. * (ymax - ymin), 0.] {
                    check_criteria(&m, x, &pt, fmin, &format!("point {x:?}"), rec)?;
                    rec.state((x.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), fmin.to_bits()));
                }
            }
            // scaling of WB2S: 100 * |prediction| / EI at the point of largest EI
            let xs = Array2::from_shape_fn((q.len(), m.dims().0), |(i, j)| q[i][j]);
            for k in [None, Some(0.1), Some(10.)] {
                let eis: Vec<f64> = q.iter().map(|x| EI.value(x, &m, ymin, k, None)).collect();
                let im = (0..q.len()).fold(0, |b, i| if eis[i] > eis[b] { i } else { b });
                let want = if eis[im].abs() > 100. * f64::EPSILON {
                    100. * m.predict(&xs.row(im).insert_axis(Axis(0))).unwrap()[0].abs() / eis[im]
                } else {
                    1.
                };
                close(&format!("scaling of WB2S ({k:?})"), WB2S.scaling(&xs.view(), &m, ymin, k), want, 1e-9 * want.abs())?;
                close("scaling of WB2", WB2.scaling(&xs.view(), &m, ymin, k), 1., 0.)?;
                close("scaling of EI", EI.scaling(&xs.view(), &m, ymin, k), 1., 0.)?;
            }
            Ok(())
        }));
    }
    cx.run(cases);
}

// ------------------------------------------------------------ constraints
struct CPt {
    pt: Pt,
    tol: f64,
}
impl CPt {
    fn certain(&self) -> bool {
        self.pt.v < f64::EPSILON
    }
    fn u(&self) -> f64 {
        (self.tol - self.pt.p) / self.pt.v.sqrt()
    }
    fn pof(&self) -> f64 {
        if self.certain() { 0. } else { ref_logcdf(self.u()).exp() }
    }
    fn dpof(&self, i: usize) -> (f64, f64) {
        if self.certain() {
            return (0., 0.);
        }
        let (s, u) = (self.pt.v.sqrt(), self.u());
        let sp = self.pt.gv[i] / (2. * s);
        let (a, b) = (-self.pt.gp[i] / s, -u * sp / s);
        let pdf = ref_pdf(u);
        (pdf * (a + b), pdf * (a.abs() + b.abs()))
    }
}

fn check_pofs(ms: &[Box<dyn MixtureGpSurrogate>], cs: &[CPt], x: &[f64], extra_tols: usize, rec: &mut Rec) -> R {
    let d = x.len();
    let mut tols: Vec<f64> = cs.iter().map(|c| c.tol).collect();
    tols.extend(vec![0.25; extra_tols]);
    let ctx = || {
        cs.iter()
            .map(|c| format!("mean {:e} variance {:e} tolerance {:e}", c.pt.p, c.pt.v, c.tol))
            .collect::<Vec<_>>()
            .join("; ")
    };
    let want: f64 = cs.iter().map(|c| c.pof()).product();
    close(&format!("product of probabilities of feasibility ({})", ctx()), hk::pofs(x, ms, &tols), want, 1e-10 * want + 1e-300)?;
    let lwant: f64 = cs.iter().map(|c| c.pof().max(f64::EPSILON).ln()).sum();
    close(&format!("log of probabilities of feasibility ({})", ctx()), hk::logpofs(x, ms, &tols), lwant, 1e-9 * (1. + lwant.abs()))?;
    let g = hk::pofs_grad(x, ms, &tols);
    let lg = hk::logpofs_grad(x, ms, &tols);
    ensure!(g.len() == d && lg.len() == d, "gradients of {} / {} components", g.len(), lg.len());
    let floored = cs.iter().any(|c| c.pof() < 2. * f64::EPSILON);
    for i in 0..d {
        let (mut w, mut mag, mut lw, mut lmag) = (0., 0., 0., 0.);
        for (j, c) in cs.iter().enumerate() {
            let others: f64 = cs.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, c)| c.pof()).product();
            let (a, b) = c.dpof(i);
            w += a * others;
            mag += b * others;
            lw += a / c.pof();
            lmag += b / c.pof();
        }
        close(&format!("gradient [{i}] of the probabilities of feasibility ({})", ctx()), g[i], w, 1e-10 * mag + 1e-290)?;
        ensure!(!lg[i].is_nan(), "gradient of the log of probabilities of feasibility is NaN ({})", ctx());
        if !floored {
            close(&format!("gradient [{i}] of the log of probabilities of feasibility ({})", ctx()), lg[i], lw, 1e-9 * lmag + 1e-290)?;
        }
    }
    rec.step(2 + 2 * d as u64);
    Ok(())
}

/// all orderings of all non-empty subsets, with markers (index d) to be ignored
fn actives(d: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for s in crate::util::subsets(d) {
        for p in permutations(s.len()) {
            let a: Vec<usize> = p.iter().map(|&i| s[i]).collect();
            if !a.is_empty() {
                out.push(a.clone());
            }
            let mut b = a;
            b.push(d);
            if b.len() > 1 {
                out.push(b);
            }
        }
    }
    out
}

fn check_bounds(m: &dyn MixtureGpSurrogate, pt: &Pt, x: &[f64], rec: &mut Rec) -> R {
    let d = x.len();
    let s = pt.v.sqrt();
    for scale in [1., 0.01, 250.] {
        for a in actives(d) {
            let idx: Vec<usize> = a.iter().copied().filter(|&i| i < d).collect();
            let mut g = vec![0.; idx.len()];
            let c = || format!("mean {:e} variance {:e}, scale {scale}, active {a:?}", pt.p, pt.v);
            let v = Solver::mean_cstr(m, x, Some(&mut g), scale, &a);
            close(&format!("mean constraint ({})", c()), v, pt.p / scale, 1e-12 * pt.p.abs() / scale)?;
            for (k, &i) in idx.iter().enumerate() {
                close(&format!("gradient of the mean constraint wrt component {i} ({})", c()), g[k], pt.gp[i] / scale, 1e-12 * pt.gp[i].abs() / scale)?;
            }
            let v = Solver::upper_trust_bound_cstr(m, x, Some(&mut g), scale, &a);
            close(&format!("upper trust bound ({})", c()), v, (pt.p + 3. * s) / scale, 1e-12 * (pt.p.abs() + 3. * s) / scale)?;
            if s > f64::EPSILON || pt.gv.iter().all(|v| *v == 0.) {
                for (k, &i) in idx.iter().enumerate() {
                    let sp = if s > 0. { pt.gv[i] / (2. * s) } else { 0. };
                    close(&format!("gradient of the upper trust bound wrt component {i} ({})", c()), g[k], (pt.gp[i] + 3. * sp) / scale, 1e-12 * (pt.gp[i].abs() + 3. * sp.abs()) / scale)?;
                }
            }
            ensure!(Solver::mean_cstr(m, x, None, scale, &a) == pt.p / scale || scale != 1., "mean constraint differs without gradient");
            rec.step(2 + 2 * idx.len() as u64);
        }
    }
    Ok(())
}

/// infill objective combined with constraints
fn check_combined(obj: &dyn MixtureGpSurrogate, opt: &Pt, ms: &[Box<dyn MixtureGpSurrogate>], cs: &[CPt], x: &[f64], rec: &mut Rec) -> R {
    let d = x.len();
    let xtypes: Vec<XType> = (0..d).map(|_| XType::Float(-10., 10.)).collect();
    let tols: Array1<f64> = cs.iter().map(|c| c.tol).collect();
    let floored = cs.iter().any(|c| c.pof() < 2. * f64::EPSILON) || opt.v < f64::EPSILON;
    for (log, crit) in [
        (true, Box::new(LOG_EI) as Box<dyn InfillCriterion>),
        (false, Box::new(EI) as Box<dyn InfillCriterion>),
        (false, Box::new(WB2S) as Box<dyn InfillCriterion>),
    ] {
        let config = EgorConfig::default().xtypes(&xtypes).infill_criterion(crit.clone()).check().map_err(|e| e.to_string())?;
        let solver = Solver::new(config);
        for fmin in [opt.p + 0.7, opt.p - 1.3] {
            for (scale, scic) in [(1., 1.), (3., 0.5)] {
                for feas in [true, false] {
                    for w in [1., 0.1, 10.] {
                        let base = -crit.value(x, obj, fmin, Some(w), Some(scic)) / scale;
                        let bg = -crit.grad(x, obj, fmin, Some(w), Some(scic)) / scale;
                        let pof: f64 = cs.iter().map(|c| c.pof()).product();
                        let lpof: f64 = cs.iter().map(|c| c.pof().max(f64::EPSILON).ln()).sum();
                        let (pg, lpg) = (hk::pofs_grad(x, ms, &tols.to_vec()), hk::logpofs_grad(x, ms, &tols.to_vec()));
                        let v = solver.eval_infill_obj_with_cstrs(x, obj, ms, &tols, fmin, scale, scic, feas, w);
                        let g = solver.eval_grad_infill_obj_with_cstrs(x, obj, ms, &tols, fmin, scale, scic, feas, w);
                        let c = || format!("{} with {} constraints, minimum {fmin:e}, scale {scale}, feasible {feas}, weight {w}", crit.name(), cs.len());
                        let (want, wg): (f64, Array1<f64>) = match (log, feas) {
                            (true, true) => (base - lpof, &bg - &lpg),
                            (true, false) => (-lpof, -lpg.clone()),
                            (false, true) => (base * pof, &bg * pof + &pg * base),
                            (false, false) => (-pof, -pg.clone()),
                        };
                        close(&format!("constrained criterion ({})", c()), v, want, 1e-9 * (want.abs() + base.abs()) + 1e-300)?;
                        if !floored && (feas || !cs.is_empty()) {
                            for i in 0..d {
                                let mag = bg[i].abs() + pg[i].abs() * (1. + base.abs()) + lpg[i].abs();
                                close(&format!("gradient [{i}] of the constrained criterion ({})", c()), g[i], wg[i], 1e-9 * mag + 1e-290)?;
                            }
                        }
                        if feas {
                            let g0 = solver.eval_grad_infill_obj(x, obj, fmin, scale, scic, w);
                            for i in 0..d {
                                close(&format!("gradient [{i}] of the criterion ({})", c()), g0[i], bg[i], 1e-9 * bg[i].abs())?;
                            }
                        }
                        rec.step(2);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn e12(cx: &mut Cx) {
    cx.rule = "mean x variance x gradients of each constraint surrogate x tolerance over alphabets, 0 to 3 constraints, compared with the definitions (probability of feasibility, its log, products, gradients; mean and upper trust bound scaled and restricted to every ordered subset of components; combination with the infill criterion; scaling factors)".into();
    cx.assumptions = vec!["a constraint whose variance is below machine epsilon has no chance to be feasible, by convention; the log of a probability is floored at the log of machine epsilon".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    let vars: Vec<f64> = if th { VARS.to_vec() } else { vec![0., 2.5e-16, 1e-8, 1., 1e6] };
    let gs: Vec<Vec<f64>> = vec![vec![0., 0., 0.], vec![1., -2., 0.5], vec![-0.1, 3., 1e3]];
    let uu = [-30., -8.5, -5., -1., -0.2, 0., 0.5, 1., 3., 9., 40.];
    for d in 1..=3usize {
        for v in vars.clone() {
            let gs = gs.clone();
            cases.push(case(format!("one/d{d}/v{v:e}"), move |rec: &mut Rec| {
                let x = &XS[..d];
                for tol in [0., 1e-4, 0.5, -0.1, 1e3] {
                    for u in uu {
                        let p = tol - u * v.max(f64::EPSILON).sqrt();
                        for gm in &gs {
                            for gv in &gs {
                                let gv: Vec<f64> = gv[..d].iter().map(|g| g * v).collect();
                                let pt = Pt { p, v, gp: gm[..d].to_vec(), gv: gv.clone() };
                                let m = Mock::new(x, p, &gm[..d], v, &gv);
                                check_bounds(&m, &pt, x, rec)?;
                                let ms: Vec<Box<dyn MixtureGpSurrogate>> = vec![Box::new(m)];
                                for extra in 0..2 {
                                    check_pofs(&ms, &[CPt { pt: Pt { p, v, gp: gm[..d].to_vec(), gv: gv.clone() }, tol }], x, extra, rec)?;
                                }
                                rec.state((p.to_bits(), v.to_bits(), tol.to_bits(), d));
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
        // several constraints: all combinations of a smaller alphabet
        let alpha: Vec<(f64, f64, f64, usize)> = vec![(0.4, 1., 0., 1), (-0.7, 0.25, 0.1, 2), (1e-4, 1e-6, 1e-4, 1), (-5., 1., 0., 0), (6., 1., 0.5, 2), (0.3, 0., 0.5, 0)];
        let na = alpha.len();
        for nc in 0..=3usize {
            for w in crate::util::odometer(&vec![na; nc]) {
                let (alpha, gs) = (alpha.clone(), gs.clone());
                let w2: Vec<usize> = w.clone();
                cases.push(case(format!("many/d{d}/{w:?}"), move |rec: &mut Rec| {
                    let x = &XS[..d];
                    let mk = |i: usize| {
                        let (p, v, tol, g) = alpha[i];
                        let gv: Vec<f64> = gs[(g + 1) % 3][..d].iter().map(|g| g * v).collect();
                        (Pt { p, v, gp: gs[g][..d].to_vec(), gv }, tol)
                    };
                    let mut ms: Vec<Box<dyn MixtureGpSurrogate>> = vec![];
                    let mut cs = vec![];
                    for &i in &w2 {
                        let (pt, tol) = mk(i);
                        ms.push(Box::new(Mock::new(x, pt.p, &pt.gp, pt.v, &pt.gv)));
                        cs.push(CPt { pt, tol });
                    }
                    check_pofs(&ms, &cs, x, 0, rec)?;
                    check_pofs(&ms, &cs, x, 1, rec)?;
                    for (op, ov) in [(0.4, 1.), (2., 0.01), (-1., 0.)] {
                        let gv: Vec<f64> = gs[1][..d].iter().map(|g| g * ov).collect();
                        let opt = Pt { p: op, v: ov, gp: gs[2][..d].to_vec(), gv };
                        let obj = Mock::new(x, op, &opt.gp, ov, &opt.gv);
                        check_combined(&obj, &opt, &ms, &cs, x, rec)?;
                    }
                    // scaling factors: positive, largest mean magnitude
                    let xs = Array2::from_shape_fn((3, d), |(i, j)| XS[j] + i as f64 * 0.25);
                    let sc = hk::compute_cstr_scales(&xs.view(), &ms);
                    ensure!(sc.len() == ms.len(), "{} scales", sc.len());
                    for (k, m) in ms.iter().enumerate() {
                        let want = m.predict(&xs.view()).unwrap().iter().fold(0f64, |a, v| a.max(v.abs()));
                        close("scale of a constraint", sc[k], want, 1e-12 * want)?;
                    }
                    Ok(())
                }));
            }
        }
        cases.push(case(format!("scales/d{d}"), move |rec: &mut Rec| {
            let xs = Array2::from_shape_fn((3, d), |(i, j)| XS[j] + i as f64 * 0.25);
            for p in [0., -0., 1e-320, 1e-12, 5., -7., f64::INFINITY, -1e300] {
                let ms: Vec<Box<dyn MixtureGpSurrogate>> = vec![Box::new(Mock::new(&XS[..d], p, &[0.; 3][..d], 1., &[0.; 3][..d]))];
                let sc = catch(|| hk::compute_cstr_scales(&xs.view(), &ms))?[0];
                ensure!(sc.is_finite() && sc > 0., "scale of a constraint predicted as {p:e} everywhere is {sc:e}");
                rec.step(1);
            }
            Ok(())
        }));
    }
    for (name, m, q) in real_models(th) {
        let ms: Vec<Box<dyn MixtureGpSurrogate>> = vec![Box::new(m)];
        cases.push(case(format!("model/{name}"), move |rec: &mut Rec| {
            for x in &q {
                for tol in [0., 1e-4, 0.5] {
                    check_pofs(&ms, &[CPt { pt: pt_of(&*ms[0], x)?, tol }], x, 0, rec)?;
                }
                let pt = pt_of(&*ms[0], x)?;
                check_bounds(&*ms[0], &pt, x, rec)?;
                rec.state(x.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
            }
            Ok(())
        }));
    }
    
    cx.run(cases);
}
