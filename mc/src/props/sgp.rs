//! G04 (tuning), G05 (sparse posterior), G06 (trajectories), G07 (metrics), and the sparse halves of G02, G03.
use super::gp::{check_batching as batching, halton, tol};
use super::gpcommon::*;
use crate::cx::*;
use crate::ensure;
use crate::refgp::*;
use crate::util::*;
use egobox_gp::{Inducings, ParamTuning, ThetaTuning};
use egobox_moe::{CorrelationSpec, GpMixtureParams, GpQualityAssurance, GpType, IaeAlphaPlotData, NbClusters, Recombination, RegressionSpec};
use linfa::Dataset;
use linfa::prelude::Fit;
use ndarray::{Array1, Array2};
use rand::RngCore;
use std::cell::RefCell;
use std::rc::Rc;

fn cloud(d: usize, n: usize) -> M {
    let mut x = halton(d, n + 3);
    x.remove(1);
    x.truncate(n);
    x
}

fn wq(d: usize) -> M {
    let lv = [-1.2, 0.33, 1.21, 2.7, 7.5];
    (0..5).map(|k| (0..d).map(|j| lv[(k + 2 * j) % 5] + 0.05 * j as f64).collect()).collect()
}

// ---------------------------------------------------------------- G05

struct SConf {
    d: usize,
    kern: Kern,
    vfe: bool,
    n: usize,
}

fn sparse_models(c: &SConf, thorough: bool, all_z: bool, rec: &mut Rec, mut f: impl FnMut(&M, &[f64], &dyn Gp, &Sparse, &str, &mut Rec) -> R) -> R {
    let x = cloud(c.d, c.n);
    let mut zs: Vec<(String, Option<M>, Option<usize>)> = vec![];
    let subs = subsets(c.n);
    for s in subs.iter().filter(|s| !s.is_empty() && (all_z || thorough || s.len() == c.n || s.len() == 2 || s.len() == c.n - 2)) {
        zs.push((format!("z={s:?}"), Some(s.iter().map(|&i| x[i].clone()).collect()), None));
    }
    zs.push(("off-grid".into(), Some(wq(c.d)[..3].to_vec()), None));
    for m in [1, 3, c.n, c.n + 4] {
        zs.push((format!("random {m}"), None, Some(m)));
    }
    let noises = [ParamTuning::Fixed(1e-2), ParamTuning::Fixed(0.4), ParamTuning::Optimized { init: 1e-2, bounds: (1e-4, 1.) }];
    for pat in if thorough { vec![0, 1, 2, 5] } else { vec![0, 1] } {
        let y: V = outputs(pat, &x).iter().map(|v| if pat == 5 { v - 100. } else { *v }).collect();
        for (zi, (zl, z, m)) in zs.iter().enumerate() {
            for (ti, th) in [0.8, 2.2].iter().enumerate() {
                for (ki, noise) in noises.iter().enumerate() {
                    if !thorough && (zi + ti + ki + pat) % 2 == 1 {
                        continue;
                    }
                    let theta: V = (0..c.d).map(|j| th * (1. + 0.3 * j as f64)).collect();
                    let tag = format!("{:?} vfe {} {zl} theta {theta:?} noise {noise:?} outputs {pat} {y:?} x {x:?}", c.kern, c.vfe);
                    let cfg = SgpCfg {
                        kern: c.kern,
                        vfe: c.vfe,
                        tuning: ThetaTuning::Fixed(Array1::from_vec(theta.clone())),
                        noise: noise.clone(),
                        inducings: match (z, m) {
                            (Some(z), _) => Inducings::Located(arr2(z)),
                            (_, Some(m)) => Inducings::Randomized(*m),
                            _ => unreachable!(),
                        },
                        kpls: None,
                        n_start: 0,
                        max_eval: 30,
                        nugget: Some(1e-9),
                        seed: Some(7),
                    };
                    let gp = match catch(|| fit_sgp(&cfg, &arr2(&x), &arr1(&y))) {
                        Ok(Ok(g)) => g,
                        Ok(Err(e)) | Err(e) => return Err(format!("fit failed: {e} for {tag}")),
                    };
                    let zz = mat(&gp.inducings().unwrap());
                    if let Some(z) = z {
                        ensure!(&zz == z, "inducing points {zz:?} instead of the given ones: {tag}");
                    } else {
                        ensure!(zz.len() == m.unwrap().min(c.n), "{} inducing points: {tag}", zz.len());
                        let mut idx: Vec<usize> = vec![];
                        for p in &zz {
                            match x.iter().position(|q| q == p) {
                                Some(i) => idx.push(i),
                                None => return Err(format!("inducing point {p:?} is not a training input: {tag}")),
                            }
                        }
                        idx.sort();
                        idx.dedup();
                        ensure!(idx.len() == zz.len(), "repeated inducing points: {tag}");
                        let g2 = fit_sgp(&cfg, &arr2(&x), &arr1(&y))?;
                        ensure!(g2.inducings() == gp.inducings(), "same seed, other inducing points: {tag}");
                    }
                    ensure!(gp.theta().to_vec() == theta, "theta {:?} is not the fixed one: {tag}", gp.theta());
                    match noise {
                        ParamTuning::Fixed(v) => ensure!(gp.noise() == *v, "noise {} is not the fixed one: {tag}", gp.noise()),
                        ParamTuning::Optimized { bounds, .. } => {
                            ensure!(gp.noise() >= bounds.0 * (1. - 1e-9) && gp.noise() <= bounds.1 * (1. + 1e-9), "noise {} out of bounds: {tag}", gp.noise())
                        }
                    }
                    ensure!(gp.dims() == (c.d, 1), "dims {:?}: {tag}", gp.dims());
                    let Some(rf) = Sparse::new(&x, &y, c.kern, &theta, eye(c.d), gp.variance(), gp.noise(), &zz, c.vfe, 1e-9) else {
                        rec.count("reference_singular", 1);
                        continue;
                    };
                    if rf.cond > 1e8 {
                        rec.count("ill_conditioned", 1);
                        continue;
                    }
                    rec.trace();
                    rec.state((c.d, c.kern, c.vfe, c.n, zi, ti, ki, pat));
                    f(&x, &y, gp.as_ref(), &rf, &tag, rec)?;
                }
            }
        }
    }
    Ok(())
}

fn sconfs(cx: &Cx) -> Vec<SConf> {
    let mut out = vec![];
    for kern in KERNS {
        for vfe in [false, true] {
            for (d, n) in if cx.thorough() { vec![(1, 5), (1, 6), (2, 6), (3, 7), (3, 8)] } else { vec![(1, 5), (2, 6), (3, 6)] } {
                out.push(SConf { d, kern, vfe, n });
            }
        }
    }
    out
}

pub fn g05(cx: &mut Cx) {
    cx.rule = "all subsets of 5-6 (8 thorough) training inputs as inducing points, points outside the training inputs and random selections, x kernels x FITC/VFE x noise settings x hyperparameters x outputs; every trained model compared to the reference computed with full n x n matrices; distinct states = trained models".into();
    cx.assumptions = vec!["condition number below 1e8".into()];
    let th = cx.thorough();
    let cases = sconfs(cx)
        .into_iter()
        .map(|c| {
            case(format!("{:?}-{}-d{}-n{}", c.kern, if c.vfe { "vfe" } else { "fitc" }, c.d, c.n), move |rec: &mut Rec| {
                sparse_models(&c, th, true, rec, |x, y, gp, rf, tag, rec| {
                    let qs: M = wq(c.d).into_iter().chain(x.clone()).collect();
                    let ymag = y.iter().fold(0f64, |m, v| m.max(v.abs()));
                    let (m, v) = (gp.predict(&arr2(&qs)), gp.var(&arr2(&qs)));
                    let all = rf.z.len() == x.len();
                    // exact noisy process, when every training input is an inducing point
                    let exact = if all {
                        let k: M = x.iter().map(|p| x.iter().map(|q| rf.s2 * corr(c.kern, &p.iter().zip(q).map(|(a, b)| D::c(a - b)).collect::<Vec<_>>(), &rf.w, &rf.theta).0).collect()).collect();
                        let mut kn = k.clone();
                        for i in 0..x.len() {
                            kn[i][i] += rf.noise;
                        }
                        chol(&kn)
                    } else {
                        None
                    };
                    for (i, q) in qs.iter().enumerate() {
                        let rm = rf.mean(q);
                        let rv = rf.cov(q, q).max(1e-15) + rf.noise;
                        rec.max("mean_err_over_tol", (m[i] - rm).abs() / tol(rf.cond, 10. * ymag));
                        ensure!((m[i] - rm).abs() <= tol(rf.cond, 10. * ymag), "mean at {q:?}: {} instead of {rm}: {tag}", m[i]);
                        rec.max("var_err_over_tol", (v[i] - rv).abs() / tol(rf.cond, 10. * (rf.s2 + rf.noise)));
                        ensure!((v[i] - rv).abs() <= tol(rf.cond, 10. * (rf.s2 + rf.noise)), "variance at {q:?}: {} instead of {rv}: {tag}", v[i]);
                        if let Some(l) = &exact {
                            let kx: V = x.iter().map(|p| rf.s2 * corr(c.kern, &p.iter().zip(q).map(|(a, b)| D::c(a - b)).collect::<Vec<_>>(), &rf.w, &rf.theta).0).collect();
                            let em = dot(&kx, &csolve(l, y));
                            let ev = rf.s2 - dot(&kx, &csolve(l, &kx)) + rf.noise;
                            let t = 1e-6 * rf.cond.max(10.);
                            ensure!((m[i] - em).abs() <= t * ymag, "all inputs inducing, mean at {q:?}: {} instead of the exact {em}: {tag}", m[i]);
                            ensure!((v[i] - ev).abs() <= t * (rf.s2 + rf.noise), "all inputs inducing, variance at {q:?}: {} instead of the exact {ev}: {tag}", v[i]);
                        }
                        rec.step(1);
                    }
                    let lm = rf.lkh.abs().max(10.);
                    rec.max("lkh_err_over_tol", (gp.lkh() - rf.lkh).abs() / tol(rf.cond, 10. * lm));
                    ensure!((gp.lkh() - rf.lkh).abs() <= tol(rf.cond, 100. * lm), "likelihood {} instead of {}: {tag}", gp.lkh(), rf.lkh);
                    Ok(())
                })?;
                sparse_floor(&c, rec)
            })
        })
        .collect();
    cx.run(cases);
}

/// nearly singular models: no reference, but variances are finite and include the noise
fn sparse_floor(c: &SConf, rec: &mut Rec) -> R {
    let x = cloud(c.d, c.n);
    let qs: M = wq(c.d).into_iter().chain(x.clone()).chain(x.windows(2).map(|w| (0..c.d).map(|j| 0.5 * (w[0][j] + w[1][j])).collect())).collect();
    for (unit, pat) in [(1., 0), (1e-6, 1), (1e4, 0)] {
        let y: V = outputs(pat, &x).iter().map(|v| v * unit).collect();
        for th in [0.3, 0.05, 5e-3] {
            for noise in [1e-2, 1e-6, 1e-10] {
                for z in [x.clone(), x[..c.n / 2].to_vec(), x[..1].to_vec()] {
                    let tag = format!("theta {th} noise {noise} unit {unit} outputs {pat} {} inducing points", z.len());
                    let cfg = SgpCfg {
                        kern: c.kern,
                        vfe: c.vfe,
                        tuning: ThetaTuning::Fixed(Array1::from_elem(c.d, th)),
                        noise: ParamTuning::Fixed(noise),
                        inducings: Inducings::Located(arr2(&z)),
                        kpls: None,
                        n_start: 0,
                        max_eval: 20,
                        nugget: None,
                        seed: Some(7),
                    };
                    let Ok(Ok(gp)) = catch(|| fit_sgp(&cfg, &arr2(&x), &arr1(&y))) else {
                        rec.count("floor_not_trained", 1);
                        continue;
                    };
                    rec.trace();
                    rec.state((c.d, c.kern, c.vfe, "floor", th.to_bits(), noise.to_bits(), z.len(), pat, unit as u64));
                    let v = gp.var(&arr2(&qs));
                    for (q, v) in qs.iter().zip(&v) {
                        rec.step(1);
                        ensure!(v.is_finite() && *v >= noise * (1. - 1e-9), "variance at {q:?}: {v} below the noise: {tag}");
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn g02_sparse(cx: &Cx) {
    let th = cx.thorough();
    let cases = sconfs(cx)
        .into_iter()
        .map(|c| {
            case(format!("sparse-{:?}-{}-d{}-n{}", c.kern, if c.vfe { "vfe" } else { "fitc" }, c.d, c.n), move |rec: &mut Rec| {
                sparse_models(&c, th, false, rec, |x, y, gp, rf, tag, rec| {
                    // differentiable and away from the kinks of the rough kernels
                    let qs: M = wq(c.d)
                        .into_iter()
                        .filter(|q| x.iter().chain(rf.z.iter()).all(|t| t.iter().zip(q).all(|(a, b)| (a - b).abs() > 1e-2)))
                        .collect();
                    let ymag = y.iter().fold(0f64, |m, v| m.max(v.abs()));
                    if qs.is_empty() {
                        return Ok(());
                    }
                    let (g, vg) = (gp.grad(&arr2(&qs)), gp.vgrad(&arr2(&qs)));
                    ensure!(g.dim() == (qs.len(), c.d) && vg.dim() == g.dim(), "gradient shapes: {tag}");
                    for (i, q) in qs.iter().enumerate() {
                        for j in 0..c.d {
                            let fd = |f: &dyn Fn(&V) -> f64| {
                                let at = |h: f64| {
                                    let mut p = q.clone();
                                    p[j] += h;
                                    f(&p)
                                };
                                let h = 1e-3;
                                (8. * (at(h) - at(-h)) - (at(2. * h) - at(-2. * h))) / (12. * h)
                            };
                            let dm = fd(&|p: &V| rf.mean(p));
                            let dv = fd(&|p: &V| rf.cov(p, p));
                            let t = 1e-6 + 1e-10 * rf.cond;
                            rec.max("sparse_grad_err_over_tol", (g[[i, j]] - dm).abs() / (t * ymag));
                            ensure!((g[[i, j]] - dm).abs() <= t * ymag, "sparse mean gradient {j} at {q:?}: {} instead of {dm}: {tag}", g[[i, j]]);
                            if rf.cov(q, q) > 1e-6 * rf.s2 {
                                rec.max("sparse_vgrad_err_over_tol", (vg[[i, j]] - dv).abs() / (t * (rf.s2 + rf.noise)));
                                ensure!((vg[[i, j]] - dv).abs() <= t * (rf.s2 + rf.noise), "sparse variance gradient {j} at {q:?}: {} instead of {dv}: {tag}", vg[[i, j]]);
                            }
                            rec.step(1);
                        }
                    }
                    Ok(())
                })
            })
        })
        .collect();
    cx.run(cases);
}

pub fn g03_sparse(cx: &Cx) {
    let th = cx.thorough();
    let cases = sconfs(cx)
        .into_iter()
        .map(|c| {
            case(format!("sparse-{:?}-{}-d{}-n{}", c.kern, if c.vfe { "vfe" } else { "fitc" }, c.d, c.n), move |rec: &mut Rec| {
                sparse_models(&c, th, false, rec, |x, y, gp, rf, tag, rec| {
                    let qs: M = wq(c.d).into_iter().chain(x[..1].to_vec()).collect();
                    let ymag = y.iter().fold(0f64, |m, v| m.max(v.abs()));
                    rec.step(1);
                    // finite-difference gradients amplify rounding: compared at 1e-9 x 1e5
                    let k = rf.cond.max(1.) * 1e2;
                    batching(gp, &arr2(&qs), (rf.s2 + rf.noise) * k, ymag * k, true, tag)
                })
            })
        })
        .collect();
    cx.run(cases);
}

// ---------------------------------------------------------------- G04

fn ordered_subsets(h: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for s in subsets(h) {
        if s.is_empty() {
            continue;
        }
        for p in permutations(s.len()) {
            out.push(p.iter().map(|&i| s[i]).collect());
        }
    }
    out
}

fn tunings(h: usize, thorough: bool) -> Vec<(String, ThetaTuning<f64>)> {
    let a = |v: &[f64]| Array1::from_vec(v.to_vec());
    let mut out = vec![];
    let inits: Vec<V> = vec![vec![0.7], vec![3.], (0..h).map(|i| [0.6, 2.5, 1.3][i % 3]).collect()];
    let bnds: Vec<Vec<(f64, f64)>> = vec![
        vec![(1e-2, 1e1)],
        vec![(0.5, 4.)],
        (0..h).map(|i| [(0.5, 0.8), (2., 3.), (1e-2, 1.5)][i % 3]).collect(),
        (0..h).map(|i| [(0.59, 0.61), (1e-3, 50.), (1.2, 1.4)][i % 3]).collect(),
    ];
    for init in &inits {
        out.push((format!("fixed{init:?}"), ThetaTuning::Fixed(a(init))));
        for b in &bnds {
            if b.len() > 1 && init.len() == 1 && h > 1 {
                // starting values outside the bounds are not meaningful
                let ok = b.iter().all(|(l, u)| init[0] >= *l && init[0] <= *u);
                if !ok {
                    continue;
                }
            }
            if !(0..h).all(|i| {
                let v = if init.len() == 1 { init[0] } else { init[i] };
                let (l, u) = if b.len() == 1 { b[0] } else { b[i] };
                v >= l && v <= u
            }) {
                continue;
            }
            out.push((format!("full{init:?}{b:?}"), ThetaTuning::Full { init: a(init), bounds: Array1::from_vec(b.clone()) }));
            for act in ordered_subsets(h) {
                if !thorough && h == 3 && act.len() == 3 && act[0] == 0 {
                    continue;
                }
                out.push((
                    format!("partial{init:?}{b:?}{act:?}"),
                    ThetaTuning::Partial { init: a(init), bounds: Array1::from_vec(b.clone()), active: act },
                ));
            }
        }
    }
    out.dedup_by(|p, q| p.0 == q.0);
    let mut seen = std::collections::HashSet::new();
    out.retain(|p| seen.insert(p.0.clone()));
    out
}

fn expand<T: Copy>(v: &[T], h: usize) -> Vec<T> {
    if v.len() == 1 { vec![v[0]; h] } else { v.to_vec() }
}

pub fn g04(cx: &mut Cx) {
    cx.rule = "all tunings (fixed / full / partial with every ordered choice of active components; single or per-component starting values and bounds) x dimensions 1-3 x PLS dimensions x kernels x numbers of restarts, dense and sparse; distinct states = trained models".into();
    cx.assumptions = vec!["starting values inside the bounds".into(), "partial tuning of sparse models is documented as not implemented (full tuning is used)".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    for d in 1..=3usize {
        let mut ks = vec![None];
        if d > 1 {
            ks.extend((1..=d).map(Some));
        }
        for kpls in ks {
            let h = kpls.unwrap_or(d);
            for (tl, tun) in tunings(h, th) {
                for kern in if th { KERNS.to_vec() } else { vec![Kern::Se, Kern::M52] } {
                    let (tl, tun) = (tl.clone(), tun.clone());
                    cases.push(case(format!("dense-d{d}-k{}-{kern:?}-{tl}", kpls.unwrap_or(0)), move |rec: &mut Rec| {
                        let x = cloud(d, 7 + d);
                        for pat in [0, 5] {
                            let y = outputs(pat, &x);
                            for n_start in if th { vec![0, 1, 2, 3, 4, 5, 7, 10, 20] } else { vec![0, 1, 2, 3, 5, 10] } {
                                let cfg = GpCfg { kern, trend: Trend::C, tuning: tun.clone(), kpls, n_start, max_eval: 40, nugget: Some(1e-8) };
                                let tag = format!("n_start {n_start} outputs {pat}");
                                let gp = catch(|| fit_gp(&cfg, &arr2(&x), &arr1(&y))).and_then(|r| r).map_err(|e| format!("training failed: {e}: {tag}"))?;
                                let g2 = fit_gp(&cfg, &arr2(&x), &arr1(&y))?;
                                rec.trace();
                                rec.state((d, kpls, kern, &tl, pat, n_start));
                                rec.step(1);
                                let t = gp.theta().to_vec();
                                ensure!(t.len() == h, "{} hyperparameters instead of {h}: {tag}", t.len());
                                ensure!(t == g2.theta().to_vec(), "training again gives {} instead of {}: {tag}", g2.theta(), gp.theta());
                                let init = expand(tun.init().as_slice().unwrap(), h);
                                let mut fx = cfg.clone();
                                fx.tuning = ThetaTuning::Fixed(arr1(&init));
                                let start = catch(|| fit_gp(&fx, &arr2(&x), &arr1(&y))).and_then(|r| r).map_err(|e| format!("fixed training failed: {e}: {tag}"))?;
                                fx.tuning = ThetaTuning::Fixed(gp.theta());
                                let same = fit_gp(&fx, &arr2(&x), &arr1(&y))?;
                                ensure!((same.lkh() - gp.lkh()).abs() <= 1e-9 * gp.lkh().abs().max(1.), "likelihood {} but {} for the same hyperparameters: {tag}", gp.lkh(), same.lkh());
                                let act: Vec<usize> = match &tun {
                                    ThetaTuning::Fixed(_) => vec![],
                                    ThetaTuning::Full { .. } => (0..h).collect(),
                                    ThetaTuning::Partial { active, .. } => active.clone(),
                                };
                                for i in 0..h {
                                    if act.contains(&i) {
                                        let b = expand(tun.bounds().unwrap().as_slice().unwrap(), h)[i];
                                        ensure!(t[i] >= b.0 * (1. - 1e-9) && t[i] <= b.1 * (1. + 1e-9), "theta {t:?}: component {i} out of its bounds {b:?}: {tag}");
                                    } else {
                                        ensure!(t[i] == init[i], "theta {t:?}: component {i} is not tuned but changed from {}: {tag}", init[i]);
                                    }
                                }
                                ensure!(gp.lkh() >= start.lkh() - 1e-6 * start.lkh().abs().max(1.), "likelihood {} below {} of the starting point: {tag}", gp.lkh(), start.lkh());
                            }
                        }
                        Ok(())
                    }));
                }
            }
            // sparse
            for (tl, tun) in tunings(h, th).into_iter().filter(|t| !t.0.starts_with("partial")) {
                for vfe in [false, true] {
                    let (tl, tun) = (tl.clone(), tun.clone());
                    cases.push(case(format!("sparse-{}-d{d}-k{}-{tl}", if vfe { "vfe" } else { "fitc" }, kpls.unwrap_or(0)), move |rec: &mut Rec| {
                        let x = cloud(d, 7 + d);
                        let y = outputs(0, &x);
                        let z: M = x[..5].to_vec();
                        for noise in [ParamTuning::Fixed(1e-2), ParamTuning::Optimized { init: 1e-2, bounds: (5e-3, 2e-2) }, ParamTuning::Optimized { init: 0.3, bounds: (0.1, 10.) }] {
                            for n_start in if th { vec![0, 1, 2, 3, 5, 10, 20] } else { vec![0, 1, 3, 10] } {
                                let cfg = SgpCfg {
                                    kern: Kern::Se,
                                    vfe,
                                    tuning: tun.clone(),
                                    noise: noise.clone(),
                                    inducings: Inducings::Located(arr2(&z)),
                                    kpls,
                                    n_start,
                                    max_eval: 40,
                                    nugget: Some(1e-8),
                                    seed: Some(3),
                                };
                                let tag = format!("n_start {n_start} noise {noise:?}");
                                let gp = catch(|| fit_sgp(&cfg, &arr2(&x), &arr1(&y))).and_then(|r| r).map_err(|e| format!("training failed: {e}: {tag}"))?;
                                let g2 = fit_sgp(&cfg, &arr2(&x), &arr1(&y))?;
                                rec.trace();
                                rec.state((d, kpls, vfe, &tl, n_start, format!("{noise:?}")));
                                rec.step(1);
                                let t = gp.theta().to_vec();
                                ensure!(t.len() == h, "{} hyperparameters instead of {h}: {tag}", t.len());
                                ensure!(t == g2.theta().to_vec() && gp.noise() == g2.noise(), "training again gives other hyperparameters: {tag}");
                                let init = expand(tun.init().as_slice().unwrap(), h);
                                for i in 0..h {
                                    match tun.bounds() {
                                        None => ensure!(t[i] == init[i], "theta {t:?}: component {i} is not the fixed {}: {tag}", init[i]),
                                        Some(b) => {
                                            let b = expand(b.as_slice().unwrap(), h)[i];
                                            ensure!(t[i] >= b.0 * (1. - 1e-9) && t[i] <= b.1 * (1. + 1e-9), "theta {t:?}: component {i} out of its bounds {b:?}: {tag}")
                                        }
                                    }
                                }
                                let n0 = match &noise {
                                    ParamTuning::Fixed(v) => {
                                        ensure!(gp.noise() == *v, "noise {} instead of {v}: {tag}", gp.noise());
                                        *v
                                    }
                                    ParamTuning::Optimized { init, bounds } => {
                                        ensure!(gp.noise() >= bounds.0 * (1. - 1e-9) && gp.noise() <= bounds.1 * (1. + 1e-9), "noise {} out of {bounds:?}: {tag}", gp.noise());
                                        *init
                                    }
                                };
                                if kpls.is_none() {
                                    let (_, sd) = mean_std(y.iter().cloned());
                                    if let Some(rf) = Sparse::new(&x, &y, Kern::Se, &init, eye(d), sd * sd, n0, &z, vfe, 1e-8) {
                                        ensure!(gp.lkh() >= rf.lkh - 1e-6 * rf.lkh.abs().max(1.), "likelihood {} below {} of the starting point: {tag}", gp.lkh(), rf.lkh);
                                    }
                                }
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    cx.run(cases);
}

// ---------------------------------------------------------------- G06

/// generator whose answers all map to the normal value 0, except at listed draws
struct Probe {
    n: Rc<RefCell<u64>>,
    ones: Vec<u64>,
}
const ZERO: u64 = 1 << 63;
const ONE: u64 = (1 << 63) | (1 << 61) | 1;
impl RngCore for Probe {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut n = self.n.borrow_mut();
        let k = *n;
        *n += 1;
        if self.ones.contains(&k) { ONE } else { ZERO }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// value of the normal draw for ONE
fn one_value() -> f64 {
    use ndarray_rand::rand_distr::{Distribution, Normal};
    let n = Rc::new(RefCell::new(0));
    let mut p = Probe { n: n.clone(), ones: vec![0] };
    let v: f64 = Normal::new(0., 1.).unwrap().sample(&mut p);
    assert!(*n.borrow() == 1 && v.abs() > 0.1);
    let z = Normal::new(0., 1.).unwrap().sample(&mut p);
    assert!(*n.borrow() == 2 && z == 0.);
    v
}
fn probe<T>(ones: &[u64], f: impl FnOnce() -> T) -> Result<(T, u64), String> {
    let n = Rc::new(RefCell::new(0));
    ndarray_rand::mc::put(Box::new(Probe { n: n.clone(), ones: ones.to_vec() }));
    let r = catch(f);
    ndarray_rand::mc::take();
    let k = *n.borrow();
    r.map(|v| (v, k))
}

fn check_traj(gp: &dyn Gp, qs: &M, cov: &M, scale: f64, cond: f64, tag: &str, rec: &mut Rec) -> R {
    let xq = arr2(qs);
    let k = qs.len();
    let m = gp.predict(&xq);
    let mut reg = cov.clone();
    let mut pd = true;
    // smallest eigenvalue through a shifted factorization
    for i in 0..k {
        reg[i][i] -= 1e-6 * scale;
    }
    if chol(&reg).is_none() {
        pd = false;
    }
    // two points whose covariance is tiny but not null (see the known finding)
    let decoupled = (0..k).any(|a| (0..a).any(|b| cov[a][b] != 0. && cov[a][b].abs() < 1e-2 * (cov[a][a] * cov[b][b]).sqrt()));
    let one = one_value();
    for method in 0..3u8 {
        if method == 0 && !pd {
            continue;
        }
        let mname = ["cholesky", "eigen", "default"][method as usize];
        for n_traj in [1usize, 2, 3] {
            let (t0, nd) = probe(&[], || gp.sample(&xq, n_traj, method)).map_err(|e| format!("{mname}: {e}: {tag}"))?;
            ensure!(t0.dim() == (k, n_traj), "{mname}: shape {:?} for {k} points and {n_traj} trajectories: {tag}", t0.dim());
            if nd == 0 {
                rec.count("generator_not_hooked", 1);
                continue;
            }
            let sd = scale.sqrt();
            let mm = m.iter().fold(0f64, |a, v| a.max(v.abs()));
            let t1 = 1e-10 * (mm + sd) * cond.sqrt();
            for i in 0..k {
                for j in 0..n_traj {
                    ensure!((t0[[i, j]] - m[i]).abs() <= t1, "{mname}: null draws give {} instead of the mean {}: {tag}", t0[[i, j]], m[i]);
                }
            }
            // response to each draw
            let mut acc = vec![vec![vec![0f64; k]; k]; n_traj];
            let mut resp = vec![];
            for q in 0..nd {
                let (t, _) = probe(&[q], || gp.sample(&xq, n_traj, method)).map_err(|e| format!("{mname}: {e}: {tag}"))?;
                let r = (&t - &t0) / one;
                rec.step(1);
                let touched: Vec<usize> = (0..n_traj).filter(|&j| (0..k).any(|i| r[[i, j]].abs() > t1)).collect();
                ensure!(touched.len() <= 1, "{mname}: one draw moves trajectories {touched:?}: {tag}");
                for j in touched {
                    for a in 0..k {
                        for b in 0..k {
                            acc[j][a][b] += r[[a, j]] * r[[b, j]];
                        }
                    }
                }
                resp.push(r);
            }
            for j in 0..n_traj {
                for a in 0..k {
                    for b in 0..k {
                        let e = (acc[j][a][b] - cov[a][b]).abs();
                        let t = (1e-9 + 1e-12 * cond) * scale;
                        let t = if method > 0 && gp.inducings().is_some() { t.max(2e-6 * scale) } else { t };
                        if e > t && method > 0 && decoupled && e <= 0.1 * scale {
                            rec.kind("eigh-nearly-decoupled", format!("{mname}: covariance of trajectory {j} between points {a},{b} is {} instead of {}: {tag}", acc[j][a][b], cov[a][b]));
                            continue;
                        }
                        rec.max(if method == 0 { "cholesky_cov_err_over_tol" } else { "eigen_cov_err_over_tol" }, e / t);
                        ensure!(e <= t, "{mname}: covariance of trajectory {j} between points {a},{b} is {} instead of {}: {tag}", acc[j][a][b], cov[a][b]);
                    }
                }
            }
            // linearity on all pairs of draws (of the smaller batches)
            if n_traj <= 2 && k <= 4 {
                for p in 0..nd {
                    for q in p + 1..nd {
                        let (t, _) = probe(&[p, q], || gp.sample(&xq, n_traj, method)).map_err(|e| format!("{mname}: {e}: {tag}"))?;
                        let r = (&t - &t0) / one - &resp[p as usize] - &resp[q as usize];
                        rec.step(1);
                        ensure!(r.iter().all(|v| v.abs() <= 10. * t1), "{mname}: draws {p} and {q} do not add up: {tag}");
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn g06(cx: &mut Cx) {
    cx.rule = "the normal draws are answered by the checker: all zero, each single draw set to a known value (the columns of the linear map), all pairs (linearity), for 1-3 trajectories, both decompositions, point sets with and without training points, dense (kernels x trends x dimensions x output units) and sparse models; the induced covariance is compared to the reference posterior covariance; distinct states = (model, point set)".into();
    cx.assumptions = vec!["normal draws are obtained through ndarray-rand's `random` (vendored copy with a hook); the generator itself (thread_rng) is trusted to be normal and independent".into(), "Cholesky sampling is checked when the covariance is positive definite with a margin of 1e-6".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    for d in 1..=3usize {
        for kern in KERNS {
            for trend in TRENDS {
                for (unit, off) in [(1., 0.), (1e-4, 0.), (1e5, 10.)] {
                    cases.push(case(format!("dense-d{d}-{kern:?}-{trend:?}-{unit:e}"), move |rec: &mut Rec| {
                        let x = cloud(d, nbasis(trend, d) + 3 + d);
                        for pat in if th { vec![0, 1, 5] } else { vec![0, 1] } {
                            let y: V = outputs(pat, &x).iter().map(|v| unit * v + off).collect();
                            for t0 in [0.9, 2.5] {
                                let theta: V = (0..d).map(|j| t0 * (1. + 0.2 * j as f64)).collect();
                                let Some(rf) = Krig::new(&x, &y, kern, trend, &theta, eye(d), 100. * f64::EPSILON) else { continue };
                                if rf.cond > 1e6 || rf.sigma2 < 1e-6 * rf.ys.1 * rf.ys.1 {
                                    rec.count("ill_conditioned", 1);
                                    continue;
                                }
                                let gp = fit_gp(&GpCfg::fixed(kern, trend, &theta), &arr2(&x), &arr1(&y))?;
                                let w = wq(d);
                                let sets: Vec<M> = vec![
                                    vec![w[0].clone()],
                                    w[..3].to_vec(),
                                    vec![x[1].clone()],
                                    vec![w[1].clone(), x[0].clone(), w[2].clone(), x[2].clone()],
                                    w.iter().chain(x[..2].iter()).cloned().collect(),
                                    vec![w[1].clone(), w[1].clone()],
                                ];
                                for (si, qs) in sets.iter().enumerate() {
                                    let cov = rf.cov(qs);
                                    let scale = rf.sigma2 * (0..qs.len()).map(|i| cov[i][i] / rf.sigma2).fold(1f64, f64::max);
                                    rec.trace();
                                    rec.state((d, kern, trend, unit.to_bits(), pat, t0.to_bits(), si));
                                    let tag = format!("outputs {pat} unit {unit} theta {theta:?} points {qs:?}");
                                    check_traj(gp.as_ref(), qs, &cov, scale, rf.cond, &tag, rec)?;
                                    // whatever the draws, training outputs are reproduced
                                    for (i, q) in qs.iter().enumerate() {
                                        if let Some(k) = x.iter().position(|p| p == q) {
                                            let t = gp.sample(&arr2(qs), 4, 1);
                                            for j in 0..4 {
                                                let e = (t[[i, j]] - y[k]).abs();
                                                let tl = 1e-5 * rf.cond.sqrt() * rf.sigma2.sqrt() + 1e-10 * y[k].abs() * rf.cond;
                                                ensure!(e <= tl, "trajectory at training point {q:?} is {} instead of {}: {tag}", t[[i, j]], y[k]);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    for c in sconfs(cx) {
        cases.push(case(format!("sparse-{:?}-{}-d{}-n{}", c.kern, if c.vfe { "vfe" } else { "fitc" }, c.d, c.n), move |rec: &mut Rec| {
            let mut n = 0;
            sparse_models(&c, false, false, rec, |x, _y, gp, rf, tag, rec| {
                n += 1;
                if !th && n % 3 != 0 {
                    return Ok(());
                }
                let w = wq(c.d);
                for qs in [vec![w[1].clone()], w[..3].to_vec(), vec![w[1].clone(), x[0].clone(), w[3].clone()]] {
                    let cov: M = qs.iter().map(|a| qs.iter().map(|b| rf.cov(a, b)).collect()).collect();
                    check_traj(gp, &qs, &cov, rf.s2, rf.cond, &format!("{tag} points {qs:?}"), rec)?;
                }
                Ok(())
            })
        }));
    }
    cx.run(cases);
}

// ---------------------------------------------------------------- G07

pub fn g07(cx: &mut Cx) {
    cx.rule = "all numbers of folds 2..n (leave-one-out included) x training sets of 5-9 points x dimensions x kernels x trends x outputs, fixed hyperparameters; metrics of dense Gaussian processes, sparse ones and single-cluster mixtures compared to their definitions computed from reference kriging predictions of every fold; distinct states = (model, folds)".into();
    cx.assumptions = vec!["the folds are the consecutive blocks i*n/k .. (i+1)*n/k (blocks of n/k rows when k divides n)".into(), "the integrated absolute error is the mean over folds of the per-fold error (value pinned by an existing test)".into()];
    let th = cx.thorough();
    let mut cases = vec![];
    for d in 1..=2usize {
        for kern in KERNS {
            for trend in TRENDS {
                for n in if th { vec![5usize, 6, 7, 8, 9, 10, 11, 12] } else { vec![5, 6, 7, 9, 10] } {
                    // the smallest training fold must still determine the trend
                    if n - n.div_ceil(2) <= nbasis(trend, d) {
                        continue;
                    }
                    cases.push(case(format!("d{d}-{kern:?}-{trend:?}-n{n}"), move |rec: &mut Rec| {
                        let x = cloud(d, n);
                        for pat in [0, 1, 5] {
                            let y = outputs(pat, &x);
                            let theta: V = (0..d).map(|j| 1.4 + 0.4 * j as f64).collect();
                            let gp = fit_gp(&GpCfg::fixed(kern, trend, &theta), &arr2(&x), &arr1(&y))?;
                            let (rs, cs) = (
                                match trend {
                                    Trend::C => RegressionSpec::CONSTANT,
                                    Trend::L => RegressionSpec::LINEAR,
                                    Trend::Q => RegressionSpec::QUADRATIC,
                                },
                                match kern {
                                    Kern::Se => CorrelationSpec::SQUAREDEXPONENTIAL,
                                    Kern::Ae => CorrelationSpec::ABSOLUTEEXPONENTIAL,
                                    Kern::M32 => CorrelationSpec::MATERN32,
                                    Kern::M52 => CorrelationSpec::MATERN52,
                                },
                            );
                            let moe = catch(|| {
                                GpMixtureParams::<f64>::new()
                                    .gp_type(GpType::FullGp)
                                    .n_clusters(NbClusters::fixed(1))
                                    .recombination(Recombination::Hard)
                                    .regression_spec(rs)
                                    .correlation_spec(cs)
                                    .theta_tunings(&[ThetaTuning::Fixed(arr1(&theta))])
                                    .fit(&Dataset::new(arr2(&x), arr1(&y)))
                            })
                            .and_then(|r| r.map_err(|e| e.to_string()))
                            .map_err(|e| format!("mixture training failed: {e}"))?;
                            let ymean = y.iter().sum::<f64>() / n as f64;
                            for k in 2..=n {
                                let (mut press, mut tss, mut va, mut ill) = (0., 0., 0., 1f64);
                                let mut iae = 0.;
                                let alphas: V = (0..20).map(|i| 0.02 + i as f64 * (0.96 / 19.)).collect();
                                let mut deltas = vec![0.; 20];
                                let mut margin = f64::INFINITY;
                                for f in 0..k {
                                    let (s, e) = (f * n / k, (f + 1) * n / k);
                                    let tr: Vec<usize> = (0..s).chain(e..n).collect();
                                    let rf = Krig::new(
                                        &tr.iter().map(|&i| x[i].clone()).collect::<M>(),
                                        &tr.iter().map(|&i| y[i]).collect::<V>(),
                                        kern,
                                        trend,
                                        &theta,
                                        eye(d),
                                        100. * f64::EPSILON,
                                    );
                                    let Some(rf) = rf else {
                                        ill = f64::INFINITY;
                                        break;
                                    };
                                    ill = ill.max(rf.cond);
                                    if rf.sigma2 < 1e-6 * rf.ys.1 * rf.ys.1 {
                                        ill = f64::INFINITY;
                                        break;
                                    }
                                    let mut cover = vec![0.; 20];
                                    for i in s..e {
                                        let p = rf.at(&x[i]);
                                        press += (y[i] - p.mean).powi(2);
                                        tss += (y[i] - ymean).powi(2);
                                        va += (y[i] - p.mean).powi(2) / p.var.max(0.);
                                        for (a, c) in alphas.iter().zip(cover.iter_mut()) {
                                            use statrs::distribution::{ContinuousCDF, Normal};
                                            let q = Normal::new(0., 1.).unwrap().inverse_cdf(1. - a / 2.);
                                            let z = (y[i] - p.mean).abs() / p.var.max(0.).sqrt();
                                            margin = margin.min((z - q).abs());
                                            if z <= q {
                                                *c += 1.;
                                            }
                                        }
                                    }
                                    let m = (e - s) as f64;
                                    for i in 0..20 {
                                        cover[i] /= m;
                                        deltas[i] += cover[i] / k as f64;
                                        iae += (cover[i] - (1. - alphas[i])).abs() / 20. / k as f64;
                                    }
                                }
                                if ill > 1e7 {
                                    rec.count("ill_conditioned", 1);
                                    continue;
                                }
                                rec.trace();
                                rec.state((d, kern, trend, n, pat, k));
                                rec.step(1);
                                let tag = format!("k={k} outputs {pat}");
                                let q2 = 1. - press / tss;
                                let t = (1e-9 + 1e-12 * ill) * (1. + press / tss) * 10.;
                                let pva = (va / n as f64).ln().abs();
                                let close = |a: f64, b: f64, t: f64| (a - b).abs() <= t;
                                let g = catch(|| gp.q2(k)).map_err(|e| format!("{e}: {tag}"))?;
                                ensure!(close(g, q2, t), "Q2 {g} instead of {q2}: {tag}");
                                let g = catch(|| moe.q2_k(k)).map_err(|e| format!("{e}: {tag}"))?;
                                ensure!(close(g, q2, t), "mixture Q2 {g} instead of {q2}: {tag}");
                                let g = catch(|| moe.pva_k(k)).map_err(|e| format!("{e}: {tag}"))?;
                                ensure!(close(g, pva, 1e-6 + 1e-10 * ill), "predictive variance adequacy {g} instead of {pva}: {tag}");
                                if margin > 1e-6 {
                                    let mut pd = IaeAlphaPlotData::default();
                                    let g = catch(|| (moe.iae_alpha_k(k), moe.iae_alpha_k_score_with_plot(k, &mut pd))).map_err(|e| format!("{e}: {tag}"))?;
                                    ensure!(close(g.0, iae, 1e-9) && close(g.1, iae, 1e-9), "integrated error {g:?} instead of {iae}: {tag}");
                                    ensure!(pd.alphas.len() == 20 && pd.deltas.len() == 20 && (0..20).all(|i| close(pd.alphas[i], alphas[i], 1e-12) && close(pd.deltas[i], deltas[i], 1e-9)), "coverage {pd:?} instead of {deltas:?}: {tag}");
                                }
                                if k == n {
                                    ensure!(close(gp.looq2(), q2, t) && close(moe.q2(), q2, t), "leave-one-out Q2 {} {} instead of {q2}: {tag}", gp.looq2(), moe.q2());
                                    ensure!(close(moe.pva(), pva, 1e-6 + 1e-10 * ill), "leave-one-out adequacy {} instead of {pva}: {tag}", moe.pva());
                                    if margin > 1e-6 {
                                        ensure!(close(moe.iae_alpha(), iae, 1e-9), "leave-one-out integrated error {} instead of {iae}: {tag}", moe.iae_alpha());
                                    }
                                }
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    // sparse: against refitted public models on the folds
    for vfe in [false, true] {
        for n in [5, 6, 7, 8] {
            cases.push(case(format!("sparse-{vfe}-n{n}"), move |rec: &mut Rec| {
                let x = cloud(1, n);
                let y = outputs(0, &x);
                let cfg = SgpCfg {
                    kern: Kern::Se,
                    vfe,
                    tuning: ThetaTuning::Fixed(arr1(&[1.1])),
                    noise: ParamTuning::Fixed(0.05),
                    inducings: Inducings::Located(arr2(&vec![vec![-0.5], vec![1.], vec![2.5]])),
                    kpls: None,
                    n_start: 0,
                    max_eval: 30,
                    nugget: None,
                    seed: Some(1),
                };
                let gp = fit_sgp(&cfg, &arr2(&x), &arr1(&y))?;
                let ymean = y.iter().sum::<f64>() / n as f64;
                for k in 2..=n {
                    let (mut press, mut tss) = (0., 0.);
                    for f in 0..k {
                        let (s, e) = (f * n / k, (f + 1) * n / k);
                        let tr: Vec<usize> = (0..s).chain(e..n).collect();
                        let sub = fit_sgp(&cfg, &arr2(&tr.iter().map(|&i| x[i].clone()).collect::<M>()), &arr1(&tr.iter().map(|&i| y[i]).collect::<V>()))?;
                        let p = sub.predict(&arr2(&x[s..e].to_vec()));
                        for i in s..e {
                            press += (y[i] - p[i - s]).powi(2);
                            tss += (y[i] - ymean).powi(2);
                        }
                    }
                    rec.trace();
                    rec.state(("sparse", vfe, n, k));
                    rec.step(1);
                    let q2 = 1. - press / tss;
                    // the process variance is re-estimated on rows in another order
                    ensure!((gp.q2(k) - q2).abs() <= 1e-3 * (1. + press / tss), "Q2 {} instead of {q2}: k={k}", gp.q2(k));
                }
                Ok(())
            }));
        }
    }
    cx.run(cases);
}
