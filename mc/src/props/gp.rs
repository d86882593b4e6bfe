//! G01..G03: dense Gaussian process against the reference kriging model, on all small configurations.
use super::gpcommon::*;
use crate::cx::*;
use crate::ensure;
use crate::refgp::*;
use crate::util::*;
use ndarray::{Array1, Array2, Axis};

const LV: [f64; 5] = [-0.9, 0.15, 0.8, 1.7, 3.1];

#[derive(Clone)]
struct Conf {
    d: usize,
    kern: Kern,
    trend: Trend,
    kpls: Option<usize>,
    x: M,
    label: String,
}

fn thetas(h: usize, thorough: bool) -> Vec<V> {
    let mut out = vec![
        (0..h).map(|i| 0.9 + 0.5 * i as f64).collect::<V>(),
        (0..h).map(|i| [2.7, 0.6, 1.9, 1.1][i % 4]).collect(),
    ];
    if thorough {
        out.push(vec![0.35; h]);
        out.push(vec![6.0; h]);
        out.push((0..h).map(|i| [0.05, 3.0, 0.4, 1.1][i % 4]).collect());
    }
    out
}

pub fn halton(d: usize, n: usize) -> M {
    const P: [usize; 5] = [2, 3, 5, 7, 11];
    (0..n)
        .map(|i| {
            (0..d)
                .map(|j| {
                    let (mut k, mut f, mut r) = (i + 1, 1., 0.);
                    while k > 0 {
                        f /= P[j] as f64;
                        r += f * (k % P[j]) as f64;
                        k /= P[j];
                    }
                    -1. + 4. * r
                })
                .collect()
        })
        .collect()
}

fn training_sets(d: usize, thorough: bool) -> Vec<(String, M)> {
    let mut out = vec![];
    let g = match d {
        1 => grid(1, &LV),
        2 => grid(2, &LV[..3]),
        _ => grid(d, &LV[1..3]),
    };
    let sizes: Vec<usize> = match (d, thorough) {
        (1, _) => vec![2, 3, 4, 5],
        (2, false) => vec![4, 5, 8, 9],
        (2, true) => vec![3, 4, 5, 6, 7, 8, 9],
        (3, false) => vec![5, 7, 8],
        (3, true) => vec![4, 5, 6, 7, 8],
        _ => vec![16],
    };
    for n in sizes {
        for c in combos(g.len(), n) {
            out.push((format!("g{}", c.iter().map(|v| format!("{v:x}")).collect::<String>()), c.iter().map(|&i| g[i].clone()).collect()));
        }
    }
    for n in [10, 17] {
        out.push((format!("h{n}"), halton(d, n)));
    }
    out
}

fn confs(cx: &Cx) -> Vec<Conf> {
    let mut out = vec![];
    for d in 1..=4 {
        for (label, x) in training_sets(d, cx.thorough()) {
            for kern in KERNS {
                for trend in TRENDS {
                    if x.len() <= nbasis(trend, d) {
                        continue;
                    }
                    let mut ks = vec![None];
                    if d > 1 {
                        ks.extend((1..=d).map(Some));
                    }
                    for kpls in ks {
                        out.push(Conf { d, kern, trend, kpls, x: x.clone(), label: label.clone() });
                    }
                }
            }
        }
    }
    out
}

fn queries(c: &Conf) -> M {
    let d = c.d;
    let lv = [-1.3, 0.41, 1.13, 2.6];
    let mut q: M = if d <= 2 {
        odometer(&vec![4; d]).into_iter().map(|w| w.iter().enumerate().map(|(j, &k)| lv[k] + 0.07 * j as f64).collect()).collect()
    } else {
        (0..4).map(|k| (0..d).map(|j| lv[(k + j) % 4] + 0.03 * j as f64).collect()).collect()
    };
    q.push((0..d).map(|j| if j % 2 == 0 { 60. } else { -45. }).collect());
    // next to a training point, and sharing one coordinate with it
    let mut p = c.x[0].clone();
    p[d - 1] += 1e-3;
    q.push(p);
    q.push(c.x[c.x.len() - 1].iter().map(|v| v + 1e-6).collect());
    q
}

struct Pair {
    gp: Box<dyn Gp>,
    rf: Krig,
    tag: String,
    y: V,
    theta: V,
}

fn pairs(c: &Conf, cx_thorough: bool, light: bool, rec: &mut Rec, mut f: impl FnMut(&Conf, &Pair, &mut Rec) -> R) -> R {
    let h = c.kpls.unwrap_or(c.d);
    let x = arr2(&c.x);
    let nuggets: &[Option<f64>] = &[None, Some(1e-3)];
    for pat in 0..6 {
        if light && !cx_thorough && ![0, 2, 5].contains(&pat) {
            continue;
        }
        let y = outputs(pat, &c.x);
        for (ti, th) in thetas(h, cx_thorough).into_iter().enumerate() {
            for (ni, ng) in nuggets.iter().enumerate() {
                if ni == 1 && (pat + ti) % 3 != 0 {
                    continue;
                }
                let tag = format!("outputs {pat} {y:?} theta {th:?} nugget {ng:?} x {:?}", c.x);
                let w = match c.kpls {
                    None => Some(eye(c.d)),
                    Some(k) => pls_rotations(&c.x, &y, k),
                };
                let mut cfg = GpCfg::fixed(c.kern, c.trend, &th);
                cfg.kpls = c.kpls;
                cfg.nugget = *ng;
                let Some(w) = w else {
                    rec.count("no_pls_direction", 1);
                    // no reference then, but training must still answer
                    if !light {
                        match catch(|| fit_gp(&cfg, &x, &arr1(&y)).map(|g| g.predict(&x))) {
                            Err(e) if e.contains("NaN values in array") => rec.kind("pls-exhausted-panic", format!("{e} for {tag}")),
                            Err(e) => return Err(format!("{e} for {tag}")),
                            _ => (),
                        }
                    }
                    continue;
                };
                let rf = Krig::new(&c.x, &y, c.kern, c.trend, &th, w, ng.unwrap_or(100. * f64::EPSILON));
                let Some(rf) = rf else {
                    rec.count("reference_singular", 1);
                    continue;
                };
                if rf.cond > 1e8 {
                    rec.count("ill_conditioned", 1);
                    continue;
                }
                let gp = match catch(|| fit_gp(&cfg, &x, &arr1(&y))) {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) | Err(e) => return Err(format!("fit failed: {e} for {tag}")),
                };
                rec.trace();
                rec.state((c.d, c.kern, c.trend, c.kpls, &c.label, pat, ti, ni));
                let p = Pair { gp, rf, tag, y: y.clone(), theta: th.clone() };
                f(c, &p, rec)?;
            }
        }
    }
    Ok(())
}

/// tolerance on quantities of magnitude `mag` computed through a system of conditioning c
pub fn tol(c: f64, mag: f64) -> f64 {
    (1e-11 + 1e-13 * c) * mag
}

/// nearly singular correlations: no reference, but variances stay finite and non-negative
fn check_sign(c: &Conf, rec: &mut Rec) -> R {
    let h = c.kpls.unwrap_or(c.d);
    let y = outputs(0, &c.x);
    let mut q = queries(c);
    q.extend(c.x.iter().cloned());
    q.extend(c.x.windows(2).map(|w| (0..c.d).map(|j| 0.5 * (w[0][j] + w[1][j])).collect::<V>()));
    let xq = arr2(&q);
    for t in [0.3, 0.1, 0.02, 2e-3] {
        let mut cfg = GpCfg::fixed(c.kern, c.trend, &vec![t; h]);
        cfg.kpls = c.kpls;
        let Ok(Ok(gp)) = catch(|| fit_gp(&cfg, &arr2(&c.x), &arr1(&y))) else {
            rec.count("ill_conditioned_not_trained", 1);
            continue;
        };
        rec.trace();
        rec.state((c.d, c.kern, c.trend, c.kpls, &c.label, "sign", t.to_bits()));
        let tag = format!("theta {t} outputs {y:?} x {:?}", c.x);
        let (v, (m2, v2), m) = (gp.var(&xq), gp.valvar(&xq), gp.predict(&xq));
        for i in 0..q.len() {
            rec.step(1);
            ensure!(v[i].is_finite() && v[i] >= 0. && v2[i].is_finite() && v2[i] >= 0., "variance at {:?}: {} ({} by the combined call): {tag}", q[i], v[i], v2[i]);
            ensure!(m[i].is_finite() && m2[i].is_finite(), "mean at {:?}: {} {}: {tag}", q[i], m[i], m2[i]);
        }
    }
    Ok(())
}

fn check_g01(c: &Conf, p: &Pair, rec: &mut Rec) -> R {
    let (gp, rf) = (&p.gp, &p.rf);
    let ymag = p.y.iter().fold(0f64, |m, v| m.max(v.abs())).max(rf.ys.1);
    let s2 = rf.ys.1 * rf.ys.1;
    ensure!(gp.theta().to_vec() == p.theta, "theta {:?} instead of fixed {:?}: {}", gp.theta(), p.theta, p.tag);
    ensure!(gp.dims() == (c.d, 1), "dims {:?}: {}", gp.dims(), p.tag);
    let exp_k = match c.kpls {
        Some(k) if k < c.d => Some(k),
        _ => None,
    };
    ensure!(gp.kpls_dim() == exp_k, "kpls_dim {:?}: {}", gp.kpls_dim(), p.tag);
    // the dimension reduction is computed by two different iterations
    let pls = if exp_k.is_some() || c.kpls.is_some() { 1e3 } else { 1. };
    let e = (gp.variance() - rf.sigma2).abs();
    ensure!(e <= tol(rf.cond, pls * s2.max(rf.sigma2)), "variance {} instead of {}: {}", gp.variance(), rf.sigma2, p.tag);
    if rf.sigma2 > 1e-8 * s2 {
        let e = (gp.lkh() - rf.lkh).abs();
        rec.max("lkh_err", e);
        ensure!(e <= 1e-7 + tol(rf.cond, 1e3), "likelihood {} instead of {}: {}", gp.lkh(), rf.lkh, p.tag);
    }
    let qs = queries(c);
    let xq = arr2(&qs);
    let (m, v) = (gp.predict(&xq), gp.var(&xq));
    for (i, q) in qs.iter().enumerate() {
        let r = rf.at(q);
        let far = q.iter().fold(1f64, |a, b| a.max(b.abs()));
        let mag = pls * ymag * far.powi(2).max(1.);
        let em = (m[i] - r.mean).abs();
        rec.max("mean_err_over_tol", em / tol(rf.cond, mag));
        ensure!(em <= tol(rf.cond, mag), "mean at {q:?}: {} instead of {}: {}", m[i], r.mean, p.tag);
        let rv = r.var.max(0.);
        let ev = (v[i] - rv).abs();
        let vm = pls * rf.sigma2.max(rv).max(1e-12 * s2);
        // outputs reproduced exactly by the trend: the process variance is pure rounding noise
        let ev = if rf.sigma2 <= 1e-12 * s2 && rv <= 1e-12 * s2 * far.powi(4) && v[i] <= 1e-12 * s2 * far.powi(4) { 0. } else { ev };
        rec.max("var_err_over_tol", ev / tol(rf.cond, vm * 10.));
        ensure!(v[i] >= 0. && ev <= tol(rf.cond, vm * 10.), "variance at {q:?}: {} instead of {}: {}", v[i], rv, p.tag);
        rec.step(1);
    }
    // interpolation
    if rf_nugget_small(p) {
        let xt = arr2(&c.x);
        let (m, v) = (gp.predict(&xt), gp.var(&xt));
        let (_, v2) = gp.valvar(&xt);
        for i in 0..c.x.len() {
            ensure!((m[i] - p.y[i]).abs() <= tol(rf.cond, ymag * 10.) , "mean at training point {:?}: {} instead of {}: {}", c.x[i], m[i], p.y[i], p.tag);
            ensure!(v2[i] >= 0. && v2[i] <= tol(rf.cond, 10. * rf.sigma2.max(1e-12 * s2)), "variance by the combined call at training point {:?}: {}: {}", c.x[i], v2[i], p.tag);
            ensure!(v[i] >= 0. && v[i] <= tol(rf.cond, 10. * rf.sigma2.max(1e-12 * s2)), "variance at training point {:?}: {}: {}", c.x[i], v[i], p.tag);
        }
    }
    Ok(())
}

fn rf_nugget_small(p: &Pair) -> bool {
    p.tag.contains("nugget None")
}

fn check_g02(c: &Conf, p: &Pair, rec: &mut Rec) -> R {
    let (gp, rf) = (&p.gp, &p.rf);
    let qs: M = queries(c)
        .into_iter()
        .filter(|q| c.kern != Kern::Ae || c.x.iter().all(|t| t.iter().zip(q).all(|(a, b)| (a - b).abs() > 1e-9)))
        .chain(if c.kern == Kern::Ae { vec![] } else { c.x[..2].to_vec() })
        .collect();
    let xq = arr2(&qs);
    let (g, vg) = (gp.grad(&xq), gp.vgrad(&xq));
    let Some((g2, vg2)) = gp.valvar_grad(&xq) else { unreachable!() };
    ensure!(g.dim() == (qs.len(), c.d) && vg.dim() == g.dim(), "gradient shapes {:?} {:?}: {}", g.dim(), vg.dim(), p.tag);
    ensure!(bits2(&g) == bits2(&g2) && bits2(&vg) == bits2(&vg2), "combined gradients differ: {}", p.tag);
    for (i, q) in qs.iter().enumerate() {
        let r = rf.at(q);
        let far = q.iter().fold(1f64, |a, b| a.max(b.abs()));
        let th = p.theta.iter().fold(1f64, |a, b| a.max(*b));
        let v1 = gp.vgrad1(&Array1::from_vec(q.clone())).unwrap();
        ensure!(bits1(&v1) == bits1(&vg.row(i).to_owned()), "single variance gradient differs at {q:?}: {}", p.tag);
        for j in 0..c.d {
            let ms = rf.ys.1 / rf.xs[j].1 * th * far;
            let e = (g[[i, j]] - r.dmean[j]).abs();
            rec.max("grad_err_over_tol", e / tol(rf.cond, ms * 10.));
            ensure!(e <= tol(rf.cond, ms * 10.), "mean gradient component {j} at {q:?}: {} instead of {}: {}", g[[i, j]], r.dmean[j], p.tag);
            let vs = rf.sigma2.max(1e-12 * rf.ys.1 * rf.ys.1) / rf.xs[j].1 * th * far.powi(3) * 10.;
            let e = (vg[[i, j]] - r.dvar[j]).abs();
            rec.max("vgrad_err_over_tol", e / tol(rf.cond, vs));
            ensure!(e <= tol(rf.cond, vs), "variance gradient component {j} at {q:?}: {} instead of {}: {}", vg[[i, j]], r.dvar[j], p.tag);
            rec.step(1);
        }
    }
    for j in 0..c.d {
        let k = gp.kth(&xq, j).unwrap();
        for i in 0..qs.len() {
            let s = rf.ys.1 / rf.xs[j].1;
            ensure!((k[i] - g[[i, j]]).abs() <= 1e-9 * s.max(g[[i, j]].abs()), "derivative {j} at {:?}: {} but gradient {}: {}", qs[i], k[i], g[[i, j]], p.tag);
        }
    }
    Ok(())
}

fn run_confs(cx: &Cx, light: bool, f: fn(&Conf, &Pair, &mut Rec) -> R) {
    let th = cx.thorough();
    let mut cases = vec![];
    for c in confs(cx) {
        let key = format!("d{}-{:?}-{:?}-k{:?}-{}", c.d, c.kern, c.trend, c.kpls.unwrap_or(0), c.label);
        cases.push(case(key, move |rec: &mut Rec| {
            let r = pairs(&c, th, light, rec, |c, p, rec| f(c, p, rec));
            let r = if light { r } else { r.and_then(|_| check_sign(&c, rec)) };
            if rec.traces == 0 {
                rec.vacuous = true;
            }
            r
        }));
    }
    cx.run(cases);
}

pub fn g01(cx: &mut Cx) {
    cx.rule = "all subsets (of the stated sizes) of a grid of 5 (d=1), 9 (d=2), 8 (d=3), 16 (d=4) points plus two larger structured sets, x 4 kernels x 3 trends x all PLS dimensions x 6 output patterns x hyperparameter vectors x nuggets; every model trained and compared to the reference kriging posterior at all query points; distinct states = trained models".into();
    cx.assumptions = vec!["configurations whose correlation matrix has a condition number above 1e8 are skipped (counted)".into(), "tolerance (1e-11 + 1e-13 cond) x magnitude".into()];
    run_confs(cx, false, check_g01);
}

pub fn g02(cx: &mut Cx) {
    cx.rule = "same configurations as G01; gradients of mean and variance compared to forward-mode derivatives of the reference model at all query points where the kernel is differentiable; distinct states = trained models".into();
    cx.assumptions = vec!["condition number below 1e8".into(), "absolute exponential kernel: points sharing a coordinate with a training point are not differentiable and skipped".into()];
    run_confs(cx, true, check_g02);
    super::sgp::g02_sparse(cx);
}

fn close(a: f64, b: f64, t: f64) -> bool {
    (a - b).abs() <= t || a.to_bits() == b.to_bits()
}

pub fn check_batching(gp: &dyn Gp, xq: &Array2<f64>, vscale: f64, mscale: f64, diff: bool, tag: &str) -> R {
    let n = xq.nrows();
    let (m, v) = (gp.predict(xq), gp.var(xq));
    let (m2, v2) = gp.valvar(xq);
    let (m3, v3, mt) = (gp.predict(xq), gp.var(xq), gp.predict_trait(xq));
    ensure!(m.len() == n && v.len() == n, "{} means and {} variances for {n} points: {tag}", m.len(), v.len());
    ensure!(bits1(&m) == bits1(&m3) && bits1(&v) == bits1(&v3) && bits1(&m) == bits1(&mt), "repeated call differs: {tag}");
    let (g, vg) = (gp.grad(xq), gp.vgrad(xq));
    let perm: Vec<usize> = (0..n).map(|i| (i * 2 + 1) % n).collect();
    let permok = { let mut p = perm.clone(); p.sort(); p.dedup(); p.len() == n };
    let perm = if permok { perm } else { (0..n).rev().collect() };
    let xp = xq.select(Axis(0), &perm);
    let (mp, vp) = (gp.predict(&xp), gp.var(&xp));
    for i in 0..n {
        let (tm, tv) = (1e-11 * mscale.max(m[i].abs()), 1e-11 * vscale.max(v[i].abs()));
        ensure!(close(m[i], m2[i], tm) && close(v[i], v2[i], tv), "combined call gives {} {} instead of {} {}: {tag}", m2[i], v2[i], m[i], v[i]);
        let x1 = xq.row(i).to_owned().insert_axis(Axis(0));
        let (a, b) = (gp.predict(&x1)[0], gp.var(&x1)[0]);
        ensure!(close(m[i], a, tm), "mean of {x1} alone is {a} and {} in a batch: {tag}", m[i]);
        ensure!(close(v[i], b, tv), "variance of {x1} alone is {b} and {} in a batch: {tag}", v[i]);
        let k = perm.iter().position(|&p| p == i).unwrap();
        ensure!(close(m[i], mp[k], tm) && close(v[i], vp[k], tv), "permuting the batch changes predictions: {tag}");
        if diff {
            let (ga, gb) = (gp.grad(&x1), gp.vgrad(&x1));
            for j in 0..xq.ncols() {
                ensure!(close(ga[[0, j]], g[[i, j]], 1e-9 * mscale.max(g[[i, j]].abs())) && close(gb[[0, j]], vg[[i, j]], 1e-9 * vscale.max(vg[[i, j]].abs())), "gradients of {x1} alone differ from those in a batch: {tag}");
            }
        }
    }
    ensure!(v2.iter().zip(&v).all(|(a, b)| *a >= 0. || *b < 0.), "combined call gives negative variances {v2} instead of {v}: {tag}");
    // long batches: the rows repeated
    for len in [33, 70, 257] {
        let idx: Vec<usize> = (0..len).map(|i| (i * 5 + 2) % n).collect();
        let xl = xq.select(Axis(0), &idx);
        let (a, b) = (gp.predict(&xl), gp.var(&xl));
        let (a2, b2) = gp.valvar(&xl);
        ensure!(a.len() == len && b.len() == len && a2.len() == len && b2.len() == len, "{} predictions for a batch of {len}: {tag}", a.len());
        for (r, &i) in idx.iter().enumerate() {
            let (tm, tv) = (1e-11 * mscale.max(m[i].abs()), 1e-11 * vscale.max(v[i].abs()));
            ensure!(close(a[r], m[i], tm) && close(a2[r], m[i], tm), "mean {} (combined {}) in row {r} of a batch of {len}, {} in a short one: {tag}", a[r], a2[r], m[i]);
            ensure!(close(b[r], v[i], tv) && close(b2[r], v[i], tv), "variance {} (combined {}) in row {r} of a batch of {len}, {} in a short one: {tag}", b[r], b2[r], v[i]);
        }
    }
    // subsets of the batch: any pair
    for i in 0..n.min(4) {
        for k in 0..n.min(4) {
            let x2 = xq.select(Axis(0), &[i, k]);
            let (a, b) = (gp.predict(&x2), gp.var(&x2));
            ensure!(close(a[0], m[i], 1e-11 * mscale.max(m[i].abs())) && close(a[1], m[k], 1e-11 * mscale.max(m[k].abs())) && close(b[0], v[i], 1e-11 * vscale.max(v[i])) && close(b[1], v[k], 1e-11 * vscale.max(v[k])), "predicting rows {i},{k} together differs: {tag}");
        }
    }
    Ok(())
}

fn check_g03(c: &Conf, p: &Pair, rec: &mut Rec) -> R {
    let (gp, rf) = (&p.gp, &p.rf);
    let qs = queries(c);
    let xq = arr2(&qs);
    let ymag = p.y.iter().fold(0f64, |m, v| m.max(v.abs())).max(rf.ys.1);
    let vs = rf.sigma2.max(1e-12 * rf.ys.1 * rf.ys.1);
    check_batching(gp.as_ref(), &xq, vs * rf.cond.sqrt(), ymag * rf.cond.sqrt(), c.d <= 2, &p.tag)?;
    rec.step(1);
    let (m, v) = (gp.predict(&xq), gp.var(&xq));
    let h = p.theta.len();
    let _ = h;
    let fit = |x: &M, y: &[f64]| -> Result<Box<dyn Gp>, String> {
        let mut cfg = GpCfg::fixed(c.kern, c.trend, &p.theta);
        cfg.kpls = c.kpls;
        if !rf_nugget_small(p) {
            cfg.nugget = Some(1e-3);
        }
        catch(|| fit_gp(&cfg, &arr2(x), &arr1(y))).and_then(|r| r)
    };
    // outputs reproduced exactly by the trend: the process variance is pure rounding noise
    let exact = rf.sigma2 < 1e-8 * rf.ys.1 * rf.ys.1;
    let cmp = |what: &str, gp2: &dyn Gp, xq2: &Array2<f64>, a: f64, b: f64, extra: f64| -> R {
        let (m2, v2) = (gp2.predict(xq2), gp2.var(xq2));
        for i in 0..qs.len() {
            let far = qs[i].iter().fold(1f64, |a, b| a.max(b.abs()));
            let em = a.abs() * ymag + b.abs();
            ensure!(close(m2[i], a * m[i] + b, tol(rf.cond, em * far * far * extra)), "{what}: mean at {:?} becomes {} instead of {}: {}", qs[i], m2[i], a * m[i] + b, p.tag);
            let t = tol(rf.cond, 10. * a * a * vs.max(v[i]) * extra);
            ensure!(exact || close(v2[i], a * a * v[i], t), "{what}: variance at {:?} becomes {} instead of {}: {}", qs[i], v2[i], a * a * v[i], p.tag);
        }
        Ok(())
    };
    // orders of the training points
    let n = c.x.len();
    let perms: Vec<Vec<usize>> = if n <= 4 {
        permutations(n)
    } else {
        vec![(0..n).rev().collect(), (0..n).map(|i| (i + 1) % n).collect(), (0..n).map(|i| if i == 0 { 1 } else if i == 1 { 0 } else { i }).collect()]
    };
    for pm in perms {
        let x2: M = pm.iter().map(|&i| c.x[i].clone()).collect();
        let y2: V = pm.iter().map(|&i| p.y[i]).collect();
        let g2 = fit(&x2, &y2)?;
        cmp(&format!("order {pm:?}"), g2.as_ref(), &xq, 1., 0., 10.)?;
        rec.step(1);
    }
    // units
    for (a, b) in [(1e3, 0.), (-1., 0.), (2.5e-4, 7.), (1., -20.)] {
        let y2: V = p.y.iter().map(|v| a * v + b).collect();
        let g2 = fit(&c.x, &y2)?;
        cmp(&format!("outputs {a} y + {b}"), g2.as_ref(), &xq, a, b, 1e2)?;
        rec.step(1);
    }
    // a constant input has no scale of its own: its unit matters
    let constant = (0..c.d).any(|j| c.x.iter().all(|r| r[j] == c.x[0][j]));
    for (a, b) in [(1e3, 0.), (1e-4, 0.), (-2., 5.), (1., 30.)] {
        if constant && a != 1. {
            rec.count("constant_input", 1);
            continue;
        }
        // change of unit of the last input only, then of all inputs
        for all in [false, true] {
            let tr = |r: &V| -> V { r.iter().enumerate().map(|(j, v)| if all || j == c.d - 1 { a * v + b } else { *v }).collect() };
            if c.d == 1 && !all {
                continue;
            }
            let x2: M = c.x.iter().map(tr).collect();
            let q2: M = qs.iter().map(tr).collect();
            let g2 = fit(&x2, &p.y)?;
            cmp(&format!("inputs {a} x + {b} (all: {all})"), g2.as_ref(), &arr2(&q2), 1., 0., 1e3)?;
            rec.step(1);
        }
    }
    Ok(())
}

pub fn g03(cx: &mut Cx) {
    cx.rule = "same configurations as G01 (d <= 3 in the quick tier); for each trained model: batches against single rows, pairs and permutations, all orders of up to 4 training points (3 orders beyond), 4 output and 8 input unit changes; distinct states = trained models".into();
    cx.assumptions = vec!["condition number below 1e8; tolerances scaled with it".into()];
    run_confs(cx, true, check_g03);
    super::sgp::g03_sparse(cx);
}
