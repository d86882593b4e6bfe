//! Independent reference model of universal kriging (dense linear algebra on plain vectors, dual numbers for
//! derivatives) and of the sparse FITC/VFE posteriors, written from the textbook formulas.
pub type M = Vec<Vec<f64>>;
pub type V = Vec<f64>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kern {
    Se,
    Ae,
    M32,
    M52,
}
pub const KERNS: [Kern; 4] = [Kern::Se, Kern::Ae, Kern::M32, Kern::M52];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Trend {
    C,
    L,
    Q,
}
pub const TRENDS: [Trend; 3] = [Trend::C, Trend::L, Trend::Q];

/// number with one directional derivative
#[derive(Clone, Copy, Debug)]
pub struct D(pub f64, pub f64);
impl D {
    pub fn c(v: f64) -> D {
        D(v, 0.)
    }
    pub fn abs(self) -> D {
        if self.0 < 0. { D(-self.0, -self.1) } else { self }
    }
    pub fn exp(self) -> D {
        let e = self.0.exp();
        D(e, e * self.1)
    }
}
impl std::ops::Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        D(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        D(self.0 - o.0, self.1 - o.1)
    }
}
impl std::ops::Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        D(self.0 * o.0, self.0 * o.1 + self.1 * o.0)
    }
}

/// correlation of two points of difference d, weights w (d x h), theta (h)
pub fn corr(k: Kern, d: &[D], w: &M, theta: &[f64]) -> D {
    let h = theta.len();
    let mut s = D::c(0.);
    let mut p = D::c(1.);
    for j in 0..d.len() {
        for l in 0..h {
            let v = match k {
                Kern::Se => {
                    let t = D::c(theta[l] * w[j][l]) * d[j];
                    t * t
                }
                _ => D::c(theta[l] * w[j][l].abs()) * d[j].abs(),
            };
            match k {
                Kern::Se => s = s - D::c(0.5) * v,
                Kern::Ae => s = s - v,
                Kern::M32 => {
                    let u = D::c(3f64.sqrt()) * v;
                    p = p * (D::c(1.) + u);
                    s = s - u;
                }
                Kern::M52 => {
                    let u = D::c(5f64.sqrt()) * v;
                    p = p * (D::c(1.) + u + D::c(1. / 3.) * u * u);
                    s = s - u;
                }
            }
        }
    }
    p * s.exp()
}

pub fn basis(t: Trend, x: &[D]) -> Vec<D> {
    let mut f = vec![D::c(1.)];
    if t != Trend::C {
        f.extend_from_slice(x);
    }
    if t == Trend::Q {
        for i in 0..x.len() {
            for j in i..x.len() {
                f.push(x[i] * x[j]);
            }
        }
    }
    f
}
pub fn nbasis(t: Trend, d: usize) -> usize {
    match t {
        Trend::C => 1,
        Trend::L => 1 + d,
        Trend::Q => 1 + d + d * (d + 1) / 2,
    }
}

pub fn chol(a: &M) -> Option<M> {
    let n = a.len();
    let mut l = vec![vec![0.; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j];
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if !(s > 0.) {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}
pub fn fsub(l: &M, b: &[f64]) -> V {
    let n = l.len();
    let mut y = b.to_vec();
    for i in 0..n {
        for k in 0..i {
            y[i] -= l[i][k] * y[k];
        }
        y[i] /= l[i][i];
    }
    y
}
pub fn bsub(l: &M, b: &[f64]) -> V {
    let n = l.len();
    let mut y = b.to_vec();
    for i in (0..n).rev() {
        for k in i + 1..n {
            y[i] -= l[k][i] * y[k];
        }
        y[i] /= l[i][i];
    }
    y
}
pub fn csolve(l: &M, b: &[f64]) -> V {
    bsub(l, &fsub(l, b))
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm1(a: &M) -> f64 {
    let n = a.len();
    (0..n).map(|j| (0..n).map(|i| a[i][j].abs()).sum::<f64>()).fold(0., f64::max)
}
/// 1-norm condition number from the Cholesky factor
pub fn cond(a: &M, l: &M) -> f64 {
    let n = a.len();
    let inv: M = (0..n)
        .map(|i| {
            let mut e = vec![0.; n];
            e[i] = 1.;
            csolve(l, &e)
        })
        .collect();
    norm1(a) * norm1(&inv)
}

pub fn mean_std(v: impl Iterator<Item = f64> + Clone) -> (f64, f64) {
    let n = v.clone().count() as f64;
    let m = v.clone().sum::<f64>() / n;
    let s = (v.clone().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.)).sqrt();
    let first = v.clone().next().unwrap();
    if v.clone().all(|x| x == first) {
        return (first, 1.);
    }
    (m, if s == 0. { 1. } else { s })
}

/// PLS1 rotations (NIPALS on standardized data)
pub fn pls_rotations(x: &M, y: &[f64], h: usize) -> Option<M> {
    let (n, d) = (x.len(), x[0].len());
    let xs: Vec<(f64, f64)> = (0..d).map(|j| mean_std(x.iter().map(move |r| r[j]))).collect();
    let (ym, ysd) = mean_std(y.iter().cloned());
    let mut xc: M = x.iter().map(|r| (0..d).map(|j| (r[j] - xs[j].0) / xs[j].1).collect()).collect();
    let mut yc: V = y.iter().map(|v| (v - ym) / ysd).collect();
    let (mut wm, mut pm): (Vec<V>, Vec<V>) = (vec![], vec![]);
    for _ in 0..h {
        let mut w: V = (0..d).map(|j| (0..n).map(|i| xc[i][j] * yc[i]).sum()).collect();
        let nw = dot(&w, &w).sqrt();
        if nw < 1e-9 {
            return None;
        }
        w.iter_mut().for_each(|v| *v /= nw);
        let t: V = (0..n).map(|i| dot(&xc[i], &w)).collect();
        let tt = dot(&t, &t);
        if tt < 1e-9 {
            return None;
        }
        let p: V = (0..d).map(|j| (0..n).map(|i| xc[i][j] * t[i]).sum::<f64>() / tt).collect();
        let q = dot(&yc, &t) / tt;
        for i in 0..n {
            for j in 0..d {
                xc[i][j] -= t[i] * p[j];
            }
            yc[i] -= t[i] * q;
        }
        wm.push(w);
        pm.push(p);
    }
    // w* = W (P'W)^-1 ; P'W is unit upper triangular for PLS1 but solve in general by Gauss
    let mut a: M = (0..h).map(|i| (0..h).map(|j| dot(&pm[i], &wm[j])).collect()).collect();
    let mut inv: M = (0..h).map(|i| (0..h).map(|j| if i == j { 1. } else { 0. }).collect()).collect();
    for c in 0..h {
        let p = (c..h).max_by(|&i, &j| a[i][c].abs().total_cmp(&a[j][c].abs())).unwrap();
        a.swap(c, p);
        inv.swap(c, p);
        let d0 = a[c][c];
        for j in 0..h {
            a[c][j] /= d0;
            inv[c][j] /= d0;
        }
        for i in 0..h {
            if i != c {
                let f = a[i][c];
                for j in 0..h {
                    a[i][j] -= f * a[c][j];
                    inv[i][j] -= f * inv[c][j];
                }
            }
        }
    }
    Some((0..d).map(|j| (0..h).map(|l| (0..h).map(|k| wm[k][j] * inv[k][l]).sum()).collect()).collect())
}

pub fn eye(d: usize) -> M {
    (0..d).map(|i| (0..d).map(|j| if i == j { 1. } else { 0. }).collect()).collect()
}

pub struct Krig {
    pub kern: Kern,
    pub trend: Trend,
    pub theta: V,
    pub w: M,
    pub xs: Vec<(f64, f64)>,
    pub ys: (f64, f64),
    pub xn: M,
    pub l: M,
    pub rf: M, // R^-1 f_i , one vector per basis function
    pub bl: M, // chol of F'R^-1F
    pub beta: V,
    pub gamma: V,
    pub sigma2: f64,
    pub lkh: f64,
    pub cond: f64,
}

pub struct PD {
    pub mean: f64,
    pub var: f64,
    pub dmean: V,
    pub dvar: V,
}

impl Krig {
    pub fn new(x: &M, y: &[f64], kern: Kern, trend: Trend, theta: &[f64], w: M, nugget: f64) -> Option<Krig> {
        let (n, d) = (x.len(), x[0].len());
        let xs: Vec<(f64, f64)> = (0..d).map(|j| mean_std(x.iter().map(move |r| r[j]))).collect();
        let ys = mean_std(y.iter().cloned());
        let xn: M = x.iter().map(|r| (0..d).map(|j| (r[j] - xs[j].0) / xs[j].1).collect()).collect();
        let yn: V = y.iter().map(|v| (v - ys.0) / ys.1).collect();
        let mut r = vec![vec![0.; n]; n];
        for i in 0..n {
            for j in 0..n {
                let dd: Vec<D> = (0..d).map(|k| D::c(xn[i][k] - xn[j][k])).collect();
                r[i][j] = corr(kern, &dd, &w, theta).0 + if i == j { nugget } else { 0. };
            }
        }
        let l = chol(&r)?;
        let cd = cond(&r, &l);
        let f: Vec<V> = xn
            .iter()
            .map(|p| basis(trend, &p.iter().map(|v| D::c(*v)).collect::<Vec<_>>()).iter().map(|d| d.0).collect())
            .collect();
        let m = f[0].len();
        let fc: M = (0..m).map(|k| f.iter().map(|r| r[k]).collect()).collect();
        let rf: M = fc.iter().map(|c| csolve(&l, c)).collect();
        let b: M = (0..m).map(|i| (0..m).map(|j| dot(&fc[i], &rf[j])).collect()).collect();
        let bl = chol(&b)?;
        let cd = cd.max(cond(&b, &bl).sqrt());
        let ry = csolve(&l, &yn);
        let fy: V = fc.iter().map(|c| dot(c, &ry)).collect();
        let beta = csolve(&bl, &fy);
        let res: V = (0..n).map(|i| yn[i] - dot(&f[i], &beta)).collect();
        let gamma = csolve(&l, &res);
        let s2n = dot(&res, &gamma) / n as f64;
        let logdet: f64 = (0..n).map(|i| l[i][i].log10()).sum::<f64>() * 2.;
        let lkh = -(n as f64) * s2n.log10() - logdet;
        Some(Krig { kern, trend, theta: theta.to_vec(), w, xs, ys, xn, l, rf, bl, beta, gamma, sigma2: s2n * ys.1 * ys.1, lkh, cond: cd })
    }

    fn rvec(&self, x: &[f64], dir: Option<usize>) -> (Vec<D>, Vec<D>) {
        let d = x.len();
        let p: Vec<D> = (0..d)
            .map(|k| D((x[k] - self.xs[k].0) / self.xs[k].1, if dir == Some(k) { 1. / self.xs[k].1 } else { 0. }))
            .collect();
        let r = self
            .xn
            .iter()
            .map(|t| {
                let dd: Vec<D> = (0..d).map(|k| p[k] - D::c(t[k])).collect();
                corr(self.kern, &dd, &self.w, &self.theta)
            })
            .collect();
        (r, basis(self.trend, &p))
    }

    /// unclipped mean/variance and their derivatives
    pub fn at(&self, x: &[f64]) -> PD {
        let d = x.len();
        let mut out = PD { mean: 0., var: 0., dmean: vec![], dvar: vec![] };
        for k in 0..d {
            let (r, f) = self.rvec(x, Some(k));
            let (rv, rd): (V, V) = (r.iter().map(|v| v.0).collect(), r.iter().map(|v| v.1).collect());
            let (fv, fd): (V, V) = (f.iter().map(|v| v.0).collect(), f.iter().map(|v| v.1).collect());
            if k == 0 {
                out.mean = self.ys.0 + self.ys.1 * (dot(&fv, &self.beta) + dot(&rv, &self.gamma));
            }
            out.dmean.push(self.ys.1 * (dot(&fd, &self.beta) + dot(&rd, &self.gamma)));
            let rr = csolve(&self.l, &rv);
            let a: V = (0..fv.len()).map(|i| fv[i] - dot(&rv, &self.rf[i])).collect();
            let da: V = (0..fv.len()).map(|i| fd[i] - dot(&rd, &self.rf[i])).collect();
            let ba = csolve(&self.bl, &a);
            if k == 0 {
                out.var = self.sigma2 * (1. - dot(&rv, &rr) + dot(&a, &ba));
            }
            out.dvar.push(self.sigma2 * 2. * (dot(&da, &ba) - dot(&rd, &rr)));
        }
        out
    }

    /// posterior covariance matrix at several points
    pub fn cov(&self, xs: &M) -> M {
        let q: Vec<(V, V, V)> = xs
            .iter()
            .map(|x| {
                let (r, f) = self.rvec(x, None);
                let rv: V = r.iter().map(|v| v.0).collect();
                let fv: V = f.iter().map(|v| v.0).collect();
                let a: V = (0..fv.len()).map(|i| fv[i] - dot(&rv, &self.rf[i])).collect();
                let p: V = (0..x.len()).map(|k| (x[k] - self.xs[k].0) / self.xs[k].1).collect();
                (p, rv, a)
            })
            .collect();
        (0..xs.len())
            .map(|i| {
                (0..xs.len())
                    .map(|j| {
                        let dd: Vec<D> = q[i].0.iter().zip(&q[j].0).map(|(u, v)| D::c(u - v)).collect();
                        self.sigma2
                            * (corr(self.kern, &dd, &self.w, &self.theta).0 - dot(&q[i].1, &csolve(&self.l, &q[j].1))
                                + dot(&q[i].2, &csolve(&self.bl, &q[j].2)))
                    })
                    .collect()
            })
            .collect()
    }
}

/// Sparse posterior computed with full n x n matrices
pub struct Sparse {
    pub kern: Kern,
    pub theta: V,
    pub w: M,
    pub s2: f64,
    pub noise: f64,
    pub z: M,
    pub kl: M,   // chol(Kmm + nugget)
    pub kmn: M,  // per training point: k(z, x_i)
    pub sl: M,   // chol(Q + Lambda)
    pub alpha: V,
    pub lkh: f64,
    pub cond: f64,
}

fn kvec(kern: Kern, theta: &[f64], w: &M, s2: f64, a: &[f64], z: &M) -> V {
    z.iter()
        .map(|p| {
            let dd: Vec<D> = a.iter().zip(p).map(|(u, v)| D::c(u - v)).collect();
            s2 * corr(kern, &dd, w, theta).0
        })
        .collect()
}

impl Sparse {
    #[allow(clippy::too_many_arguments)]
    pub fn new(x: &M, y: &[f64], kern: Kern, theta: &[f64], w: M, s2: f64, noise: f64, z: &M, vfe: bool, nugget: f64) -> Option<Sparse> {
        let n = x.len();
        let mut kmm: M = z.iter().map(|p| kvec(kern, theta, &w, s2, p, z)).collect();
        for i in 0..z.len() {
            kmm[i][i] += nugget;
        }
        let kl = chol(&kmm)?;
        let c1 = cond(&kmm, &kl);
        let kmn: M = x.iter().map(|p| kvec(kern, theta, &w, s2, p, z)).collect();
        let kk: M = kmn.iter().map(|v| csolve(&kl, v)).collect();
        let mut s: M = (0..n).map(|i| (0..n).map(|j| dot(&kmn[i], &kk[j])).collect()).collect();
        let mut tr = 0.;
        for i in 0..n {
            let nu = s2 - s[i][i];
            tr += nu;
            if vfe {
                s[i][i] += noise.max(nugget);
            } else {
                s[i][i] += nu + noise;
            }
        }
        let sl = chol(&s)?;
        let c2 = cond(&s, &sl);
        let alpha = csolve(&sl, y);
        let mut lkh = 2. * (0..n).map(|i| sl[i][i].ln()).sum::<f64>() + dot(y, &alpha);
        if vfe {
            lkh += tr / noise.max(nugget);
        }
        Some(Sparse { kern, theta: theta.to_vec(), w, s2, noise, z: z.clone(), kl, kmn, sl, alpha, lkh: -0.5 * lkh, cond: c1.max(c2) })
    }
    fn q(&self, x: &[f64]) -> V {
        let k = csolve(&self.kl, &kvec(self.kern, &self.theta, &self.w, self.s2, x, &self.z));
        self.kmn.iter().map(|v| dot(v, &k)).collect()
    }
    pub fn mean(&self, x: &[f64]) -> f64 {
        dot(&self.q(x), &self.alpha)
    }
    /// noise-free posterior covariance
    pub fn cov(&self, a: &[f64], b: &[f64]) -> f64 {
        let (qa, qb) = (self.q(a), self.q(b));
        kvec(self.kern, &self.theta, &self.w, self.s2, a, &vec![b.to_vec()])[0] - dot(&qa, &csolve(&self.sl, &qb))
    }
}
