//! Exploration of the optimization loop: the environment (the user's function) is a nondeterministic
//! process answering each evaluation from a small alphabet; every sequence of answers up to a depth is
//! executed on the real solver and the run is monitored against the list of what was really evaluated.
//! E02 (history), E03 (budget), E09 (trust region), E13 (function constraints), E14 (batches)
use super::egobase::{is_valid, ref_best, ref_decode, tsname, width};
use crate::cx::*;
use crate::ensure;
use argmin::core::{Problem, Solver, State, TerminationReason, TerminationStatus};
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{
    CoegoStatus, ConstraintStrategy, CstrFn, EgorConfig, EgorSolver, EgorState, GroupFunc, InfillObjData, InfillOptimizer,
    InfillStrategy, ObjFunc, QEiStrategy, SurrogateBuilder, XType,
};
use egobox_gp::ThetaTuning;
use egobox_moe::{CorrelationSpec, GpMixtureParams, NbClusters, Recombination, RegressionSpec};
use ndarray::{Array1, Array2, ArrayView2, Axis, concatenate};
use serde::de::DeserializeOwned;
use std::sync::{Arc, Mutex};

pub const TOL: f64 = 1e-4;

/// What the environment answers to one evaluation
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ans {
    /// smooth function of the point
    Smooth,
    /// better than everything, feasible
    Better,
    /// same objective as the current best, constraints exactly at tolerance
    Tie,
    /// better objective but constraints violated
    BetterInfeasible,
    /// better objective, constraints violated by a hair
    BetterAlmost,
    /// worse than everything
    Worse,
    /// better by less than the sufficient decrease of the trust region
    Slightly,
}
use Ans::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Doe {
    /// sampled by the solver (0: default size)
    Lhs(usize),
    /// inputs given
    X(usize),
    /// inputs and outputs given
    XY(usize),
}

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub types: Vec<XType>,
    pub n_cstr: usize,
    pub n_fc: usize,
    pub q: usize,
    pub qei: QEiStrategy,
    pub infill: InfillStrategy,
    pub slsqp: bool,
    pub trego: bool,
    pub coego: Option<usize>,
    pub cstr_infill: bool,
    pub utb: bool,
    pub doe: Doe,
    /// initial design all infeasible
    pub infeasible_doe: bool,
    /// added to function constraints
    pub fc_shift: f64,
    pub target: Option<f64>,
    pub max_iters: usize,
    pub tol: Option<Vec<f64>>,
    pub clusters: usize,
    /// surrogate variant
    pub gp: u8,
    pub optmod: usize,
    pub seed: u64,
    pub n_start: usize,
    pub depth: usize,
    pub answers: Vec<Ans>,
}

pub fn f1() -> Vec<XType> {
    vec![XType::Float(-1., 3.)]
}
pub fn f2() -> Vec<XType> {
    vec![XType::Float(0., 1.), XType::Float(-20., 5.)]
}
pub fn mixed() -> Vec<XType> {
    vec![XType::Int(-1, 3), XType::Float(0., 1.)]
}
pub fn enums() -> Vec<XType> {
    vec![XType::Float(0., 1.), XType::Enum(3), XType::Ord(vec![-2., 0.5, 7.])]
}
pub fn ints() -> Vec<XType> {
    vec![XType::Int(2, 2), XType::Ord(vec![3., -1., 4.5, 0.]), XType::Int(-3, 9)]
}
pub fn tiny() -> Vec<XType> {
    vec![XType::Int(0, 1), XType::Int(0, 2)]
}

/// surrogate variants: dimension reduction, kernels and trends, tuning effort, start and bounds of the tuning
pub fn gp_kpls(gp: u8) -> Option<usize> {
    match gp {
        1 => Some(1),
        8 => Some(2),
        _ => None,
    }
}
pub fn gp_specs(gp: u8) -> (RegressionSpec, CorrelationSpec) {
    match gp {
        2 => (RegressionSpec::LINEAR, CorrelationSpec::MATERN52),
        4 => (RegressionSpec::CONSTANT | RegressionSpec::LINEAR, CorrelationSpec::ALL),
        5 => (RegressionSpec::CONSTANT, CorrelationSpec::MATERN32),
        _ => (RegressionSpec::CONSTANT, CorrelationSpec::SQUAREDEXPONENTIAL),
    }
}
pub fn gp_optim(gp: u8) -> (usize, usize) {
    match gp {
        5 => (2, 30),
        6 => (3, 12),
        7 => (0, 40),
        _ => (1, 15),
    }
}
pub fn gp_tuning(gp: u8, h: usize) -> (Vec<f64>, Vec<(f64, f64)>) {
    match gp {
        5 => (vec![0.5], vec![(0.05, 3.)]),
        7 => ((0..h).map(|i| 0.2 + 0.1 * i as f64).collect(), (0..h).map(|i| (0.02 * (1 + i) as f64, 4. + i as f64)).collect()),
        8 => (vec![0.3, 0.7], vec![(0.03, 5.)]),
        _ => (vec![0.1], vec![(1e-2, 1e1)]),
    }
}

pub fn cfg(name: &str, types: Vec<XType>) -> Cfg {
    Cfg {
        name: name.into(),
        types,
        n_cstr: 0,
        n_fc: 0,
        q: 1,
        qei: QEiStrategy::KrigingBeliever,
        infill: InfillStrategy::LogEI,
        slsqp: true,
        trego: false,
        coego: None,
        cstr_infill: false,
        utb: false,
        doe: Doe::X(3),
        infeasible_doe: false,
        fc_shift: 0.,
        target: None,
        max_iters: 20,
        tol: None,
        clusters: 1,
        gp: 0,
        optmod: 1,
        seed: 42,
        n_start: 4,
        depth: 3,
        answers: vec![Smooth, Better, Tie, Worse],
    }
}

impl Cfg {
    pub fn discrete(&self) -> bool {
        self.types.iter().any(|t| !matches!(t, XType::Float(..)))
    }
    pub fn nx_relaxed(&self) -> usize {
        self.types.iter().map(width).sum()
    }
    pub fn limits(&self) -> Vec<(f64, f64)> {
        self.types
            .iter()
            .flat_map(|t| match t {
                XType::Float(a, b) => vec![(*a, *b)],
                XType::Int(a, b) => vec![(*a as f64, *b as f64)],
                XType::Ord(v) => vec![(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))],
                XType::Enum(n) => vec![(0., 1.); *n],
            })
            .collect()
    }
    pub fn tols(&self) -> Vec<f64> {
        let mut t = vec![TOL; self.n_cstr + self.n_fc];
        if let Some(u) = &self.tol {
            t[..u.len()].copy_from_slice(u);
        }
        t
    }
    /// k-th point of the given design (relaxed space)
    pub fn doe_point(&self, k: usize) -> Vec<f64> {
        self.limits()
            .iter()
            .enumerate()
            .map(|(j, (a, b))| {
                let t = [[0.13, 0.58, 0.91, 0.37, 0.74, 0.02], [0.81, 0.22, 0.47, 0.95, 0.09, 0.63], [0.4, 0.9, 0.15, 0.66, 0.31, 0.78]][j % 3]
                    [(k + j / 3) % 6];
                a + t * (b - a)
            })
            .collect()
    }
    pub fn decode(&self, xr: &[f64]) -> Result<Vec<f64>, String> {
        let mut k = 0;
        let mut out = vec![];
        for t in &self.types {
            let w = width(t);
            let d = ref_decode(t, &xr[k..k + w]);
            ensure!(!d.is_empty(), "no decoding of {xr:?}");
            out.push(d[0]);
            k += w;
        }
        Ok(out)
    }
    /// is the user point xu an acceptable decoding of the relaxed point xr
    pub fn decodes(&self, xr: &[f64], xu: &[f64]) -> bool {
        let mut k = 0;
        if xu.len() != self.types.len() || xr.len() != self.nx_relaxed() {
            return false;
        }
        for (t, v) in self.types.iter().zip(xu) {
            let w = width(t);
            if !ref_decode(t, &xr[k..k + w]).contains(v) {
                return false;
            }
            k += w;
        }
        true
    }
    pub fn valid_user(&self, xu: &[f64]) -> bool {
        xu.len() == self.types.len() && self.types.iter().zip(xu).all(|(t, v)| is_valid(t, *v))
    }
    pub fn config(&self) -> EgorConfig {
        let mut c = EgorConfig::default()
            .xtypes(&self.types)
            .n_cstr(self.n_cstr)
            .q_points(self.q)
            .qei_strategy(self.qei.clone())
            .infill_strategy(self.infill.clone())
            .infill_optimizer(if self.slsqp { InfillOptimizer::Slsqp } else { InfillOptimizer::Cobyla })
            .trego(self.trego)
            .coego(self.coego.map_or(CoegoStatus::Disabled, CoegoStatus::Enabled))
            .cstr_infill(self.cstr_infill)
            .cstr_strategy(if self.utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .max_iters(self.max_iters)
            .n_start(self.n_start)
            .q_optmod(self.optmod)
            .seed(self.seed);
        if let Some(t) = self.target {
            c = c.target(t);
        }
        if let Some(t) = &self.tol {
            c = c.cstr_tol(Array1::from_vec(t.clone()));
        }
        let ncl = self.clusters;
        let gp = self.gp;
        c = c.configure_gp(|g| {
            let g = g.n_start(1).max_eval(15).n_clusters(NbClusters::fixed(ncl));
            let (regr, corr) = gp_specs(gp);
            let (starts, evals) = gp_optim(gp);
            let g = g.correlation_spec(corr).regression_spec(regr).n_start(starts).max_eval(evals);
            match gp {
                1 => g.kpls(1),
                3 => g.n_clusters(NbClusters::auto()).recombination(Recombination::Hard),
                5 | 7 => {
                    let (init, bounds) = gp_tuning(gp, self.nx_relaxed());
                    g.theta_tuning(ThetaTuning::Full { init: Array1::from_vec(init), bounds: Array1::from_vec(bounds) })
                }
                6 => g.recombination(Recombination::Hard),
                8 => g.kpls_dim(Some(2)).theta_tuning(ThetaTuning::Full { init: Array1::from_vec(gp_tuning(8, 2).0), bounds: Array1::from_vec(gp_tuning(8, 2).1) }),
                _ => g,
            }
        });
        match self.doe {
            Doe::Lhs(n) => c = c.n_doe(n),
            Doe::X(n) => c = c.doe(&Array2::from_shape_fn((n, self.nx_relaxed()), |(i, j)| self.doe_point(i)[j])),
            Doe::XY(n) => {
                let x = Array2::from_shape_fn((n, self.nx_relaxed()), |(i, j)| self.doe_point(i)[j]);
                let y = Array2::from_shape_fn((n, 1 + self.n_cstr), |(i, j)| self.smooth(&self.decode(&self.doe_point(i)).unwrap(), true)[j]);
                c = c.doe(&concatenate![Axis(1), x, y]);
            }
        }
        c
    }
    /// normalized coordinates of a user point
    fn unit(&self, xu: &[f64]) -> Vec<f64> {
        self.types
            .iter()
            .zip(xu)
            .map(|(t, v)| match t {
                XType::Float(a, b) => (v - a) / (b - a),
                XType::Int(a, b) => (v - *a as f64) / (*b as f64 - *a as f64).max(1.),
                XType::Ord(l) => l.iter().position(|u| u == v).map_or(f64::NAN, |p| p as f64 / l.len() as f64),
                XType::Enum(n) => v / *n as f64,
            })
            .collect()
    }
    pub fn smooth(&self, xu: &[f64], initial: bool) -> Vec<f64> {
        let u = self.unit(xu);
        let mut y = vec![u.iter().enumerate().map(|(j, v)| (v - 0.3 - 0.1 * j as f64).powi(2) * 4.).sum::<f64>()];
        for k in 0..self.n_cstr {
            let c = u[k % u.len()] - 0.55 - 0.1 * k as f64;
            y.push(if initial && self.infeasible_doe { 0.3 + c.abs() } else { c });
        }
        y
    }
    /// k-th function constraint
    pub fn fc(&self, k: usize, xu: &[f64]) -> f64 {
        let u = self.unit(xu);
        let s: f64 = u.iter().sum();
        self.fc_shift
            + match k % 3 {
                0 => 5. * (u[0] - 0.7),
                1 => 0.25 - s,
                _ => 40. * (u[u.len() - 1] - 0.85),
            }
    }
    /// largest absolute value of a function constraint
    fn fc_max(&self, k: usize) -> f64 {
        let n = self.types.len();
        let ends: Vec<Vec<f64>> = self
            .types
            .iter()
            .map(|t| match t {
                XType::Float(a, b) => vec![*a, *b],
                XType::Int(a, b) => vec![*a as f64, *b as f64],
                XType::Ord(v) => v.clone(),
                XType::Enum(m) => (0..*m).map(|i| i as f64).collect(),
            })
            .collect();
        crate::util::odometer(&ends.iter().map(|e| e.len()).collect::<Vec<_>>())
            .iter()
            .map(|w| self.fc(k, &(0..n).map(|j| ends[j][w[j]]).collect::<Vec<_>>()).abs())
            .fold(0., f64::max)
    }
    pub fn fc_grad(&self, k: usize) -> Vec<f64> {
        let n = self.types.len();
        let sc = |j: usize| match &self.types[j] {
            XType::Float(a, b) => 1. / (b - a),
            XType::Int(a, b) => 1. / (*b as f64 - *a as f64).max(1.),
            _ => 0.,
        };
        (0..n)
            .map(|j| match k % 3 {
                0 => 5. * sc(j) * (j == 0) as u8 as f64,
                1 => -sc(j),
                _ => 40. * sc(j) * (j == n - 1) as u8 as f64,
            })
            .collect()
    }
}

/// What really happened
#[derive(Clone, Default)]
pub struct World {
    /// evaluated points (user space) with the returned values
    pub log: Vec<(Vec<f64>, Vec<f64>)>,
    /// sizes of the evaluated batches
    pub batches: Vec<usize>,
    /// answer to the next evaluations (None: initial design)
    pub next: Option<Ans>,
    /// context of relative answers: best objective, largest objective, sufficient decrease
    pub best: f64,
    pub worst: f64,
    pub rho: f64,
    /// number of calls of function constraints, first bad call
    pub fcalls: u64,
    pub fbad: Option<String>,
}
pub type W = Arc<Mutex<World>>;

fn answer(c: &Cfg, w: &World, xu: &[f64], j: usize) -> Vec<f64> {
    let Some(a) = w.next else { return c.smooth(xu, true) };
    // points of a batch get successive answers
    let a = if j == 0 { a } else { c.answers[(c.answers.iter().position(|b| *b == a).unwrap_or(0) + j) % c.answers.len()] };
    let tols = c.tols();
    let with = |o: f64, dc: Option<f64>| {
        let mut y = vec![o];
        for t in &tols[..c.n_cstr] {
            y.push(dc.map_or(-1., |d| t + d));
        }
        y
    };
    match a {
        Smooth => c.smooth(xu, false),
        Better => with(w.best - 1., None),
        Tie => with(w.best, Some(0.)),
        BetterInfeasible => with(w.best - 2., Some(0.5)),
        BetterAlmost => with(w.best - 2., Some(1e-9)),
        Worse => with(w.worst + 1., None),
        Slightly => with(w.best - 0.5 * w.rho, None),
    }
}

pub fn objective(c: &Cfg, w: &W) -> impl GroupFunc + use<> {
    let (c, w) = (c.clone(), w.clone());
    move |x: &ArrayView2<f64>| {
        let mut w = w.lock().unwrap();
        let mut y = Array2::zeros((x.nrows(), 1 + c.n_cstr));
        for (j, r) in x.outer_iter().enumerate() {
            let xu = r.to_vec();
            let v = answer(&c, &w, &xu, j);
            y.row_mut(j).assign(&Array1::from_vec(v.clone()));
            w.log.push((xu, v));
        }
        w.batches.push(x.nrows());
        y
    }
}
pub fn fconstraints(c: &Cfg, w: &W) -> Vec<impl CstrFn + use<>> {
    (0..c.n_fc)
        .map(|k| {
            let (c, w) = (c.clone(), w.clone());
            move |x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>| -> f64 {
                let mut w = w.lock().unwrap();
                w.fcalls += 1;
                if !c.valid_user(x) {
                    w.fbad.get_or_insert(format!("function constraint {k} called at {x:?}"));
                    return 1.;
                }
                if let Some(g) = g {
                    if g.len() != x.len() {
                        w.fbad.get_or_insert(format!("gradient of function constraint {k} requested on {} components", g.len()));
                    } else {
                        g.copy_from_slice(&c.fc_grad(k));
                    }
                }
                c.fc(k, x)
            }
        })
        .collect()
}

/// A monitored run
#[derive(Clone)]
pub struct Node {
    pub state: EgorState<f64>,
    pub world: World,
    /// reference copy of the history: relaxed x, y, function constraints
    pub rows: Vec<(Vec<f64>, Vec<f64>, Vec<f64>)>,
    pub n_init: usize,
    pub iters: u64,
    pub last_best_iter: u64,
    pub evals: u64,
    pub trace: Vec<Ans>,
    /// reference automaton of the trust region
    pub sigma: f64,
    pub prev_global: bool,
    pub pbest: usize,
}

/// records failures of one property only
pub struct Mon<'a> {
    pub want: &'a str,
}
macro_rules! chk {
    ($m:expr, $p:expr, $c:expr, $($a:tt)*) => { if $m.want == $p && !($c) { return Err(format!($($a)*)); } };
}

const FC_SCALED: &str = "fcstr-scaled";

impl Mon<'_> {
    fn best_rows(&self, c: &Cfg, n: &Node) -> Vec<(f64, Vec<f64>)> {
        let _ = c;
        n.rows.iter().map(|(_, y, f)| (y[0], y[1..].iter().chain(f).copied().collect())).collect()
    }

    /// checks common to every state, given the rows added since the previous one
    fn history(&self, c: &Cfg, n: &Node, rec: &mut Rec) -> R {
        let (x, y, f) = n.state.data.as_ref().ok_or("no data")?;
        let tr = &n.trace;
        chk!(self, "E02", x.nrows() == n.rows.len() && y.nrows() == x.nrows() && f.nrows() == x.nrows(), "history has {} inputs, {} outputs, {} rows of function constraints after {} evaluations ({tr:?})", x.nrows(), y.nrows(), f.nrows(), n.rows.len());
        ensure!(x.nrows() == n.rows.len() && y.nrows() == x.nrows() && f.nrows() == x.nrows(), "history of {} rows, {} evaluated", x.nrows(), n.rows.len());
        chk!(self, "E02", y.ncols() == 1 + c.n_cstr && f.ncols() == c.n_fc && x.ncols() == c.nx_relaxed(), "history has {} + {} + {} columns", x.ncols(), y.ncols(), f.ncols());
        let lim = c.limits();
        for i in 0..x.nrows() {
            let xi = x.row(i).to_vec();
            let (rx, ry, rf) = &n.rows[i];
            chk!(self, "E02", xi == *rx, "input {i} of the history changed from {rx:?} to {xi:?} ({tr:?})");
            for (j, (a, b)) in lim.iter().enumerate() {
                chk!(self, "E02", xi[j] >= *a && xi[j] <= *b, "input {i} of the history is out of bounds: {xi:?} ({tr:?})");
            }
            let same = y.row(i).iter().zip(ry).all(|(a, b)| a.to_bits() == b.to_bits());
            chk!(self, "E02", same, "output {i} of the history is {} while {ry:?} was returned ({tr:?})", y.row(i));
            chk!(self, "E14", same, "output {i} of the history is {} while {ry:?} was returned ({tr:?})", y.row(i));
            let same = f.row(i).iter().zip(rf).all(|(a, b)| a.to_bits() == b.to_bits());
            chk!(self, "E13", same, "function constraints of row {i} changed from {rf:?} to {} ({tr:?})", f.row(i));
            rec.step(1);
        }
        let rows = self.best_rows(c, n);
        let tols = c.tols();
        let st: Vec<f64> = n.state.cstr_tol.to_vec();
        chk!(self, "E13", st == tols, "tolerances are {st:?} instead of {tols:?}");
        let rb = ref_best(&rows, &tols);
        let b = n.state.best_index;
        for p in ["E02", "E13"] {
            chk!(self, p, b == Some(rb), "best index is {b:?} instead of {rb} in {rows:?} ({tr:?})");
        }
        let b = b.ok_or("no best")?;
        chk!(self, "E02", n.state.best_param.as_ref().map(|v| v.to_vec()) == Some(x.row(b).to_vec()), "best param is {:?}, row {b} is {} ({tr:?})", n.state.best_param, x.row(b));
        chk!(self, "E02", n.state.best_cost.as_ref().map(|v| v.to_vec()) == Some(y.row(b).to_vec()), "best cost is {:?}, row {b} is {} ({tr:?})", n.state.best_cost, y.row(b));
        chk!(self, "E02", n.state.get_best_cost() == y[[b, 0]], "best cost {} differs from {}", n.state.get_best_cost(), y[[b, 0]]);
        chk!(self, "E02", n.state.last_best_iter == n.last_best_iter, "last best iteration is {} instead of {} ({tr:?})", n.state.last_best_iter, n.last_best_iter);
        chk!(self, "E03", n.state.doe_size == n.n_init, "initial design of {} points recorded as {}", n.n_init, n.state.doe_size);
        chk!(self, "E03", n.state.added == n.rows.len(), "{} points recorded as added, {} evaluated ({tr:?})", n.state.added, n.rows.len());
        if let Some(b) = &n.world.fbad {
            chk!(self, "E13", false, "{b} ({tr:?})");
        }
        Ok(())
    }

    /// adds to the reference history the evaluations done since the previous state
    fn absorb(&self, c: &Cfg, n: &mut Node, rec: &mut Rec) -> R {
        let (x, _, f) = n.state.data.as_ref().ok_or("no data")?;
        let tr = n.trace.clone();
        let given = if n.trace.is_empty() && n.rows.is_empty() && matches!(c.doe, Doe::XY(_)) { n.n_init } else { 0 };
        let old = n.rows.len();
        let add = if given > 0 { given } else { n.world.log.len() - n.evals as usize };
        chk!(self, "E02", x.nrows() == old + add, "history has {} rows after {} + {add} evaluations ({tr:?})", x.nrows(), old);
        ensure!(x.nrows() == old + add, "history of {} rows after {} evaluations", x.nrows(), old + add);
        for i in 0..add {
            let xr = x.row(old + i).to_vec();
            let (xu, yu) = if given > 0 {
                let xu = c.decode(&xr)?;
                let y = c.smooth(&xu, true);
                (xu, y)
            } else {
                n.world.log[n.evals as usize + i].clone()
            };
            if given > 0 {
                chk!(self, "E02", xr == c.doe_point(i), "given point {i} {:?} became {xr:?}", c.doe_point(i));
            }
            chk!(self, "E02", c.valid_user(&xu), "the function was called at {xu:?}, not in {} ({tr:?})", tsname(&c.types));
            for p in ["E02", "E14"] {
                chk!(self, p, c.decodes(&xr, &xu), "input {} of the history is {xr:?} while the function was called at {xu:?} ({tr:?})", old + i);
            }
            // distinct from all previous points (in the space the optimizer works in)
            if !n.trace.is_empty() {
                for (j, (rx, ..)) in n.rows.iter().enumerate() {
                    let d: f64 = rx.iter().zip(&xr).map(|(a, b)| (a - b).abs()).sum();
                    for p in ["E02", "E14"] {
                        chk!(self, p, d >= 100. * f64::EPSILON, "point {xr:?} was already evaluated as row {j} ({tr:?})");
                    }
                }
            }
            let fu: Vec<f64> = (0..c.n_fc).map(|k| c.fc(k, &xu)).collect();
            let fs = f.row(old + i).to_vec();
            let mut stored = fu.clone();
            for k in 0..c.n_fc {
                if fs[k].to_bits() != fu[k].to_bits() {
                    // recorded defect: values of added points are stored divided by a positive scaling factor
                    // (largest absolute value over a sampling of the domain)
                    let s = fu[k] / fs[k];
                    let top = c.fc_max(k);
                    if n.trace.is_empty() || !(s > 0.5 * top && s <= top * (1. + 1e-12)) {
                        chk!(self, "E13", false, "function constraint {k} of row {} is {} instead of {} ({tr:?})", old + i, fs[k], fu[k]);
                    }
                    if self.want == "E13" {
                        rec.kind(FC_SCALED, format!("function constraint {k} of row {} is {} instead of {} ({tr:?})", old + i, fs[k], fu[k]));
                    }
                    stored[k] = fs[k];
                }
            }
            n.rows.push((xr, yu, stored));
        }
        n.evals = n.world.log.len() as u64;
        Ok(())
    }

    fn update(&self, n: &mut Node) {
        n.state.update();
    }

    /// expected status before the next iteration
    fn status(&self, c: &Cfg, n: &Node, got: &TerminationStatus) -> R {
        let rows = self.best_rows(c, n);
        let tols = c.tols();
        let b = ref_best(&rows, &tols);
        let feasible = rows[b].1.iter().zip(&tols).all(|(v, t)| v <= t);
        let want = if n.iters >= c.max_iters as u64 {
            TerminationStatus::Terminated(TerminationReason::MaxItersReached)
        } else if feasible && rows[b].0 <= c.target.unwrap_or(f64::MIN) {
            TerminationStatus::Terminated(TerminationReason::TargetCostReached)
        } else {
            TerminationStatus::NotTerminated
        };
        chk!(self, "E03", *got == want, "status {got:?} instead of {want:?} after {} iterations, best {:?} (target {:?}, trace {:?})", n.iters, rows[b], c.target, n.trace);
        Ok(())
    }
}

pub struct Run<'a, SB: SurrogateBuilder + DeserializeOwned> {
    pub c: &'a Cfg,
    pub mon: Mon<'a>,
    _sb: std::marker::PhantomData<SB>,
}

impl<'a, SB: SurrogateBuilder + DeserializeOwned> Run<'a, SB> {
    pub fn new(c: &'a Cfg, want: &'a str) -> Self {
        Run { c, mon: Mon { want }, _sb: std::marker::PhantomData }
    }

    /// initial design
    pub fn start(&self, rec: &mut Rec) -> Result<Node, String> {
        let c = self.c;
        let w: W = Arc::new(Mutex::new(World::default()));
        let (obj, fcs) = (objective(c, &w), fconstraints(c, &w));
        let mut solver = EgorSolver::<SB, _>::new(c.config().check().map_err(|e| e.to_string())?);
        bind(&mut solver, &fcs);
        let mut problem = Problem::new(ObjFunc::new(obj).subject_to(fcs));
        let st = EgorState::new();
        let (state, _) = catch(|| solver.init(&mut problem, st)).map_err(|p| format!("initialization: {p}"))?.map_err(|e| e.to_string())?;
        let n_init = match c.doe {
            Doe::Lhs(0) => (c.nx_relaxed() + 1).max(5),
            Doe::Lhs(n) | Doe::X(n) | Doe::XY(n) => n,
        };
        let world = w.lock().unwrap().clone();
        let mut n = Node {
            state,
            world,
            rows: vec![],
            n_init,
            iters: 0,
            last_best_iter: 0,
            evals: 0,
            trace: vec![],
            sigma: 0.1,
            prev_global: false,
            pbest: 0,
        };
        let m = &self.mon;
        self.mon.update(&mut n);
        let want = if matches!(c.doe, Doe::XY(_)) { 0 } else { n_init };
        for p in ["E03", "E02"] {
            chk!(m, p, n.world.log.len() == want, "{} evaluations for an initial design {:?}", n.world.log.len(), c.doe);
        }
        if let Doe::X(_) = c.doe {
            for (i, (xu, _)) in n.world.log.iter().enumerate() {
                chk!(m, "E02", c.decodes(&c.doe_point(i), xu), "given point {i} {:?} was evaluated at {xu:?}", c.doe_point(i));
            }
        }
        m.absorb(c, &mut n, rec)?;
        m.history(c, &n, rec)?;
        n.pbest = n.state.best_index.unwrap();
        let s: TerminationStatus = self.status(&n)?;
        m.status(c, &n, &s)?;
        rec.state((c.name.as_str(), 0u8));
        Ok(n)
    }

    fn status(&self, n: &Node) -> Result<TerminationStatus, String> {
        let w: W = Arc::new(Mutex::new(World::default()));
        let (obj, fcs) = (objective(self.c, &w), fconstraints(self.c, &w));
        let mut solver = EgorSolver::<SB, _>::new(self.c.config().check().map_err(|e| e.to_string())?);
        bind(&mut solver, &fcs);
        Ok(terminate(&mut solver, &ObjFunc::new(obj).subject_to(fcs), &n.state))
    }

    /// one iteration with the given answer
    pub fn step(&self, n0: &Node, a: Ans, rec: &mut Rec) -> Result<Node, String> {
        let c = self.c;
        let m = &self.mon;
        let mut n = n0.clone();
        n.trace.push(a);
        let tr = n.trace.clone();
        n.world.next = Some(a);
        let b = n.state.best_index.unwrap();
        n.world.best = n.rows[b].1[0];
        n.world.worst = n.rows.iter().map(|r| r.1[0]).fold(f64::NEG_INFINITY, f64::max);
        n.world.rho = n.state.sigma * n.state.sigma;
        let nb0 = n.world.batches.len();
        let w: W = Arc::new(Mutex::new(n.world.clone()));
        let (obj, fcs) = (objective(c, &w), fconstraints(c, &w));
        let mut solver = EgorSolver::<SB, _>::new(c.config().check().map_err(|e| e.to_string())?);
        bind(&mut solver, &fcs);
        let mut problem = Problem::new(ObjFunc::new(obj).subject_to(fcs));
        let st = n.state.clone();
        let prev_best = n.state.best_index.unwrap();
        let (state, _) = catch(|| solver.next_iter(&mut problem, st)).map_err(|p| format!("iteration {tr:?}: {p}"))?.map_err(|e| format!("iteration {tr:?}: {e}"))?;
        n.state = state;
        n.world = w.lock().unwrap().clone();
        let batches = n.world.batches[nb0..].to_vec();
        let terminated = n.state.terminated();
        // number of evaluations of the iteration
        let counts = problem.counts.get("cost_count").copied().unwrap_or(0);
        chk!(m, "E03", counts == batches.len() as u64, "{counts} evaluations counted, {} done", batches.len());
        let added: usize = batches.iter().sum();
        let ok = match batches[..] {
            [] => terminated || (c.trego && !n.state.prev_step_ego),
            [k] => k >= 1 && k <= c.q && !terminated,
            _ => false,
        };
        if added > 0 && added < c.q {
            rec.count("batches partly rejected", 1);
        }
        for p in ["E03", "E14"] {
            chk!(m, p, ok, "an iteration evaluated {batches:?} points with {} requested (terminated: {terminated}, {tr:?})", c.q);
        }
        m.absorb(c, &mut n, rec)?;
        if terminated {
            let why = n.state.get_termination_reason().cloned();
            chk!(m, "E03", why == Some(TerminationReason::SolverConverged), "terminated by {why:?} ({tr:?})");
        }
        // reference: best index progress
        let rows = m.best_rows(c, &n);
        let rb = ref_best(&rows, &c.tols());
        if rb != prev_best && rb >= n.n_init {
            n.last_best_iter = n.iters + 1;
        }
        m.update(&mut n);
        self.trust_region(n0, &n, rb, added, terminated, rec)?;
        m.history(c, &n, rec)?;
        n.pbest = prev_best;
        n.state.increment_iter();
        n.iters += 1;
        chk!(m, "E03", n.state.get_iter() == n.iters, "iteration {} instead of {}", n.state.get_iter(), n.iters);
        if !terminated {
            let s = self.status(&n)?;
            m.status(c, &n, &s)?;
        }
        rec.state((c.name.as_str(), format!("{tr:?}")));
        if m.want == "E03" && added > 0 && c.q > 1 && !c.trego {
            // the run gives up after a fixed number of successive attempts which bring nothing
            if let (Ok(a), Ok(b)) = (serde_json::to_value(&n0.state), serde_json::to_value(&n.state)) {
                let k = "no_point_added_retries";
                let at = |v: &serde_json::Value| v.get(k).and_then(|v| v.as_i64());
                if let (Some(a), Some(b)) = (at(&a), at(&b)) {
                    ensure!(b >= a && b > 0, "{b} attempts left after an iteration which added {added} points, {a} before ({tr:?})");
                }
            }
        }
        rec.count("evaluations", added as u64);
        if terminated {
            rec.count("runs ended for lack of new points", 1);
        }
        Ok(n)
    }

    /// reference automaton of the trust region
    fn trust_region(&self, n0: &Node, n: &Node, rb: usize, added: usize, terminated: bool, rec: &mut Rec) -> R {
        let (c, m) = (self.c, &self.mon);
        if m.want != "E09" {
            return Ok(());
        }
        let tr = &n.trace;
        if !c.trego {
            ensure!(n.state.sigma == n0.state.sigma && !n.state.prev_step_ego, "trust region changed without the option");
            return Ok(());
        }
        let (best, prev) = (n0.state.best_index.unwrap(), n0.pbest);
        let success = n0.rows[best].1[0] < n0.rows[prev].1[0] - n0.sigma * n0.sigma;
        let want = if n0.iters == 0 {
            n0.sigma
        } else if success {
            n0.sigma * (10. / 9.)
        } else if !n0.prev_global {
            n0.sigma * 0.9
        } else {
            n0.sigma
        };
        ensure!(n.state.sigma == want, "size of the trust region {} -> {} instead of {want} (success {success}, previous step global {}, {tr:?})", n0.sigma, n.state.sigma, n0.prev_global);
        let global = n0.iters % 5 == 0 || (success && n0.prev_global);
        ensure!(n.state.prev_step_ego == global, "step recorded as global: {}, expected {global} (iteration {}, {tr:?})", n.state.prev_step_ego, n0.iters);
        if !global && added == 0 {
            rec.count("rejected local steps", 1);
        }
        if !global {
            ensure!(!terminated && added <= 1, "a local step evaluated {added} points ({tr:?})");
        }
        let wp = best;
        ensure!(n.state.prev_best_index == Some(wp), "previous best is {:?} instead of {wp} ({tr:?})", n.state.prev_best_index);
        ensure!(n.state.best_index == Some(rb), "best is {:?} instead of {rb} ({tr:?})", n.state.best_index);
        Ok(())
    }

    pub fn explore(&self, prefix: &[Ans], rec: &mut Rec) -> R {
        let mut n = self.start(rec)?;
        for a in prefix {
            n = self.step(&n, *a, rec)?;
            self.sync(&mut n);
            if n.state.terminated() {
                return Ok(());
            }
        }
        self.dfs(&n, rec)
    }
    pub fn sync(&self, n: &mut Node) {
        n.sigma = n.state.sigma;
        n.prev_global = n.state.prev_step_ego;
    }
    fn dfs(&self, n: &Node, rec: &mut Rec) -> R {
        if n.trace.len() >= self.c.depth {
            rec.trace();
            return Ok(());
        }
        for a in &self.c.answers {
            let mut k = self.step(n, *a, rec)?;
            self.sync(&mut k);
            if k.state.terminated() {
                rec.trace();
            } else {
                self.dfs(&k, rec)?;
            }
        }
        Ok(())
    }
}

/// ties the constraint type of the solver to the one of the functions
pub fn bind<SB: SurrogateBuilder + DeserializeOwned, C: CstrFn>(_s: &mut EgorSolver<SB, C>, _c: &[C]) {}

fn terminate<O: GroupFunc, SB: SurrogateBuilder + DeserializeOwned, C: CstrFn>(s: &mut EgorSolver<SB, C>, _p: &ObjFunc<O, C>, st: &EgorState<f64>) -> TerminationStatus {
    <EgorSolver<SB, C> as Solver<ObjFunc<O, C>, EgorState<f64>>>::terminate_internal(s, st)
}

fn cases_of(want: &'static str, cfgs: Vec<Cfg>, plen: usize) -> Vec<Case<'static>> {
    let mut out = vec![];
    for c in cfgs {
        let plen = plen.min(c.depth);
        let words = crate::util::odometer(&vec![c.answers.len(); plen]);
        for w in words {
            let p: Vec<Ans> = w.iter().map(|k| c.answers[*k]).collect();
            let key = format!("{}/{}", c.name, p.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join("-"));
            let c = c.clone();
            out.push(case(key, move |rec: &mut Rec| {
                if c.discrete() {
                    Run::<MixintGpMixtureParams>::new(&c, want).explore(&p, rec)
                } else {
                    Run::<GpMixtureParams<f64>>::new(&c, want).explore(&p, rec)
                }
            }));
        }
    }
    out
}

/// configurations of the exploration
fn base_cfgs(th: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let d = if th { 7 } else { 5 };
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.depth = d;
        f(&mut c);
        v.push(c);
    };
    let cons = vec![Smooth, Better, Tie, BetterInfeasible, BetterAlmost];
    add("f1", f1(), &|_| {});
    add("f1-lhs", f1(), &|c| c.doe = Doe::Lhs(0));
    add("f2-xy-ei-cobyla", f2(), &|c| {
        c.doe = Doe::XY(4);
        c.infill = InfillStrategy::EI;
        c.slsqp = false;
    });
    add("f2-cstr", f2(), &|c| {
        c.n_cstr = 1;
        c.answers = cons.clone();
        c.tol = Some(vec![0.01]);
    });
    add("f2-cstr2-inf-wb2s", f2(), &|c| {
        c.n_cstr = 2;
        c.answers = cons.clone();
        c.infeasible_doe = true;
        c.infill = InfillStrategy::WB2S;
        c.utb = true;
        c.doe = Doe::XY(4);
    });
    add("f1-cinf-logei", f1(), &|c| {
        c.n_cstr = 1;
        c.cstr_infill = true;
        c.infeasible_doe = true;
        c.answers = cons.clone();
    });
    add("mixed-cinf-ei", mixed(), &|c| {
        c.n_cstr = 1;
        c.cstr_infill = true;
        c.infill = InfillStrategy::EI;
        c.answers = cons.clone();
    });
    add("enums", enums(), &|c| c.doe = Doe::X(4));
    add("mixed-lhs-wb2", mixed(), &|c| {
        c.doe = Doe::Lhs(4);
        c.infill = InfillStrategy::WB2;
    });
    add("tiny", tiny(), &|c| {
        c.doe = Doe::Lhs(3);
        c.depth = d + 1;
        c.answers = vec![Smooth, Better];
    });
    add("ints-ei", ints(), &|c| {
        c.infill = InfillStrategy::EI;
        c.doe = Doe::Lhs(5);
        c.answers = vec![Smooth, Better, Tie];
    });
    add("f2-kpls", f2(), &|c| {
        c.gp = 1;
        c.doe = Doe::X(5);
        c.answers = vec![Smooth, Better, Worse];
    });
    add("mixed-matern-linear", mixed(), &|c| {
        c.gp = 2;
        c.doe = Doe::X(5);
        c.answers = vec![Smooth, Better, Tie];
    });
    add("f1-auto-hard", f1(), &|c| {
        c.gp = 3;
        c.doe = Doe::Lhs(8);
        c.answers = vec![Smooth, Better];
    });
    add("f2-best-expert-cstr", f2(), &|c| {
        c.gp = 4;
        c.n_cstr = 1;
        c.doe = Doe::XY(5);
        c.answers = vec![Smooth, BetterInfeasible];
    });
    add("f2-coego", f2(), &|c| {
        c.coego = Some(2);
        c.answers = vec![Smooth, Better, Worse];
    });
    add("mixed-cstr-coego", mixed(), &|c| {
        c.n_cstr = 1;
        c.coego = Some(2);
        c.slsqp = false;
        c.answers = vec![Smooth, BetterInfeasible, Tie];
    });
    add("f2-cl2-optmod2", f2(), &|c| {
        c.clusters = 2;
        c.doe = Doe::X(6);
        c.optmod = 2;
        c.answers = vec![Smooth, Better, Worse];
    });
    v
}
fn fc_cfgs(th: bool) -> Vec<Cfg> {
    let d = if th { 7 } else { 5 };
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.depth = d;
        f(&mut c);
        v.push(c);
    };
    let cons = vec![Smooth, Better, Tie, BetterInfeasible];
    add("f2-fc1", f2(), &|c| {
        c.n_fc = 1;
        c.answers = vec![Smooth, Better, Worse];
    });
    add("f2-fc2-cobyla", f2(), &|c| {
        c.n_fc = 2;
        c.slsqp = false;
        c.answers = vec![Smooth, Better, Worse];
    });
    add("f2-c1-fc1-tol", f2(), &|c| {
        c.n_cstr = 1;
        c.n_fc = 1;
        c.tol = Some(vec![0.02]);
        c.answers = cons.clone();
    });
    add("f1-c1-fc1", f1(), &|c| {
        c.n_cstr = 1;
        c.n_fc = 1;
        c.doe = Doe::XY(3);
        c.answers = cons.clone();
    });
    add("mixed-fc3", mixed(), &|c| {
        c.n_fc = 3;
        c.answers = vec![Smooth, Better, Worse];
    });
    add("enums-fc1-cobyla", enums(), &|c| {
        c.n_fc = 1;
        c.slsqp = false;
        c.doe = Doe::Lhs(4);
        c.answers = vec![Smooth, Better];
    });
    add("f2-fc2-coego", f2(), &|c| {
        c.n_fc = 2;
        c.coego = Some(2);
        c.answers = vec![Smooth, Better];
    });
    add("mixed-c1-fc2-coego-cobyla", mixed(), &|c| {
        c.n_cstr = 1;
        c.n_fc = 2;
        c.slsqp = false;
        c.coego = Some(2);
        c.answers = vec![Smooth, BetterInfeasible];
    });
    add("f2-fc1-trego", f2(), &|c| {
        c.n_fc = 1;
        c.trego = true;
        c.answers = vec![Smooth, Better, Worse];
    });
    add("f2-fc1-q2", f2(), &|c| {
        c.n_fc = 1;
        c.q = 2;
        c.answers = vec![Smooth, Better];
    });
    v
}
fn trego_cfgs(th: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.trego = true;
        c.depth = if th { 12 } else { 9 };
        c.answers = vec![Better, Slightly];
        f(&mut c);
        v.push(c);
    };
    add("f1-trego", f1(), &|_| {});
    add("f2-trego-cobyla", f2(), &|c| {
        c.slsqp = false;
        c.infill = InfillStrategy::WB2;
    });
    add("mixed-trego", mixed(), &|c| {
        c.answers = vec![Better, Worse];
        c.depth -= 1;
    });
    add("f2-trego-cstr", f2(), &|c| {
        c.n_cstr = 1;
        c.answers = vec![Better, BetterInfeasible, Tie];
        c.depth -= 2;
    });
    add("tiny-trego", tiny(), &|c| {
        c.doe = Doe::Lhs(3);
        c.answers = vec![Better, Worse];
        c.depth -= 2;
    });
    add("eight-trego", vec![XType::Int(0, 7)], &|c| {
        c.answers = vec![Better, Worse];
        c.depth -= 2;
    });
    add("sixteen-trego", vec![XType::Int(0, 3), XType::Int(0, 3)], &|c| {
        c.answers = vec![Better, Worse];
        c.depth -= 1;
    });
    add("nine-trego-cobyla", vec![XType::Int(0, 2), XType::Int(-1, 1)], &|c| {
        c.doe = Doe::XY(4);
        c.slsqp = false;
        c.infill = InfillStrategy::EI;
        c.answers = vec![Better, Slightly];
        c.depth -= 2;
    });
    add("f2-trego-inf-q2", f2(), &|c| {
        c.n_cstr = 1;
        c.infeasible_doe = true;
        c.q = 2;
        c.answers = vec![Smooth, BetterInfeasible];
        c.depth -= 1;
    });
    v
}
fn batch_cfgs(th: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let d = if th { 6 } else { 4 };
    for (k, qei) in [
        QEiStrategy::KrigingBeliever,
        QEiStrategy::KrigingBelieverLowerBound,
        QEiStrategy::KrigingBelieverUpperBound,
        QEiStrategy::ConstantLiarMinimum,
    ]
    .into_iter()
    .enumerate()
    {
        for (types, tn) in [(f1(), "f1"), (f2(), "f2"), (mixed(), "mixed"), (enums(), "enums")] {
            for q in [2, 3] {
                for n_cstr in [0, 1] {
                    if n_cstr == 1 && (tn == "f1" || q == 3) && !th {
                        continue;
                    }
                    let mut c = cfg(&format!("{tn}-q{q}-{qei:?}-c{n_cstr}"), types.clone());
                    c.q = q;
                    c.qei = qei.clone();
                    c.n_cstr = n_cstr;
                    c.depth = d;
                    c.optmod = 1 + k % 2 * 2;
                    c.slsqp = k % 2 == 0;
                    c.infill = [InfillStrategy::LogEI, InfillStrategy::EI, InfillStrategy::WB2, InfillStrategy::WB2S][(k + q) % 4].clone();
                    c.answers = if n_cstr == 1 { vec![Smooth, Better, BetterInfeasible] } else { vec![Smooth, Better, Worse] };
                    v.push(c);
                }
            }
        }
    }
    v.extend(crowded_cfgs(d));
    v
}
/// few valid points: part of a batch is rejected
pub fn crowded_cfgs(d: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for (types, tn) in [(tiny(), "tiny"), (vec![XType::Int(0, 2), XType::Int(-1, 1)], "nine")] {
        for q in [2, 3, 4] {
            for (i, doe) in [Doe::Lhs(3), Doe::X(4), Doe::XY(5)].into_iter().enumerate() {
                let mut c = cfg(&format!("{tn}-q{q}-{doe:?}"), types.clone());
                c.q = q;
                c.doe = doe;
                c.infill = [InfillStrategy::LogEI, InfillStrategy::EI, InfillStrategy::WB2][i].clone();
                c.slsqp = i != 1;
                c.n_cstr = (i == 2) as usize;
                c.n_fc = (i == 1 && q == 3) as usize;
                c.depth = d + 1;
                c.answers = if c.n_cstr == 1 { vec![Smooth, BetterInfeasible] } else { vec![Smooth, Better] };
                v.push(c);
            }
        }
    }
    v
}

const RULE: &str = "every sequence of answers of the user's function (smooth value, better, tie at tolerance, better but infeasible, infeasible by a hair, worse, insufficient decrease) up to the depth of each configuration, executed on the real solver (init / next_iter / terminate) from every initial design kind; after each iteration the state is compared with a reference list of what was really evaluated";

pub fn e02(cx: &mut Cx) {
    cx.rule = format!("{RULE}. Checked: history is exactly what was evaluated, points valid and new, best row, best parameters and costs");
    cx.assumptions = vec!["identity of points is judged in the space the optimizer works in (relaxed space for discrete variables)".into()];
    let th = cx.thorough();
    let mut v = base_cfgs(th);
    v.extend(trego_cfgs(th).into_iter().map(|mut c| {
        c.depth = c.depth.min(if th { 6 } else { 4 });
        c
    }));
    v.extend(fc_cfgs(th).into_iter().filter(|c| th || c.trego || c.q > 1));
    v.extend(crowded_cfgs(4));
    let env = |names: &[&str], th: bool| -> Vec<Cfg> {
        let mut v: Vec<Cfg> = base_cfgs(th).into_iter().chain(fc_cfgs(th)).filter(|c| names.contains(&c.name.as_str())).collect();
        for c in &mut v {
            c.depth = c.depth.min(if th { 5 } else { 3 });
        }
        v
    };
    cx.run(cases_of("E02", v, if th { 3 } else { 1 }));
    // options given by the environment
    with_env("EGOR_USE_GP_VAR_PORTFOLIO", || {
        let v = env(&["f1", "f2-cstr", "mixed-cinf-ei", "enums", "f2-coego", "f2-fc1", "f2-xy-ei-cobyla"], th);
        cx.run(tagged("portfolio", cases_of("E02", v, if th { 3 } else { 1 })));
    });
    with_env("EGOR_USE_MAX_PROBA_OF_FEASIBILITY", || {
        let v = env(&["f2-cstr", "f2-cstr2-inf-wb2s", "f1-cinf-logei", "mixed-cinf-ei", "f2-c1-fc1-tol"], th);
        cx.run(tagged("maxpof", cases_of("E02", v, if th { 3 } else { 1 })));
    });
    with_env("EGOR_DO_NOT_USE_MIDDLEPICKER_MULTISTARTER", || {
        let v = env(&["f2-cstr", "enums", "f1", "mixed-cstr-coego"], th);
        cx.run(tagged("nomiddle", cases_of("E02", v, if th { 3 } else { 1 })));
    });
}
/// runs f with an environment variable set (no thread is running then)
pub fn with_env(k: &str, f: impl FnOnce()) {
    unsafe { std::env::set_var(k, "1") };
    f();
    unsafe { std::env::remove_var(k) };
}
fn tagged<'a>(t: &str, v: Vec<Case<'a>>) -> Vec<Case<'a>> {
    v.into_iter().map(|c| Case { key: format!("{t}:{}", c.key), f: c.f }).collect()
}
pub fn e09(cx: &mut Cx) {
    cx.rule = format!("{RULE}. Checked: reference automaton of the trust region (size, local / global phases, success of the previous step)");
    let th = cx.thorough();
    cx.run(cases_of("E09", trego_cfgs(th), 2));
}
pub fn e13(cx: &mut Cx) {
    cx.rule = format!("{RULE}. Checked: every call of a function constraint (values and gradients) during the whole run, its value in the history, tolerances, best row");
    let th = cx.thorough();
    let mut v = fc_cfgs(th);
    v.extend(crowded_cfgs(4).into_iter().map(|mut c| {
        c.n_fc = 1;
        c.n_cstr = 0;
        c
    }));
    cx.run(cases_of("E13", v, 1));
}
pub fn e14(cx: &mut Cx) {
    cx.rule = format!("{RULE}. Checked: batches of 2 and 3 points with every strategy: number and distinctness of evaluated points, no virtual value in the history");
    let th = cx.thorough();
    cx.run(cases_of("E14", batch_cfgs(th), 1));
}
pub fn e03(cx: &mut Cx) {
    cx.rule = format!("{RULE}. Checked: number of evaluations and iterations, status against the budget and the target at every state");
    let th = cx.thorough();
    let mut v = vec![];
    for mut c in base_cfgs(th) {
        c.target = Some(-1.);
        c.max_iters = c.depth;
        c.name = format!("{}-t", c.name);
        v.push(c);
    }
    for mut c in fc_cfgs(th) {
        if !th && c.q == 1 && c.coego.is_none() {
            continue;
        }
        c.target = Some(-0.5);
        c.max_iters = c.depth;
        v.push(c);
    }
    for mut c in crowded_cfgs(4) {
        c.max_iters = c.depth;
        v.push(c);
    }
    // no budget at all
    for mut c in base_cfgs(th) {
        c.depth = 1;
        c.max_iters = 0;
        c.target = (v.len() % 2 == 0).then_some(0.);
        c.name = format!("{}-m0", c.name);
        v.push(c);
    }
    // target reached exactly, in the initial design or after some answers
    for doe in [Doe::X(4), Doe::XY(4), Doe::X(3)] {
        for drop in [0., 1., 2.] {
            for (types, nc) in [(f1(), 0), (f2(), 1), (enums(), 0)] {
                let mut c = cfg(&format!("eq-{doe:?}-{drop}-{}-c{nc}", types.len()), types);
                c.doe = doe;
                c.n_cstr = nc;
                c.depth = 3;
                c.max_iters = 3;
                c.tol = (nc > 0).then_some(vec![10.]);
                c.answers = if nc > 0 { vec![Better, Tie, BetterAlmost] } else { vec![Better, Tie] };
                let n = if doe == Doe::X(3) { 3 } else { 4 };
                let best = (0..n).map(|i| c.smooth(&c.decode(&c.doe_point(i)).unwrap(), true)[0]).fold(f64::INFINITY, f64::min);
                c.target = Some(best - drop);
                v.push(c);
            }
        }
    }
    // target reached while function constraints are violated everywhere
    for (q, coego, nc) in [(1, None, 0), (2, None, 1), (1, Some(2), 0)] {
        let mut c = cfg(&format!("fc-never-q{q}-{coego:?}-c{nc}"), f2());
        c.n_fc = 1 + nc;
        c.n_cstr = nc;
        c.fc_shift = 8.;
        c.q = q;
        c.coego = coego;
        c.target = Some(0.5);
        c.depth = 3;
        c.max_iters = 3;
        c.answers = vec![Better, Smooth];
        v.push(c);
    }
    for mut c in trego_cfgs(th) {
        c.depth = c.depth.min(4);
        c.max_iters = c.depth;
        c.target = Some(-0.9);
        v.push(c);
    }
    cx.run(cases_of("E03", v, if th { 3 } else { 1 }));
}
