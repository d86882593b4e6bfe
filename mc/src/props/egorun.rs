//! Complete runs of the optimizer (`Egor::run`) against a scripted environment, and the same run as a chain
//! of states in memory.
use super::ego::{Ans, Cfg, Doe, bind};
use argmin::core::{Problem, Solver, State, TerminationStatus};
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{CstrFn, EgorConfig, EgorFactory, EgorSolver, EgorState, GroupFunc, InfillObjData, ObjFunc, OptimResult, SurrogateBuilder, XType};
use egobox_moe::GpMixtureParams;
use ndarray::{Array2, ArrayView2};
use serde::de::DeserializeOwned;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::{Arc, Mutex};

/// the environment is interrupted
pub struct CrashMark;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Log {
    /// evaluated points with returned values
    pub evals: Vec<(Vec<f64>, Vec<f64>)>,
    /// number of points of each call
    pub batches: Vec<usize>,
    /// constraint functions calls outside the domain
    pub fbad: Option<String>,
}

/// Values returned by the user's function: a function of the point and of the number of points evaluated before
pub fn scripted(c: &Cfg, script: &[Ans], xu: &[f64], idx: usize, n_init: usize) -> Vec<f64> {
    if idx < n_init || script.is_empty() {
        return c.smooth(xu, idx < n_init);
    }
    let k = idx as f64;
    let with = |o: f64, d: f64| {
        let mut y = vec![o];
        y.extend((0..c.n_cstr).map(|_| d));
        y
    };
    match script[(idx - n_init) % script.len()] {
        Ans::Smooth => c.smooth(xu, false),
        Ans::Better => with(-k / 4., -1.),
        Ans::Tie => with(-0.5, -0.25),
        Ans::BetterInfeasible => with(-k, 0.5),
        Ans::BetterAlmost => with(-k, c.tols().first().copied().unwrap_or(0.) + 1e-9),
        Ans::Worse => with(3. + k, -1.),
        Ans::Slightly => with(-1e-3 * k, -1.),
    }
}

pub struct Env {
    pub c: Cfg,
    pub script: Vec<Ans>,
    /// points evaluated before this run
    pub offset: usize,
    pub n_init: usize,
    /// call at which the environment dies
    pub crash_at: Option<usize>,
    pub log: Arc<Mutex<Log>>,
}

impl Env {
    pub fn new(c: &Cfg, script: &[Ans]) -> Env {
        Env { c: c.clone(), script: script.to_vec(), offset: 0, n_init: n_init(c), crash_at: None, log: Default::default() }
    }
    pub fn objective(&self) -> impl GroupFunc + use<> {
        let (c, script, off, ni, crash, log) = (self.c.clone(), self.script.clone(), self.offset, self.n_init, self.crash_at, self.log.clone());
        move |x: &ArrayView2<f64>| {
            let mut l = log.lock().unwrap_or_else(|e| e.into_inner());
            if crash == Some(l.batches.len()) {
                drop(l);
                resume_unwind(Box::new(CrashMark));
            }
            crate::fsmon::mark(l.batches.len());
            let mut y = Array2::zeros((x.nrows(), 1 + c.n_cstr));
            for (j, r) in x.outer_iter().enumerate() {
                let v = scripted(&c, &script, &r.to_vec(), off + l.evals.len(), ni);
                for (k, a) in v.iter().enumerate() {
                    y[[j, k]] = *a;
                }
                l.evals.push((r.to_vec(), v));
            }
            l.batches.push(x.nrows());
            y
        }
    }
    pub fn fconstraints(&self) -> Vec<impl CstrFn + use<>> {
        (0..self.c.n_fc)
            .map(|k| {
                let (c, log) = (self.c.clone(), self.log.clone());
                move |x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>| -> f64 {
                    if !c.valid_user(x) {
                        log.lock().unwrap_or_else(|e| e.into_inner()).fbad.get_or_insert(format!("function constraint {k} called at {x:?}"));
                        return 1.;
                    }
                    if let Some(g) = g {
                        g.copy_from_slice(&c.fc_grad(k));
                    }
                    c.fc(k, x)
                }
            })
            .collect()
    }
    pub fn log(&self) -> Log {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}

pub fn n_init(c: &Cfg) -> usize {
    match c.doe {
        Doe::Lhs(0) => (c.nx_relaxed() + 1).max(5),
        Doe::Lhs(n) | Doe::X(n) | Doe::XY(n) => n,
    }
}

pub enum End {
    Done(Box<OptimResult<f64>>),
    Crashed,
    Error(String),
}
impl End {
    pub fn done(self) -> Result<OptimResult<f64>, String> {
        match self {
            End::Done(r) => Ok(*r),
            End::Crashed => Err("crashed".into()),
            End::Error(e) => Err(e),
        }
    }
}

/// A complete run through the public builder
pub fn run(env: &Env, tweak: &dyn Fn(EgorConfig) -> EgorConfig) -> End {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = tweak(env.c.config());
        let b = EgorFactory::optimize(env.objective()).configure(|_| cfg).subject_to(env.fconstraints());
        if env.c.discrete() {
            b.min_within_mixint_space(&env.c.types).map_err(|e| e.to_string())?.run().map_err(|e| e.to_string())
        } else {
            let lim = Array2::from_shape_fn((env.c.types.len(), 2), |(i, j)| match &env.c.types[i] {
                XType::Float(a, b) => [*a, *b][j],
                _ => unreachable!(),
            });
            b.min_within(&lim).map_err(|e| e.to_string())?.run().map_err(|e| e.to_string())
        }
    }));
    match r {
        Ok(Ok(r)) => End::Done(Box::new(r)),
        Ok(Err(e)) => End::Error(e),
        Err(p) => {
            if p.downcast_ref::<CrashMark>().is_some() {
                End::Crashed
            } else {
                End::Error(match crate::cx::catch(|| -> () { resume_unwind(p) }) {
                    Err(m) => m,
                    Ok(()) => unreachable!(),
                })
            }
        }
    }
}

/// The same run as a chain of states: the initial state (or the given one) then one state per iteration, as the
/// executor does (next_iter, update, increment), up to the budget of the state; with the number of calls of the
/// user's function so far
pub fn chain(env: &Env, from: Option<EgorState<f64>>, tweak: &dyn Fn(EgorConfig) -> EgorConfig) -> Result<Vec<(EgorState<f64>, usize)>, String> {
    if env.c.discrete() { chain_sb::<MixintGpMixtureParams>(env, from, tweak) } else { chain_sb::<GpMixtureParams<f64>>(env, from, tweak) }
}

fn chain_sb<SB: SurrogateBuilder + DeserializeOwned>(env: &Env, from: Option<EgorState<f64>>, tweak: &dyn Fn(EgorConfig) -> EgorConfig) -> Result<Vec<(EgorState<f64>, usize)>, String> {
    crate::cx::catch(|| {
        let fcs = env.fconstraints();
        let mut solver = EgorSolver::<SB, _>::new(tweak(env.c.config()).check().map_err(|e| e.to_string())?);
        bind(&mut solver, &fcs);
        let mut problem = Problem::new(ObjFunc::new(env.objective()).subject_to(fcs));
        let mut out = vec![];
        let mut st = match from {
            Some(s) => {
                out.push((s.clone(), 0));
                s
            }
            None => {
                let (mut s, _) = solver.init(&mut problem, EgorState::new()).map_err(|e| e.to_string())?;
                s.update();
                out.push((s.clone(), env.log().batches.len()));
                s
            }
        };
        loop {
            if st.terminated() {
                break;
            }
            if let TerminationStatus::Terminated(r) = term(&mut solver, &problem, &st) {
                st = st.terminate_with(r);
                out.last_mut().unwrap().0 = st.clone();
                break;
            }
            let (s, _) = solver.next_iter(&mut problem, st).map_err(|e| e.to_string())?;
            st = s;
            st.update();
            st.increment_iter();
            out.push((st.clone(), env.log().batches.len()));
        }
        Ok(out)
    })?
}

fn term<O: GroupFunc, SB: SurrogateBuilder + DeserializeOwned, C: CstrFn>(s: &mut EgorSolver<SB, C>, _p: &Problem<ObjFunc<O, C>>, st: &EgorState<f64>) -> TerminationStatus {
    <EgorSolver<SB, C> as Solver<ObjFunc<O, C>, EgorState<f64>>>::terminate_internal(s, st)
}

/// same points, same values, bit for bit
pub fn same_evals(a: &[(Vec<f64>, Vec<f64>)], b: &[(Vec<f64>, Vec<f64>)]) -> Option<String> {
    for (i, (p, q)) in a.iter().zip(b).enumerate() {
        let eq = |u: &[f64], v: &[f64]| u.len() == v.len() && u.iter().zip(v).all(|(s, t)| s.to_bits() == t.to_bits());
        if !eq(&p.0, &q.0) || !eq(&p.1, &q.1) {
            return Some(format!("evaluation {i} is {p:?} instead of {q:?}"));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} evaluations instead of {}", a.len(), b.len()));
    }
    None
}

pub fn same_arr(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.dim() == b.dim() && a.iter().zip(b).all(|(s, t)| s.to_bits() == t.to_bits())
}

/// Splits a debug representation in text and numbers; compares two of them. Returns the first difference
/// of text, or of numbers beyond the relative tolerance, and the number of differing numbers.
/// Removes what `Debug` of an array says of its memory layout, which no property is about.
fn layout_free(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(", strides=") {
        let Some(j) = rest[i..].find(", const ndim=") else { break };
        out.push_str(&rest[..i]);
        rest = &rest[i + j..];
    }
    out.push_str(rest);
    out
}

pub fn cmp_debug(a: &str, b: &str, tol: f64) -> Result<usize, String> {
    fn toks(s: &str) -> Vec<(bool, String)> {
        let mut v: Vec<(bool, String)> = vec![];
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            let num = c.is_ascii_digit() || (c == '-' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit());
            if num && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
                let j = i;
                i += 1;
                while i < cs.len() && (cs[i].is_ascii_digit() || ".e".contains(cs[i]) || (cs[i] == '-' && cs[i - 1] == 'e')) {
                    i += 1;
                }
                v.push((true, cs[j..i].iter().collect()));
            } else {
                match v.last_mut() {
                    Some((false, t)) => t.push(c),
                    _ => v.push((false, c.to_string())),
                }
                i += 1;
            }
        }
        v
    }
    let (ta, tb) = (toks(&layout_free(a)), toks(&layout_free(b)));
    let mut n = 0;
    for (i, (p, q)) in ta.iter().zip(&tb).enumerate() {
        if p == q {
            continue;
        }
        let ctx = || format!("'{}{}' / '{}{}'", if i > 0 { tail(&ta[i - 1].1) } else { "" }, p.1, if i > 0 { tail(&tb[i - 1].1) } else { "" }, q.1);
        if !p.0 || !q.0 {
            return Err(ctx());
        }
        let is_f = |t: &str| t.contains('.') || t.contains('e');
        if !is_f(&p.1) || !is_f(&q.1) {
            return Err(ctx());
        }
        let (x, y): (f64, f64) = (p.1.parse().map_err(|_| ctx())?, q.1.parse().map_err(|_| ctx())?);
        if (x - y).abs() > tol * x.abs().max(y.abs()) {
            return Err(ctx());
        }
        n += 1;
    }
    if ta.len() != tb.len() {
        return Err(format!("{} / {} elements", ta.len(), tb.len()));
    }
    Ok(n)
}
fn tail(s: &str) -> &str {
    let n = s.len().saturating_sub(60);
    let mut k = n;
    while !s.is_char_boundary(k) {
        k += 1;
    }
    &s[k..]
}
pub fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

/// a scratch directory removed when dropped
pub struct Scratch(pub String);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::temp_dir().join(format!("egomc-{}-{}-{}", std::process::id(), tag, N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&base).expect("scratch directory");
        Scratch(base.to_string_lossy().into_owned())
    }
    pub fn path(&self, f: &str) -> String {
        format!("{}/{f}", self.0)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
