//! Ask-and-tell service (E08)
use super::ego::{Ans::{self, *}, Cfg, Doe, cfg, enums, f1, f2, ints, mixed};
use super::egobase::width;
use super::egorun::*;
use crate::cx::*;
use crate::ensure;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{EgorServiceApi, EgorServiceBuilder, InfillStrategy, QEiStrategy, XType};
use egobox_moe::GpMixtureParams;
use ndarray::{Array2, Axis, ShapeBuilder, concatenate};

enum Svc {
    F(EgorServiceApi<GpMixtureParams<f64>>),
    M(EgorServiceApi<MixintGpMixtureParams>),
}
impl Svc {
    fn new(c: &Cfg) -> Result<Svc, String> {
        let b = EgorServiceBuilder::optimize().configure(|_| c.config());
        if c.discrete() {
            Ok(Svc::M(b.min_within_mixint_space(&c.types).map_err(|e| e.to_string())?))
        } else {
            let lim = Array2::from_shape_fn((c.types.len(), 2), |(i, j)| match &c.types[i] {
                XType::Float(a, b) => [*a, *b][j],
                _ => unreachable!(),
            });
            Ok(Svc::F(b.min_within(&lim).map_err(|e| e.to_string())?))
        }
    }
    fn again(&self) -> Svc {
        match self {
            Svc::F(s) => Svc::F(s.clone()),
            Svc::M(s) => Svc::M(s.clone()),
        }
    }
    fn ask(&self, x: &Array2<f64>, y: &Array2<f64>) -> Result<Array2<f64>, String> {
        catch(|| match self {
            Svc::F(s) => s.suggest(x, y),
            Svc::M(s) => s.suggest(x, y),
        })
    }
}

/// a relaxed point of the given user point
fn encode(c: &Cfg, xu: &[f64]) -> Vec<f64> {
    c.types
        .iter()
        .zip(xu)
        .flat_map(|(t, v)| match t {
            XType::Enum(n) => (0..*n).map(|k| if k == *v as usize { 1. } else { 0. }).collect(),
            _ => {
                assert_eq!(width(t), 1);
                vec![*v]
            }
        })
        .collect()
}

#[derive(Clone)]
struct Hist {
    x: Array2<f64>,
    y: Array2<f64>,
    path: String,
}

struct Ex<'a> {
    c: &'a Cfg,
    svc: Svc,
    answers: Vec<Ans>,
    portfolio: bool,
    same_as_run: bool,
}

impl Ex<'_> {
    fn tell(&self, h: &Hist, rows: &[Vec<f64>], a: Ans, what: &str) -> Hist {
        let (nx, ny) = (h.x.ncols(), h.y.ncols());
        let k0 = h.x.nrows();
        let x = Array2::from_shape_vec((rows.len(), nx), rows.concat()).unwrap();
        let y: Vec<f64> = rows.iter().enumerate().flat_map(|(i, r)| scripted(self.c, &[a], r, k0 + i, 0)).collect();
        let y = Array2::from_shape_vec((rows.len(), ny), y).unwrap();
        Hist { x: concatenate![Axis(0), h.x, x], y: concatenate![Axis(0), h.y, y], path: format!("{}/{what}{a:?}", h.path) }
    }
    /// all checks of an ask at the given history
    fn ask(&self, h: &Hist, rec: &mut Rec) -> Result<Array2<f64>, String> {
        let c = self.c;
        let e = |m: String| format!("{}: {m}", h.path);
        let (x0, y0) = (h.x.clone(), h.y.clone());
        let s = self.svc.ask(&h.x, &h.y).map_err(e)?;
        rec.step(1);
        rec.state((&c.name, &h.path));
        ensure!(same_arr(&h.x, &x0) && same_arr(&h.y, &y0), "{}: the history was modified", h.path);
        ensure!(s.ncols() == c.types.len(), "{}: suggestion of {} components", h.path, s.ncols());
        if self.portfolio && c.q == 1 {
            ensure!(s.nrows() >= 1 && s.nrows() <= 13, "{}: {} points suggested", h.path, s.nrows());
        } else {
            ensure!(s.nrows() == c.q, "{}: {} points suggested instead of {}", h.path, s.nrows(), c.q);
        }
        for r in s.outer_iter() {
            ensure!(c.valid_user(&r.to_vec()), "{}: invalid point {r} suggested", h.path);
        }
        let differ = |o: &Array2<f64>, w: &str| -> R {
            if same_arr(o, &s) { Ok(()) } else { Err(format!("{}: {w} suggests {o} instead of {s}", h.path)) }
        };
        differ(&self.svc.ask(&h.x, &h.y).map_err(e)?, "the same service asked again")?;
        let fresh = Svc::new(c)?;
        differ(&fresh.ask(&h.x, &h.y).map_err(e)?, "another service")?;
        // asked about something else in between, then again, then copied
        if h.x.nrows() > 3 {
            let n = h.x.nrows() - 1;
            let (xo, yo) = (h.x.slice(ndarray::s![..n, ..]).to_owned(), h.y.slice(ndarray::s![..n, ..]).to_owned());
            fresh.ask(&xo, &yo).map_err(e)?;
            differ(&fresh.ask(&h.x, &h.y).map_err(e)?, "a service asked about a shorter history before")?;
        }
        differ(&fresh.again().ask(&h.x, &h.y).map_err(e)?, "a copy of a service")?;
        // memory layout of the history
        let mut xf = Array2::zeros(h.x.dim().f());
        xf.assign(&h.x);
        let mut yf = Array2::zeros(h.y.dim().f());
        yf.assign(&h.y);
        differ(&self.svc.ask(&xf, &yf).map_err(e)?, "the history in column-major layout")?;
        rec.trace();
        if self.same_as_run {
            // a run from the same history evaluates these points first
            let mut xr = vec![];
            for r in h.x.outer_iter() {
                xr.push(encode(c, &r.to_vec()));
            }
            let xr = Array2::from_shape_vec((xr.len(), c.nx_relaxed()), xr.concat()).unwrap();
            let doe = concatenate![Axis(1), xr, h.y];
            let env = Env::new(c, &[]);
            let r = run(&env, &|g| g.doe(&doe).max_iters(1)).done().map_err(e)?;
            let l = env.log();
            // the run rejects points too close to known ones and goes on with other ones
            let close = s.outer_iter().any(|p| h.x.outer_iter().any(|q| p.iter().zip(q).all(|(a, b)| (a - b).abs() < 1e-6 * (1. + b.abs()))));
            if l.batches.len() == 1 && l.evals.len() == s.nrows() && !close {
                for (i, (p, _)) in l.evals.iter().enumerate() {
                    ensure!(p.iter().zip(s.row(i)).all(|(a, b)| a == b), "{}: point {i} suggested is {} while a run from this history evaluates {p:?}", h.path, s.row(i));
                }
                rec.count("suggestions compared with a run", 1);
            } else {
                rec.count("runs which reject a suggestion", 1);
            }
            ensure!(r.x_doe.nrows() == h.x.nrows() + l.evals.len(), "history of {} points", r.x_doe.nrows());
        }
        Ok(s)
    }
    fn explore(&self, h: &Hist, depth: usize, part: (usize, usize), rec: &mut Rec) -> R {
        let s = self.ask(h, rec)?;
        if depth == 0 {
            return Ok(());
        }
        let rows: Vec<Vec<f64>> = s.outer_iter().map(|r| r.to_vec()).collect();
        let mut tells: Vec<(Vec<Vec<f64>>, &str)> = vec![(rows.clone(), "all ")];
        if rows.len() > 1 {
            tells.push((rows[..1].to_vec(), "first "));
            tells.push((rows[rows.len() - 1..].to_vec(), "last "));
        }
        // something not suggested
        let o = self.c.decode(&self.c.doe_point(5))?;
        if !h.x.outer_iter().any(|r| r.to_vec() == o) {
            tells.push((vec![o], "other "));
        }
        let mut k = 0;
        for (r, w) in tells {
            for &a in &self.answers {
                if k % part.1 == part.0 {
                    self.explore(&self.tell(h, &r, a, w), depth - 1, (0, 1), rec)?;
                }
                k += 1;
            }
        }
        Ok(())
    }
}

pub fn e08(cx: &mut Cx) {
    cx.rule = "every sequence of asks and tells up to the depth (told: every suggested point, the first, the last, another point; with every answer of the alphabet), from every configuration; at each history the suggestion is checked and asked again in six other ways; and compared with the first points evaluated by a run started from this history".into();
    let th = cx.thorough();
    let mut v: Vec<Cfg> = vec![];
    let mut add = |name: &str, types: Vec<XType>, f: &dyn Fn(&mut Cfg)| {
        let mut c = cfg(name, types);
        c.doe = Doe::X(4);
        f(&mut c);
        v.push(c);
    };
    add("f1", f1(), &|_| {});
    add("f2-q2-cobyla", f2(), &|c| {
        c.q = 2;
        c.slsqp = false;
    });
    add("f2-c2-tol", f2(), &|c| {
        c.n_cstr = 2;
        c.tol = Some(vec![0.5, 1e-6]);
    });
    add("f2-c1-infill-q3", f2(), &|c| {
        c.n_cstr = 1;
        c.cstr_infill = true;
        c.q = 3;
        c.qei = QEiStrategy::ConstantLiarMinimum;
    });
    add("f2-c1-utb", f2(), &|c| {
        c.n_cstr = 1;
        c.utb = true;
        c.infill = InfillStrategy::EI;
    });
    add("mixed-wb2s-q2", mixed(), &|c| {
        c.q = 2;
        c.infill = InfillStrategy::WB2S;
        c.qei = QEiStrategy::KrigingBelieverUpperBound;
    });
    add("enums-c1", enums(), &|c| {
        c.n_cstr = 1;
        c.doe = Doe::X(5);
    });
    add("enums-cobyla-kb", enums(), &|c| {
        c.slsqp = false;
        c.doe = Doe::X(5);
        c.q = 2;
        c.qei = QEiStrategy::KrigingBelieverLowerBound;
    });
    add("ints-wb2", ints(), &|c| c.infill = InfillStrategy::WB2);
    add("f2-kpls", f2(), &|c| c.gp = 1);
    add("f2-matern", f2(), &|c| {
        c.gp = 2;
        c.doe = Doe::X(5);
    });
    let parts = if th { 4 } else { 1 };
    let depth = if th { 3 } else { 2 };
    let phase = |cx: &Cx, tag: &'static str, v: &[Cfg]| {
        let mut cases: Vec<Case> = vec![];
        for c in v {
            for (k, a0) in [Smooth, Better, BetterInfeasible, Tie].into_iter().enumerate() {
                if !th && k > 2 {
                    continue;
                }
                for part in 0..parts {
                let c = c.clone();
                cases.push(case(format!("{tag}{}/{a0:?}/{part}", c.name), move |rec: &mut Rec| {
                    let n = n_init(&c);
                    let x: Vec<Vec<f64>> = (0..n).map(|k| c.decode(&c.doe_point(k)).unwrap()).collect();
                    let y: Vec<f64> = x.iter().flat_map(|r| c.smooth(r, true)).collect();
                    let h = Hist {
                        x: Array2::from_shape_vec((n, c.types.len()), x.concat()).unwrap(),
                        y: Array2::from_shape_vec((n, 1 + c.n_cstr), y).unwrap(),
                        path: String::new(),
                    };
                    let ex = Ex { svc: Svc::new(&c)?, c: &c, answers: vec![Smooth, a0], portfolio: tag.starts_with('p'), same_as_run: true };
                    ex.explore(&h, depth, (part, parts), rec)
                }));
                }
            }
        }
        // some are known not to end: last
        let (last, cases) = cases.into_iter().partition(|c: &Case| c.key.starts_with("enums-cobyla-kb/"));
        cx.run(cases);
        last
    };
    let last = phase(cx, "", &v);
    let few: Vec<Cfg> = v.iter().filter(|c| c.q == 1).cloned().collect();
    super::ego::with_env("EGOR_USE_GP_VAR_PORTFOLIO", || {
        phase(cx, "portfolio:", if th { &few } else { &few[..3] });
    });
    let cs: Vec<Cfg> = v.iter().filter(|c| c.n_cstr > 0).cloned().collect();
    super::ego::with_env("EGOR_USE_MAX_PROBA_OF_FEASIBILITY", || {
        phase(cx, "feasibility:", if th { &cs } else { &cs[..2] });
    });
    cx.run(last);
}
