//! D01..D05: samplers, driven by explorer-chosen random generators and schedules.
use crate::cx::*;
use crate::ensure;
use crate::rngmc::*;
use crate::sched;
use crate::util::*;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use linfa::Float;
use ndarray::{Array2, Axis};
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

pub const KINDS: [(&str, LhsKind); 5] = [
    ("classic", LhsKind::Classic),
    ("centered", LhsKind::Centered),
    ("maximin", LhsKind::Maximin),
    ("cmaximin", LhsKind::CenteredMaximin),
    ("optimized", LhsKind::Optimized),
];

/// bounds alphabet (lower, upper)
const BOUNDS: [(f64, f64); 10] = [
    (0., 1.),
    (-1., 1.),
    (0.1, 0.3),
    (-5., 10.),
    (1e-3, 1e6),
    (-0.7, 0.1),
    (-0.3, -0.1),
    (1e5, 1e5 + 1.),
    (-1e-8, 3e-8),
    (0.3, 1.7),
];

fn xlimits<F: Float>(nx: usize, rot: usize) -> Array2<F> {
    Array2::from_shape_fn((nx, 2), |(i, j)| {
        let b = BOUNDS[(i * 3 + rot) % BOUNDS.len()];
        F::cast(if j == 0 { b.0 } else { b.1 })
    })
}

fn check_design<F: Float>(d: &Array2<F>, ns: usize, lim: &Array2<F>, what: &str) -> R {
    ensure!(
        d.dim() == (ns, lim.nrows()),
        "{what}: shape {:?} instead of ({ns}, {})",
        d.dim(),
        lim.nrows()
    );
    for ((i, j), v) in d.indexed_iter() {
        let ok = v.is_finite() && *v >= lim[[j, 0]] && *v <= lim[[j, 1]];
        ensure!(
            ok,
            "{what}: coordinate ({i},{j}) = {v:?} outside [{:?}, {:?}]",
            lim[[j, 0]],
            lim[[j, 1]]
        );
    }
    Ok(())
}

fn make<F: Float>(m: &str, lim: &Array2<F>, rng: ScriptRng) -> Box<dyn SamplingMethod<F>> {
    match m {
        "random" => Box::new(Random::new_with_rng(lim, rng)),
        "ffact" => Box::new(FullFactorial::new(lim)),
        k => {
            let kind = KINDS.iter().find(|(n, _)| *n == k).unwrap().1;
            Box::new(Lhs::new_with_rng(lim, rng).kind(kind))
        }
    }
}

const METHODS: [&str; 7] =
    ["random", "ffact", "classic", "centered", "maximin", "cmaximin", "optimized"];

fn unit<F: Float>(nx: usize) -> Array2<F> {
    Array2::from_shape_fn((nx, 2), |(_, j)| if j == 0 { F::zero() } else { F::one() })
}

fn d01_one<F: Float>(m: &str, ns: usize, nx: usize, rot: usize, script: Vec<Option<u64>>, seed: u64, rec: &mut Rec) -> R {
    let lim = xlimits::<F>(nx, rot);
    let u = unit::<F>(nx);
    let what = format!("{m} ns={ns} nx={nx} bounds#{rot} seed={seed}");
    let s = make(m, &lim, ScriptRng::new(script.clone(), seed));
    let d = catch(|| s.sample(ns)).map_err(|e| format!("{what} sample: {e}"))?;
    check_design(&d, ns, &lim, &what)?;
    let s = make(m, &lim, ScriptRng::new(script, seed));
    let n = catch(|| s.normalized_sample(ns)).map_err(|e| format!("{what} normalized: {e}"))?;
    check_design(&n, ns, &u, &format!("{what} normalized"))?;
    // the design in real bounds is the affine image of the normalized one
    for ((i, j), v) in d.indexed_iter() {
        let (l, h) = (lim[[j, 0]].to_f64().unwrap(), lim[[j, 1]].to_f64().unwrap());
        let e = l + n[[i, j]].to_f64().unwrap() * (h - l);
        let tol = 8. * F::epsilon().to_f64().unwrap() * (l.abs() + h.abs());
        ensure!((v.to_f64().unwrap() - e).abs() <= tol, "{what}: sample ({i},{j}) {v:?} is not the scaled normalized value {e}");
    }
    rec.step(2);
    rec.trace();
    rec.state((m.to_string(), d.iter().map(|v| v.to_f64().unwrap().to_bits()).collect::<Vec<_>>()));
    Ok(())
}

pub fn d01(cx: &mut Cx) {
    cx.rule = "case = (method, precision, ns, nx, bounds, generator script); scripts: default streams of consecutive seeds, \
        every assignment of the generator's extreme outputs {0, mid, max} to the first draws (all of them when at most 6, else constant and one-deviation scripts)".into();
    let mut cases = vec![];
    let nsmax = cx.q(9, 24);
    let nxmax = cx.q(4, 6);
    let seeds = cx.q(6u64, 60);
    for m in METHODS {
        for prec in ["f64", "f32"] {
            for nx in 1..=nxmax {
                for ns in 1..=nsmax {
                    if m == "optimized" && cx.tier == Tier::Quick && nx > 2 && ns > 5 {
                        continue;
                    }
                    let key = format!("{m}/{prec}/nx{nx}/ns{ns}/seeds");
                    let nseeds = if m == "optimized" { seeds / 2 } else { seeds };
                    cases.push(case(key, move |rec| {
                        for seed in 0..nseeds {
                            let rot = (seed as usize + ns) % BOUNDS.len();
                            if prec == "f64" {
                                d01_one::<f64>(m, ns, nx, rot, vec![], seed, rec)?;
                            } else {
                                d01_one::<f32>(m, ns, nx, rot, vec![], seed, rec)?;
                            }
                        }
                        rec.sample = Some(format!("{nseeds} seeds x bounds"));
                        Ok(())
                    }));
                }
            }
            // all bounds with extreme generator outputs
            let ext = [0u64, 1 << 63, u64::MAX];
            for nx in 1..=2usize {
                for ns in 1..=4usize {
                    let nd = ns * nx;
                    let scripts: Vec<Vec<Option<u64>>> = if nd <= 6 {
                        odometer(&vec![3; nd]).into_iter().map(|w| w.iter().map(|&k| Some(ext[k])).collect()).collect()
                    } else {
                        let mut v: Vec<Vec<Option<u64>>> = ext.iter().map(|&e| vec![Some(e); nd]).collect();
                        for i in 0..nd {
                            for e in ext {
                                let mut s = vec![None; nd];
                                s[i] = Some(e);
                                v.push(s);
                            }
                        }
                        v
                    };
                    let scripts: Vec<_> = if m == "ffact" { vec![vec![]] } else { scripts };
                    let stride = if m == "optimized" && nd > 4 { 7 } else { 1 };
                    let nb = if m == "optimized" { cx.q(2, BOUNDS.len()) } else { BOUNDS.len() };
                    let key = format!("{m}/{prec}/nx{nx}/ns{ns}/extreme");
                    cases.push(case(key, move |rec| {
                        for (k, s) in scripts.iter().enumerate() {
                            if k % stride != 0 && k + 1 != scripts.len() {
                                continue;
                            }
                            for rot in 0..nb {
                                if prec == "f64" {
                                    d01_one::<f64>(m, ns, nx, rot, s.clone(), 3, rec)?;
                                } else {
                                    d01_one::<f32>(m, ns, nx, rot, s.clone(), 3, rec)?;
                                }
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    // larger optimized designs over consecutive seeds: every accepted/rejected swap history is that of the stream
    let (nseed, sizes): (u64, &[(usize, usize)]) = if cx.thorough() {
        (160, &[(20, 1), (20, 2), (40, 2), (60, 2), (30, 3)])
    } else {
        (8, &[(20, 1), (20, 2), (40, 2)])
    };
    for &(ns, nx) in sizes {
        for seed in 0..nseed {
            cases.push(case(format!("optimized/f64/nx{nx}/ns{ns}/seed{seed}"), move |rec| {
                d01_one::<f64>("optimized", ns, nx, seed as usize % BOUNDS.len(), vec![], seed, rec)
            }));
        }
    }
    // close neighbours: two points pushed against their common interval edges in every dimension
    for (ns, nx) in [(3usize, 1usize), (4, 2), (5, 2), (6, 2)] {
        for seed in 0..cx.q(6u64, 40) {
            for near in [0.999, 0.9999999, 1.0 - 1e-12] {
                cases.push(case(format!("optimized/close/nx{nx}/ns{ns}/seed{seed}/{near}"), move |rec| {
                    // column-major draws: row 0 near its upper edge, row 1 near its lower edge, in each column
                    let mut s = vec![None; ns * nx];
                    for j in 0..nx {
                        s[j * ns] = Some((near * 18446744073709551616.0) as u64);
                        s[j * ns + 1] = Some(((1. - near) * 18446744073709551616.0) as u64);
                    }
                    // identity shuffles keep rows 0 and 1 adjacent in every column
                    for _ in 0..nx {
                        for i in (1..ns).rev() {
                            s.push(Some(index_raw(i as u32, i as u32 + 1)));
                        }
                    }
                    d01_one::<f64>("optimized", ns, nx, 0, s, seed, rec)
                }));
            }
        }
    }
    // schedules do not change shape/bounds/termination (values are decided by D04)
    cases.push(case("schedules/optimized", move |rec| {
        let (_, j) = sched::with(&sched::Schedule { nthreads: 4, ..Default::default() }, || {
            d01_one::<f64>("optimized", 5, 2, 0, vec![], 1, rec)
        });
        for s in sched::enumerate(&[1, 2, 8], &|_| j, 1, 40) {
            let (r, _) = sched::with(&s, || d01_one::<f64>("optimized", 5, 2, 0, vec![], 1, rec));
            r.map_err(|e| format!("{s:?}: {e}"))?;
        }
        Ok(())
    }));
    cx.run(cases);
}

/// the sorted column must have its i-th value in the i-th interval
fn stratified<F: Float>(d: &Array2<F>, ns: usize, nx: usize, centered: bool, what: &str) -> R {
    ensure!(d.dim() == (ns, nx), "{what}: shape {:?}", d.dim());
    let tol = if F::epsilon() > F::cast(1e-10) { 1e-6 } else { 1e-12 };
    for j in 0..nx {
        let mut c: Vec<f64> = d.column(j).iter().map(|v| v.to_f64().unwrap()).collect();
        ensure!(c.iter().all(|v| v.is_finite()), "{what}: non finite {c:?}");
        c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (i, v) in c.iter().enumerate() {
            let (lo, hi) = (i as f64 / ns as f64, (i + 1) as f64 / ns as f64);
            ensure!(*v >= lo - tol && *v <= hi + tol, "{what}: variable {j}: sorted values {c:?}: number {i} is not in [{lo}, {hi}]");
            if centered {
                ensure!((v - (lo + hi) / 2.).abs() <= tol, "{what}: variable {j}: {v} is not the middle of [{lo}, {hi}]");
            }
        }
    }
    Ok(())
}

fn d02_one<F: Float>(k: &str, ns: usize, nx: usize, rng: ScriptRng, rec: &mut Rec, what: &str) -> Result<Array2<F>, String> {
    let lim = unit::<F>(nx);
    let log = rng.log.clone();
    let s = make(k, &lim, rng);
    let d = catch(|| s.normalized_sample(ns)).map_err(|e| format!("{what}: {e}"))?;
    stratified(&d, ns, nx, k.starts_with('c') && k != "classic", what)?;
    rec.step(log.lock().unwrap().len() as u64);
    rec.trace();
    rec.state((k.to_string(), d.iter().map(|v| v.to_f64().unwrap().to_bits()).collect::<Vec<_>>()));
    Ok(d)
}

/// all generator scripts that make `nx` successive shuffles of n elements produce every permutation,
/// after `lead` unscripted draws
fn shuffle_scripts(n: usize, nx: usize, lead: usize) -> Vec<Vec<Option<u64>>> {
    let mut radix = vec![];
    let mut bounds = vec![];
    for _ in 0..nx {
        for i in (1..n).rev() {
            radix.push(i + 1);
            bounds.push(i as u32 + 1);
        }
    }
    odometer(&radix)
        .into_iter()
        .map(|w| {
            let mut s = vec![None; lead];
            s.extend(w.iter().zip(&bounds).map(|(&k, &b)| Some(index_raw(k as u32, b))));
            s
        })
        .collect()
}

pub fn d02(cx: &mut Cx) {
    cx.rule = "classic and centered kinds: every outcome of every shuffle (ns!^nx) x extreme draws; maximin kinds: every outcome of the \
        shuffles of each single candidate; optimized: all executions within 1 deviation (one draw forced to an extreme or to each index) of a default stream, over several streams".into();
    let mut cases = vec![];
    let lims: Vec<(usize, usize)> = cx.q(
        vec![(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (1, 2), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3)],
        vec![(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (4, 3), (2, 5)],
    );
    for k in ["classic", "centered"] {
        for &(ns, nx) in &lims {
            cases.push(case(format!("{k}/shuffles/ns{ns}/nx{nx}"), move |rec| {
                let lead = if k == "classic" { ns * nx } else { 0 };
                let scripts = shuffle_scripts(ns, nx, lead);
                let want = scripts.len();
                let mut seen = std::collections::HashSet::new();
                for (i, s) in scripts.into_iter().enumerate() {
                    let what = format!("{k} ns={ns} nx={nx} shuffle#{i}");
                    let d = d02_one::<f64>(k, ns, nx, ScriptRng::new(s, 7), rec, &what)?;
                    seen.insert(bits2(&d));
                }
                // every permutation combination is reachable: the shuffles are really enumerated
                ensure!(seen.len() == want, "only {} distinct designs out of {want} shuffle outcomes", seen.len());
                rec.sample = Some(format!("{want} shuffle outcomes, all distinct"));
                Ok(())
            }));
        }
    }
    // extreme draws for the in-interval position
    let ext = [0u64, 1 << 63, u64::MAX];
    for k in ["classic", "maximin", "optimized"] {
        for (ns, nx) in [(1usize, 1usize), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2)] {
            cases.push(case(format!("{k}/draws/ns{ns}/nx{nx}"), move |rec| {
                for (i, w) in odometer(&vec![3; ns * nx]).into_iter().enumerate() {
                    if k == "optimized" && ns * nx == 6 && i % 9 != 0 {
                        continue;
                    }
                    let s: Vec<_> = w.iter().map(|&q| Some(ext[q])).collect();
                    let what = format!("{k} ns={ns} nx={nx} draws {w:?}");
                    d02_one::<f64>(k, ns, nx, ScriptRng::new(s.clone(), 5), rec, &what)?;
                    d02_one::<f32>(k, ns, nx, ScriptRng::new(s, 5), rec, &format!("{what} f32"))?;
                }
                Ok(())
            }));
        }
    }
    for k in ["maximin", "cmaximin"] {
        for (ns, nx) in [(2usize, 1usize), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2)] {
            for cand in 0..5usize {
                cases.push(case(format!("{k}/ns{ns}/nx{nx}/candidate{cand}"), move |rec| {
                    let per = (if k == "maximin" { ns * nx } else { 0 }) + (ns - 1) * nx;
                    let lead = cand * per + per - (ns - 1) * nx;
                    for (i, s) in shuffle_scripts(ns, nx, lead).into_iter().enumerate() {
                        let what = format!("{k} ns={ns} nx={nx} candidate {cand} shuffle#{i}");
                        d02_one::<f64>(k, ns, nx, ScriptRng::new(s, 11), rec, &what)?;
                    }
                    Ok(())
                }));
            }
        }
    }
    // optimized: deviation-bounded over the swap choices
    let cfgs: Vec<(usize, usize, u64)> = {
        let mut v = vec![];
        for ns in [2usize, 3, 4, 5, 7] {
            for nx in [1usize, 2, 3] {
                for seed in 0..cx.q(1u64, 4) {
                    v.push((ns, nx, seed));
                }
            }
        }
        v
    };
    for (ns, nx, seed) in cfgs {
        let stride = cx.q(if nx == 1 { 11 } else { 97 }, if nx == 1 { 1 } else { 7 });
        cases.push(case(format!("optimized/ns{ns}/nx{nx}/seed{seed}/dev1"), move |rec| {
            let r0 = ScriptRng::new(vec![], seed);
            let log = r0.log.clone();
            d02_one::<f64>("optimized", ns, nx, r0, rec, &format!("optimized ns={ns} nx={nx} seed={seed}"))?;
            let n = log.lock().unwrap().len();
            rec.count("draws_of_default_stream", n as u64);
            for i in (0..n).step_by(stride) {
                for e in [0u64, u64::MAX] {
                    let mut s = vec![None; i + 1];
                    s[i] = Some(e);
                    let what = format!("optimized ns={ns} nx={nx} seed={seed} draw {i} forced to {e:x}");
                    d02_one::<f64>("optimized", ns, nx, ScriptRng::new(s, seed), rec, &what)?;
                }
            }
            Ok(())
        }));
    }
    // default streams, more sizes, the five kinds, and the scaled design
    let ms = cx.q(12, 40);
    for (k, _) in KINDS {
        for nx in 1..=4usize {
            for ns in 1..=ms {
                if k == "optimized" && cx.tier == Tier::Quick && (nx > 2 && ns > 6) {
                    continue;
                }
                cases.push(case(format!("{k}/stream/ns{ns}/nx{nx}"), move |rec| {
                    for seed in 0..2u64 {
                        d02_one::<f64>(k, ns, nx, ScriptRng::new(vec![], seed), rec, &format!("{k} ns={ns} nx={nx} seed={seed}"))?;
                        let lim = Array2::from_shape_fn((nx, 2), |(i, j)| if j == 0 { -2. * (i as f64 + 1.) } else { 3. + i as f64 });
                        let s = make(k, &lim, ScriptRng::new(vec![], seed));
                        let mut d = catch(|| s.sample(ns)).map_err(|e| format!("{k} ns={ns} nx={nx} seed={seed}: {e}"))?;
                        for j in 0..nx {
                            d.column_mut(j).mapv_inplace(|v| (v - lim[[j, 0]]) / (lim[[j, 1]] - lim[[j, 0]]));
                        }
                        stratified(&d, ns, nx, k.starts_with('c') && k != "classic", &format!("scaled {k} ns={ns} nx={nx} seed={seed}"))?;
                    }
                    Ok(())
                }));
            }
        }
    }
    // larger designs
    for (k, _) in KINDS {
        for nx in cx.q(vec![1usize, 2, 3, 5], vec![1, 2, 3, 4, 5, 8, 12]) {
            for ns in cx.q(vec![13usize, 16, 21, 30], vec![13, 14, 16, 21, 30, 50, 70]) {
                if k == "optimized" && ns * nx > cx.q(64, 300) {
                    continue;
                }
                cases.push(case(format!("{k}/large/ns{ns}/nx{nx}"), move |rec| {
                    (0..2u64).try_for_each(|seed| d02_one::<f64>(k, ns, nx, ScriptRng::new(vec![], seed), rec, &format!("{k} ns={ns} nx={nx} seed={seed}")).map(|_| ()))
                }));
            }
        }
    }
    cx.run(cases);
}

fn d03_one<F: Float>(ns: usize, nx: usize, rec: &mut Rec) -> R {
    let what = format!("full factorial ns={ns} nx={nx}");
    let lim = unit::<F>(nx);
    let d = catch(|| FullFactorial::new(&lim).normalized_sample(ns)).map_err(|e| format!("{what}: {e}"))?;
    ensure!(d.dim() == (ns, nx), "{what}: shape {:?}", d.dim());
    // levels per column
    let mut lev: Vec<Vec<f64>> = vec![];
    for j in 0..nx {
        let mut c: Vec<f64> = d.column(j).iter().map(|v| v.to_f64().unwrap()).collect();
        c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        c.dedup_by(|a, b| (*a - *b).abs() < 1e-6);
        let n = c.len();
        for (i, v) in c.iter().enumerate() {
            let e = if n == 1 { 0. } else { i as f64 / (n - 1) as f64 };
            ensure!((v - e).abs() < 1e-6, "{what}: variable {j}: levels {c:?} are not evenly spaced between the bounds");
        }
        lev.push(c);
    }
    let counts: Vec<usize> = lev.iter().map(|c| c.len()).collect();
    let (mn, mx) = (*counts.iter().min().unwrap(), *counts.iter().max().unwrap());
    ensure!(mx - mn <= 1, "{what}: unbalanced numbers of levels {counts:?}");
    let size: usize = counts.iter().product();
    // smallest balanced grid holding ns points
    let mut best = usize::MAX;
    'o: for m in 1..=ns.max(1) {
        for k in 0..nx {
            let g = m.pow((nx - k) as u32) * (m + 1).pow(k as u32);
            if g >= ns {
                best = best.min(g);
                break 'o;
            }
        }
    }
    ensure!(size == best, "{what}: levels {counts:?} make a grid of {size} points while {best} are enough");
    let mut pts: Vec<Vec<usize>> = d
        .axis_iter(Axis(0))
        .map(|r| r.iter().enumerate().map(|(j, v)| (v.to_f64().unwrap() * (counts[j].max(2) - 1) as f64).round() as usize).collect())
        .collect();
    pts.sort();
    pts.dedup();
    ensure!(pts.len() == ns, "{what}: {} distinct points only", pts.len());
    // bounds reached in real space
    let lim = Array2::from_shape_fn((nx, 2), |(i, j)| F::cast(if j == 0 { -1. - i as f64 } else { 4. + i as f64 }));
    let s = FullFactorial::new(&lim).sample(ns);
    for j in 0..nx {
        let col = s.column(j);
        let lo = col.iter().cloned().fold(F::infinity(), F::min);
        let hi = col.iter().cloned().fold(F::neg_infinity(), F::max);
        let eps = F::cast(1e-5);
        ensure!((lo - lim[[j, 0]]).abs() < eps, "{what}: lower bound of variable {j} not reached: {lo:?}");
        if counts[j] > 1 {
            ensure!((hi - lim[[j, 1]]).abs() < eps, "{what}: upper bound of variable {j} not reached: {hi:?}");
        }
    }
    rec.trace();
    rec.step(ns as u64);
    rec.state((ns, nx, std::mem::size_of::<F>()));
    if ns == 6 {
        rec.sample = Some(format!("ns=6 nx={nx}: levels {counts:?} points {pts:?}"));
    }
    Ok(())
}

pub fn d03(cx: &mut Cx) {
    cx.rule = "every (ns, nx) up to the bound, f32 and f64".into();
    let m = cx.q(260, 2000);
    let mut cases = vec![];
    for nx in 1..=cx.q(6usize, 8) {
        for ns in 1..=m {
            cases.push(case(format!("nx{nx}/ns{ns}"), move |rec| {
                d03_one::<f64>(ns, nx, rec)?;
                d03_one::<f32>(ns, nx, rec)
            }));
        }
    }
    cx.run(cases);
}

pub fn d04(cx: &mut Cx) {
    cx.rule = "per (method, ns, nx, seed): reference = two successive designs in one sampler; every schedule within the deviation bound x worker count must give the same two designs; non-deterministic methods must give different successive designs".into();
    let mut cases = vec![];
    let nthr: &'static [usize] = if cx.thorough() { &[1, 2, 3, 4, 8, 16, 24, 48, 128] } else { &[1, 2, 4, 8, 24, 64] };
    let dims: Vec<(usize, usize)> = cx.q(vec![(2, 1), (3, 2), (5, 2), (7, 3)], vec![(2, 1), (3, 1), (3, 2), (5, 2), (7, 3), (10, 2), (16, 4)]);
    for m in METHODS {
        for &(ns, nx) in &dims {
            for prec in ["f64", "f32"] {
                for seed in 0..cx.q(1u64, 3) {
                    let bound2 = cx.thorough() && m == "maximin";
                    let capj = cx.q(16, 60);
                    cases.push(case(format!("{m}/{prec}/ns{ns}/nx{nx}/seed{seed}"), move |rec| {
                        fn go<F: Float>(m: &str, ns: usize, nx: usize, seed: u64) -> Result<[Vec<u64>; 2], String> {
                            let lim = xlimits::<F>(nx, 1);
                            let s = make(m, &lim, ScriptRng::new(vec![], seed));
                            let f = |d: Array2<F>| d.iter().map(|v| v.to_f64().unwrap().to_bits()).collect::<Vec<_>>();
                            Ok([f(catch(|| s.sample(ns))?), f(catch(|| s.sample(ns))?)])
                        }
                        let run = || if prec == "f64" { go::<f64>(m, ns, nx, seed) } else { go::<f32>(m, ns, nx, seed) };
                        let base = sched::Schedule { nthreads: 1, ..Default::default() };
                        let (r0, _) = sched::with(&base, run);
                        let r0 = r0?;
                        if m == "ffact" {
                            ensure!(r0[0] == r0[1], "{m}: successive designs differ");
                        } else if ns > 2 && !(m == "centered" && ns < 5) && !(m == "cmaximin") {
                            ensure!(r0[0] != r0[1], "{m} ns={ns} nx={nx} seed={seed}: two successive designs are identical");
                        }
                        let joins = |nt: usize| sched::with(&sched::Schedule { nthreads: nt, ..Default::default() }, run).1;
                        let ss = sched::enumerate(nthr, &joins, if bound2 { 2 } else { 1 }, capj);
                        for s in &ss {
                            let (r, j) = sched::with(s, run);
                            rec.step(j as u64);
                            rec.trace();
                            let r = r?;
                            ensure!(r == r0, "{m} {prec} ns={ns} nx={nx} seed={seed}: designs under schedule {s:?} differ from those under the sequential one");
                        }
                        rec.state((m.to_string(), ns, nx, seed, r0.clone()));
                        rec.sample = Some(format!("{} schedules", ss.len()));
                        Ok(())
                    }));
                }
            }
        }
        // the stock generator, rebuilt: same seed, same designs; setter order is irrelevant
        cases.push(case(format!("{m}/stock"), move |rec| {
            for seed in 0..10u64 {
                for (ns, nx) in [(3usize, 1usize), (5, 2), (8, 3)] {
                    let lim = xlimits::<f64>(nx, seed as usize);
                    let mk = |style: u8| -> Box<dyn SamplingMethod<f64>> {
                        let rng = Xoshiro256Plus::seed_from_u64(seed);
                        match (m, style) {
                            ("ffact", _) => Box::new(FullFactorial::new(&lim)),
                            ("random", 0) => Box::new(Random::new_with_rng(&lim, rng)),
                            ("random", _) => Box::new(Random::new(&lim).with_rng(rng)),
                            (k, st) => {
                                let kind = KINDS.iter().find(|(n, _)| *n == k).unwrap().1;
                                match st {
                                    0 => Box::new(Lhs::new_with_rng(&lim, rng).kind(kind)),
                                    1 => Box::new(Lhs::new(&lim).with_rng(rng).kind(kind)),
                                    _ => Box::new(Lhs::new(&lim).kind(kind).with_rng(rng)),
                                }
                            }
                        }
                    };
                    let a = mk(0);
                    let (a1, a2) = (a.sample(ns), a.sample(ns));
                    ensure!(a.sampling_space() == &lim, "{m}: sampling space differs from the given bounds");
                    for st in 1..3u8 {
                        let b = mk(st);
                        ensure!(bits2(&b.sample(ns)) == bits2(&a1) && bits2(&b.sample(ns)) == bits2(&a2),
                            "{m} ns={ns} nx={nx} seed={seed}: construction style {st} gives other designs");
                    }
                    // real pool (uncontrolled, separate run)
                    rayon_core::mc::uninstall();
                    let c = mk(0).sample(ns);
                    rayon_core::mc::install(4, Box::new(DefaultCtl));
                    ensure!(bits2(&c) == bits2(&a1), "{m} ns={ns} nx={nx} seed={seed}: the real pool gives another design");
                    rec.trace();
                    rec.step(4);
                }
            }
            Ok(())
        }));
    }
    cx.run(cases);
}

fn dists(d: &Array2<f64>) -> Vec<f64> {
    let mut v = vec![];
    for i in 0..d.nrows() {
        for j in i + 1..d.nrows() {
            v.push(d.row(i).iter().zip(d.row(j)).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt());
        }
    }
    v
}
fn phip(d: &Array2<f64>) -> f64 {
    dists(d).iter().map(|v| v.powi(-10)).sum::<f64>().powf(0.1)
}
fn mind(d: &Array2<f64>) -> f64 {
    dists(d).into_iter().fold(f64::INFINITY, f64::min)
}

pub fn d05(cx: &mut Cx) {
    cx.rule = "maximin kinds: candidates recomputed from the same generator stream (their number measured from the draws consumed), every shuffle outcome of each candidate for small sizes; optimized: criterion of the result vs that of the starting design, streams of consecutive seeds and 1-deviation scripts".into();
    let mut cases = vec![];
    // maximin: the result is the best of the candidates
    fn maximin(k: &'static str, ns: usize, nx: usize, script: Vec<Option<u64>>, seed: u64, rec: &mut Rec) -> R {
        let what = format!("{k} ns={ns} nx={nx} seed={seed}");
        let u = unit::<f64>(nx);
        let rng = ScriptRng::new(script.clone(), seed);
        let log = rng.log.clone();
        let d = catch(|| make(k, &u, rng).normalized_sample(ns)).map_err(|e| format!("{what}: {e}"))?;
        let used = log.lock().unwrap().len();
        let base = if k == "maximin" { "classic" } else { "centered" };
        let rng = ScriptRng::new(script, seed);
        let log = rng.log.clone();
        let s = make(base, &u, rng);
        let mut cands = vec![];
        while log.lock().unwrap().len() < used && cands.len() < 1000 {
            cands.push(s.normalized_sample(ns));
        }
        ensure!(log.lock().unwrap().len() == used, "{what}: draws consumed do not correspond to a whole number of candidates");
        ensure!(cands.len() >= 2, "{what}: {} candidate(s) only", cands.len());
        ensure!(cands.iter().any(|c| bits2(c) == bits2(&d)), "{what}: the result is none of the {} candidates", cands.len());
        let best = cands.iter().map(mind).fold(0., f64::max);
        ensure!(mind(&d) >= best * (1. - 1e-12), "{what}: smallest distance {} while a candidate has {}", mind(&d), best);
        rec.trace();
        rec.step(cands.len() as u64);
        rec.state(bits2(&d));
        Ok(())
    }
    for k in ["maximin", "cmaximin"] {
        for nx in 1..=4usize {
            for ns in 2..=cx.q(12usize, 30) {
                let seeds = cx.q(20u64, 100);
                cases.push(case(format!("{k}/stream/nx{nx}/ns{ns}"), move |rec| {
                    (0..seeds).try_for_each(|seed| maximin(k, ns, nx, vec![], seed, rec))
                }));
            }
        }
        for (ns, nx) in [(3usize, 2usize), (4, 2)] {
            for cand in 0..5usize {
                cases.push(case(format!("{k}/shuffles/ns{ns}/nx{nx}/candidate{cand}"), move |rec| {
                    let per = (if k == "maximin" { ns * nx } else { 0 }) + (ns - 1) * nx;
                    let lead = cand * per + per - (ns - 1) * nx;
                    for s in shuffle_scripts(ns, nx, lead) {
                        maximin(k, ns, nx, s, 2, rec)?;
                    }
                    Ok(())
                }));
            }
        }
    }
    fn ese(ns: usize, nx: usize, script: Vec<Option<u64>>, seed: u64, rec: &mut Rec) -> Result<usize, String> {
        let what = format!("optimized ns={ns} nx={nx} seed={seed} script={}", script.iter().flatten().count());
        let u = unit::<f64>(nx);
        let start = make("classic", &u, ScriptRng::new(script.clone(), seed)).normalized_sample(ns);
        let rng = ScriptRng::new(script, seed);
        let log = rng.log.clone();
        let d = catch(|| make("optimized", &u, rng).normalized_sample(ns)).map_err(|e| format!("{what}: {e}"))?;
        let (a, b) = (phip(&start), phip(&d));
        ensure!(b <= a * (1. + 1e-6) || b.is_infinite() && a.is_infinite(), "{what}: criterion of the optimized design {b} is worse than that of its starting design {a}");
        // same columns up to permutation: exchanges only move values within a variable
        for j in 0..nx {
            let mut x: Vec<u64> = start.column(j).iter().map(|v| v.to_bits()).collect();
            let mut y: Vec<u64> = d.column(j).iter().map(|v| v.to_bits()).collect();
            x.sort();
            y.sort();
            ensure!(x == y, "{what}: values of variable {j} are not those of the starting design");
        }
        rec.max("criterion_ratio_result_to_start", b / a);
        if b < a {
            rec.count("improved", 1);
        }
        rec.trace();
        rec.step(1);
        rec.state(bits2(&d));
        Ok(log.lock().unwrap().len())
    }
    for nx in 1..=4usize {
        for ns in 2..=cx.q(14usize, 40) {
            if cx.tier == Tier::Quick && nx > 2 && ns > 8 && ns % 3 != 1 {
                continue;
            }
            let seeds = cx.q(if nx > 2 { if ns > 8 { 1u64 } else { 2 } } else { 6 }, 30);
            cases.push(case(format!("optimized/stream/nx{nx}/ns{ns}"), move |rec| {
                (0..seeds).try_for_each(|seed| ese(ns, nx, vec![], seed, rec).map(|_| ()))
            }));
        }
    }
    for (ns, nx) in [(3usize, 1usize), (4, 1), (4, 2), (6, 2)] {
        let stride = cx.q(if nx == 1 { 19 } else { 211 }, if nx == 1 { 1 } else { 11 });
        cases.push(case(format!("optimized/dev1/ns{ns}/nx{nx}"), move |rec| {
            let n = ese(ns, nx, vec![], 4, rec)?;
            for i in (0..n).step_by(stride) {
                for e in [0u64, u64::MAX] {
                    let mut s = vec![None; i + 1];
                    s[i] = Some(e);
                    ese(ns, nx, s, 4, rec)?;
                }
            }
            Ok(())
        }));
    }
    cx.run(cases);
}
