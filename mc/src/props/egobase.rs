//! E01 (best-result selection), X01 (mixed-integer coding), X02 (mixed-integer sampling and surrogates)
use crate::cx::*;
use crate::ensure;
use crate::util::*;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use egobox_ego::gpmix::mixint::*;
use egobox_ego::{SurrogateBuilder, XType, find_best_result_index};
use egobox_moe::{
    CorrelationSpec, GpMixtureParams, GpSurrogate, GpSurrogateExt, MixtureGpSurrogate, NbClusters, Recombination,
    RegressionSpec, ThetaTuning,
};
use linfa::prelude::*;
use ndarray::{Array1, Array2, Axis, array, s};
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

// ---------------------------------------------------------------- E01

fn viol(c: &[f64], tol: &[f64]) -> f64 {
    let mut s = 0.;
    for (c, t) in c.iter().zip(tol) {
        if *c > *t {
            s += (*c - *t).abs();
        }
    }
    s
}

/// Reference selection: index of the best row among rows[..], plain scan, ties to the earliest.
pub fn ref_best(rows: &[(f64, Vec<f64>)], tol: &[f64]) -> usize {
    let feas: Vec<bool> = rows.iter().map(|(_, c)| c.iter().zip(tol).all(|(c, t)| c <= t)).collect();
    let mut best = None::<usize>;
    for i in 0..rows.len() {
        let better = match best {
            None => true,
            Some(b) => match (feas[i], feas[b]) {
                (true, false) => true,
                (false, true) => false,
                (true, true) => rows[i].0 < rows[b].0,
                (false, false) => viol(&rows[i].1, tol) < viol(&rows[b].1, tol),
            },
        };
        if better {
            best = Some(i);
        }
    }
    best.unwrap()
}

fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        for mut r in compositions(n - k) {
            r.insert(0, k);
            out.push(r);
        }
    }
    out
}

fn e01_history(rows: &[(f64, Vec<f64>)], ny: usize, nf: usize, tol: &[f64], comps: &[Vec<usize>]) -> R {
    let n = rows.len();
    let y = Array2::from_shape_fn((n, 1 + ny), |(i, j)| if j == 0 { rows[i].0 } else { rows[i].1[j - 1] });
    let c = Array2::from_shape_fn((n, nf), |(i, j)| rows[i].1[ny + j]);
    let t = Array1::from_vec(tol.to_vec());
    let show = || format!("y={} c={} tol={:?}", fmt2(&y), fmt2(&c), tol);
    let want = ref_best(rows, tol);
    let got = catch(|| find_best_result_index(&y, &c, &t)).map_err(|e| format!("{e} for {}", show()))?;
    ensure!(got == want, "selected row {got}, best row is {want}: {}", show());
    #[cfg(egobox_mc)]
    {
        use egobox_ego::mc_hooks::{find_best_result_index_from, is_feasible};
        for i in 0..n {
            let f = rows[i].1.iter().zip(tol).all(|(c, t)| c <= t);
            let g = is_feasible(&y.row(i), &c.row(i), &t);
            ensure!(f == g, "is_feasible row {i} = {g}: {}", show());
        }
        for comp in comps {
            let mut k = comp[0];
            let mut cur = find_best_result_index(&y.slice(s![..k, ..]), &c.slice(s![..k, ..]), &t);
            for b in &comp[1..] {
                let (yy, cc) = (y.slice(s![..k + b, ..]), c.slice(s![..k + b, ..]));
                cur = catch(|| find_best_result_index_from(cur, k, &yy, &cc, &t)).map_err(|e| format!("{e} for {}", show()))?;
                k += b;
                let w = ref_best(&rows[..k], tol);
                ensure!(cur == w, "incremental selection over batches {comp:?} gives row {cur} after {k} rows, best is {w}: {}", show());
            }
        }
    }
    let _ = comps;
    Ok(())
}

pub fn e01(cx: &mut Cx) {
    cx.rule = "Exhaustive histories of up to 4 (5 thorough) evaluations over objective and constraint alphabets (values below, at, just above and far above the tolerance, infinities, ties), for every split of constraints into modelled and function constraints, against a list model; the incremental selection is replayed over every way of cutting the history into batches.".into();
    cx.assumptions = vec!["values are numbers or infinities (no NaN); tolerance vector has one entry per constraint".into()];
    let inf = f64::INFINITY;
    let objs_full = [-inf, -1., 0., 1., 1e300, inf];
    let objs = [-1., 0., 1., inf];
    let mut cases = vec![];
    let th = cx.thorough();
    let shapes = [(0usize, 0usize), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)];
    for (ny, nf) in shapes {
        let nc = ny + nf;
        for (ti, tolv) in [0.0, 1e-6, 0.25, 0.5].iter().enumerate() {
            // one tolerance per constraint, all different when there are several (increasing, or decreasing for the last)
            let tol: Vec<f64> = (0..nc).map(|k| if ti == 3 { tolv / (1. + k as f64) } else { tolv * (1. + k as f64) }).collect();
            if ti == 3 && nc < 2 {
                continue;
            }
            // constraint alphabet relative to the tolerance of that constraint
            let calph: Vec<Vec<f64>> = tol
                .iter()
                .map(|t| {
                    if nc == 1 {
                        vec![-inf, -1., *t, t + 1e-9, t + 0.5, t + 1., inf]
                    } else if nc == 2 {
                        vec![-1., 0.75 * t, *t, t + 0.5, t + 1.]
                    } else {
                        vec![0.75 * t, *t, t + 0.5]
                    }
                })
                .collect();
            let oalph: Vec<f64> = if nc <= 1 { objs_full.to_vec() } else if th { objs.to_vec() } else { vec![-1., 1., inf] };
            let mut letters: Vec<(f64, Vec<f64>)> = vec![];
            let radix: Vec<usize> = std::iter::once(oalph.len()).chain(calph.iter().map(|a| a.len())).collect();
            for w in odometer(&radix) {
                letters.push((oalph[w[0]], (0..nc).map(|k| calph[k][w[k + 1]]).collect()));
            }
            let depth = if letters.len() <= 8 { 5 } else if letters.len() <= 42 { if th { 4 } else { 3 } } else { if th { 3 } else { 3 } };
            for d in 1..=depth {
                // split by the first letter
                for f in 0..letters.len() {
                    let letters = letters.clone();
                    let tol = tol.clone();
                    cases.push(case(format!("hist/{ny}+{nf}/tol{ti}/d{d}/{f}"), move |rec| {
                        let comps = compositions(d);
                        let mut idx = vec![0usize; d];
                        idx[0] = f;
                        loop {
                            let rows: Vec<_> = idx.iter().map(|&i| letters[i].clone()).collect();
                            e01_history(&rows, ny, nf, &tol, &comps)?;
                            rec.state((ny, nf, ti, &idx));
                            rec.step(comps.len() as u64);
                            rec.trace();
                            // odometer over positions 1..d
                            let mut p = d;
                            loop {
                                if p <= 1 {
                                    if rec.sample.is_none() {
                                        rec.sample = Some(format!("{rows:?}"));
                                    }
                                    return Ok(());
                                }
                                p -= 1;
                                idx[p] += 1;
                                if idx[p] < letters.len() {
                                    break;
                                }
                                idx[p] = 0;
                            }
                        }
                    }));
                }
            }
        }
    }
    cx.run(cases);
}

// ---------------------------------------------------------------- X01

pub fn type_alphabet() -> Vec<XType> {
    vec![
        XType::Float(-1.5, 2.),
        XType::Int(-2, 3),
        XType::Int(0, 1),
        XType::Ord(vec![1., 3., 5., 8.]),
        XType::Ord(vec![-2.5, 0.5]),
        XType::Ord(vec![5., 1., 3.]),
        XType::Enum(1),
        XType::Enum(2),
        XType::Enum(3),
    ]
}
pub fn tname(t: &XType) -> String {
    match t {
        XType::Float(a, b) => format!("F({a},{b})"),
        XType::Int(a, b) => format!("I({a},{b})"),
        XType::Ord(v) => format!("O{v:?}"),
        XType::Enum(n) => format!("E{n}"),
    }
}
pub fn tsname(t: &[XType]) -> String {
    t.iter().map(tname).collect::<Vec<_>>().join(";")
}
pub fn width(t: &XType) -> usize {
    if let XType::Enum(n) = t { *n } else { 1 }
}
pub fn valid_values(t: &XType) -> Vec<f64> {
    match t {
        XType::Float(a, b) => vec![*a, 0.25, *b],
        XType::Int(a, b) => (*a..=*b).map(|v| v as f64).collect(),
        XType::Ord(v) => v.clone(),
        XType::Enum(n) => (0..*n).map(|v| v as f64).collect(),
    }
}
pub fn is_valid(t: &XType, v: f64) -> bool {
    match t {
        XType::Float(a, b) => v >= *a && v <= *b,
        XType::Int(a, b) => v == v.round() && v >= *a as f64 && v <= *b as f64,
        XType::Ord(l) => l.contains(&v),
        XType::Enum(n) => v == v.round() && v >= 0. && v < *n as f64,
    }
}
/// relaxed coordinate tuples of one variable
fn relaxed(t: &XType, rich: bool) -> Vec<Vec<f64>> {
    match t {
        XType::Float(a, b) => vec![vec![*a], vec![0.3], vec![*b]],
        XType::Int(a, b) => {
            let (a, b) = (*a as f64, *b as f64);
            let mut v = vec![vec![a], vec![b], vec![a + 0.4], vec![b - 0.4], vec![a + 0.5]];
            if rich {
                v.extend([vec![a + 0.75], vec![(a + b) / 2. + 0.2]]);
            }
            v
        }
        XType::Ord(l) => {
            let mut s = l.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut v = vec![vec![s[0]], vec![s[s.len() - 1]]];
            for w in s.windows(2) {
                v.push(vec![w[0] + 0.3 * (w[1] - w[0])]);
                v.push(vec![w[0] + 0.7 * (w[1] - w[0])]);
                if rich {
                    v.push(vec![w[0] + 0.5 * (w[1] - w[0])]);
                }
            }
            v
        }
        XType::Enum(n) => {
            let al: &[f64] = if rich { &[0., 0.4, 0.6, 1.] } else { &[0., 0.5, 1.] };
            odometer(&vec![al.len(); *n]).into_iter().map(|w| w.into_iter().map(|k| al[k]).collect()).collect()
        }
    }
}
/// set of acceptable decodings of one variable (ties make several acceptable)
pub fn ref_decode(t: &XType, r: &[f64]) -> Vec<f64> {
    match t {
        XType::Float(_, _) => vec![r[0]],
        XType::Enum(_) => {
            let m = r.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            (0..r.len()).filter(|i| r[*i] == m).map(|i| i as f64).collect()
        }
        _ => {
            let vals = valid_values(t);
            let d = vals.iter().map(|v| (v - r[0]).abs()).fold(f64::INFINITY, f64::min);
            vals.into_iter().filter(|v| (v - r[0]).abs() <= d * (1. + 1e-12)).collect()
        }
    }
}
pub enum Fold {
    Good,
    /// the enum was read from the columns at its folded position (recorded defect)
    Misread,
    Bad,
}
/// Judges the decoded value of variable j of a relaxed row.
pub fn judge_fold(ts: &[XType], j: usize, row: &[f64], v: f64) -> Fold {
    let k: usize = ts[..j].iter().map(width).sum();
    let w = width(&ts[j]);
    if is_valid(&ts[j], v) && ref_decode(&ts[j], &row[k..k + w]).contains(&v) {
        return Fold::Good;
    }
    if let XType::Enum(n) = ts[j]
        && k != j
    {
        // any cast of the row compatible with ties
        let mut casts: Vec<Vec<f64>> = vec![vec![]];
        let mut k = 0;
        for t in ts {
            let opts = ref_decode(t, &row[k..k + width(t)]);
            casts = casts
                .iter()
                .flat_map(|c| {
                    opts.iter().map(|d| {
                        let mut c = c.clone();
                        match t {
                            XType::Enum(n) => c.extend((0..*n).map(|m| (m as f64 == *d) as u8 as f64)),
                            _ => c.push(*d),
                        }
                        c
                    })
                })
                .collect();
            k += width(t);
        }
        for cast in casts {
            let m = cast[j..j + n].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            if (0..n).any(|i| cast[j + i] == m && i as f64 == v) {
                return Fold::Misread;
            }
        }
    }
    Fold::Bad
}
const MISREAD: &str = "enum-folded-from-wrong-columns";
pub fn to_matrix(rows: &[Vec<f64>], nc: usize) -> Array2<f64> {
    Array2::from_shape_fn((rows.len(), nc), |(i, j)| rows[i][j])
}
/// all combinations, each a concatenation of per-variable tuples; a spread subset when more than cap
fn product(per: &[Vec<Vec<f64>>], cap: usize) -> (Vec<Vec<f64>>, bool) {
    let total: usize = per.iter().map(|p| p.len()).product();
    let decode = |mut k: usize| {
        let mut row = vec![];
        for p in per {
            row.extend(p[k % p.len()].iter().cloned());
            k /= p.len();
        }
        row
    };
    if total <= cap {
        ((0..total).map(decode).collect(), true)
    } else {
        // stride coprime with the total so that each per-variable value appears
        let mut st = total / cap + 1;
        while gcd(st, total) != 1 {
            st += 1;
        }
        ((0..cap).map(|i| decode(i * st % total)).collect(), false)
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn x01_list(ts: &[XType], rich: bool, cap: usize, rec: &mut Rec) -> R {
    let wtot: usize = ts.iter().map(width).sum();
    // bounds
    let lim = catch(|| as_continuous_limits::<f64>(ts))?;
    ensure!(lim.dim() == (wtot, 2), "relaxed bounds have shape {:?}, expected ({wtot}, 2)", lim.dim());
    let mut k = 0;
    for t in ts {
        let (lo, hi) = match t {
            XType::Float(a, b) => (*a, *b),
            XType::Int(a, b) => (*a as f64, *b as f64),
            XType::Ord(l) => (l.iter().cloned().fold(f64::INFINITY, f64::min), l.iter().cloned().fold(f64::NEG_INFINITY, f64::max)),
            XType::Enum(_) => (0., 1.),
        };
        for _ in 0..width(t) {
            ensure!(lim[[k, 0]] == lo && lim[[k, 1]] == hi, "relaxed bounds of column {k}: [{}, {}] instead of [{lo}, {hi}]", lim[[k, 0]], lim[[k, 1]]);
            k += 1;
        }
    }
    ensure!(MixintContext::new(ts).get_unfolded_dim() == wtot, "unfolded dimension");
    // encode valid points
    let per: Vec<Vec<Vec<f64>>> = ts.iter().map(|t| valid_values(t).into_iter().map(|v| vec![v]).collect()).collect();
    let (pts, _) = product(&per, cap);
    let x = to_matrix(&pts, ts.len());
    let u = catch(|| to_continuous_space(ts, &x))?;
    ensure!(u.dim() == (pts.len(), wtot), "encoded shape {:?}", u.dim());
    for (i, p) in pts.iter().enumerate() {
        let mut k = 0;
        for (j, t) in ts.iter().enumerate() {
            for m in 0..width(t) {
                let want = match t {
                    XType::Enum(_) => (m as f64 == p[j]) as u8 as f64,
                    _ => p[j],
                };
                ensure!(u[[i, k]] == want, "encoding of {p:?}: column {k} is {} instead of {want}", u[[i, k]]);
                ensure!(u[[i, k]] >= lim[[k, 0]] && u[[i, k]] <= lim[[k, 1]], "encoded point outside the relaxed bounds");
                k += 1;
            }
        }
        rec.state(("v", tsname(ts), i));
    }
    let back = catch(|| to_discrete_space(ts, &u))?;
    ensure!(back.dim() == x.dim(), "decoded shape {:?}", back.dim());
    for i in 0..pts.len() {
        for j in 0..ts.len() {
            if back[[i, j]] != x[[i, j]] {
                let m = format!("decode(encode({})) = {}", x.row(i), back.row(i));
                match judge_fold(ts, j, &u.row(i).to_vec(), back[[i, j]]) {
                    Fold::Misread => rec.kind(MISREAD, m),
                    _ => return Err(m),
                }
            }
        }
    }
    rec.step(2 * pts.len() as u64);
    // decode relaxed points
    let per: Vec<Vec<Vec<f64>>> = ts.iter().map(|t| relaxed(t, rich)).collect();
    let (pts, _) = product(&per, cap);
    let r = to_matrix(&pts, wtot);
    let mut misread = false;
    let d = catch(|| to_discrete_space(ts, &r))?;
    ensure!(d.dim() == (pts.len(), ts.len()), "decoded shape {:?}", d.dim());
    for i in 0..pts.len() {
        let mut k = 0;
        for (j, t) in ts.iter().enumerate() {
            let ok = ref_decode(t, &pts[i][k..k + width(t)]);
            let m = || format!("decoding {:?}: variable {j} ({}) is {} instead of {ok:?}", pts[i], tname(t), d[[i, j]]);
            match judge_fold(ts, j, &pts[i], d[[i, j]]) {
                Fold::Good => {}
                Fold::Misread => {
                    misread = true;
                    rec.kind(MISREAD, m())
                }
                Fold::Bad => return Err(m()),
            }
            k += width(t);
        }
        rec.state(("r", tsname(ts), i));
    }
    // decoding is a projection
    let again = catch(|| to_discrete_space(ts, &to_continuous_space(ts, &d)))?;
    ensure!(misread || again == d, "decoding is not idempotent");
    // row by row = batch
    for i in (0..pts.len()).step_by((pts.len() / 7).max(1)) {
        let one = catch(|| to_discrete_space(ts, &r.slice(s![i..i + 1, ..])))?;
        ensure!(one.row(0) == d.row(i), "decoding a single row differs from decoding the batch");
        let one = catch(|| to_continuous_space(ts, &d.slice(s![i..i + 1, ..])))?;
        ensure!(one.nrows() == 1, "shape");
    }
    rec.step(2 * pts.len() as u64);
    rec.traces += pts.len() as u64;
    if rec.sample.is_none() {
        rec.sample = Some(format!("{} -> {:?}", tsname(ts), d.row(0).to_vec()));
    }
    Ok(())
}

pub fn type_lists(maxlen: usize) -> Vec<Vec<XType>> {
    let al = type_alphabet();
    let mut out = vec![];
    for n in 1..=maxlen {
        for w in odometer(&vec![al.len(); n]) {
            out.push(w.iter().map(|&k| al[k].clone()).collect());
        }
    }
    out
}

pub fn x01(cx: &mut Cx) {
    cx.rule = "Exhaustive lists of variable types of length up to 4 over an alphabet of 9 types (5 of 5 kinds in thorough); for each list every combination of valid values (encoded and decoded back) and of relaxed coordinate patterns (all one-hot corners, ties, interior and rounding boundaries) up to a cap per list, compared with a reference decoder.".into();
    cx.assumptions = vec![];
    let mut cases = vec![];
    let lists = type_lists(4);
    for ts in lists {
        let key = format!("code/{}", tsname(&ts));
        let n = ts.len();
        let cap = cx.q(if n < 4 { 3000 } else { 250 }, 6000);
        cases.push(case(key, move |rec| x01_list(&ts, n < 3, cap, rec)));
    }
    if cx.thorough() {
        // length 5 over one type of each kind
        let al = [XType::Float(-1.5, 2.), XType::Int(-2, 3), XType::Ord(vec![5., 1., 3.]), XType::Enum(2), XType::Enum(3)];
        for w in odometer(&[5; 5]) {
            let ts: Vec<XType> = w.iter().map(|&k| al[k].clone()).collect();
            cases.push(case(format!("code5/{}", tsname(&ts)), move |rec| x01_list(&ts, false, 2000, rec)));
        }
    }
    cx.run(cases);
}

// ---------------------------------------------------------------- X02

fn check_sample_valid(ts: &[XType], d: &Array2<f64>, ns: usize, what: &str) -> R {
    ensure!(d.dim() == (ns, ts.len()), "{what}: shape {:?}", d.dim());
    for ((i, j), v) in d.indexed_iter() {
        ensure!(is_valid(&ts[j], *v), "{what}: sample ({i},{j}) = {v} is not a value of {}", tname(&ts[j]));
    }
    Ok(())
}
fn check_against_relaxed(ts: &[XType], d: &Array2<f64>, relaxed: &Array2<f64>, what: &str, rec: &mut Rec) -> Result<bool, String> {
    let mut misread = false;
    for i in 0..d.nrows() {
        let r = relaxed.row(i).to_vec();
        let mut k = 0;
        for (j, t) in ts.iter().enumerate() {
            // a tie may hide the misreading
            misread |= matches!(t, XType::Enum(_)) && k != j && ref_decode(t, &r[k..k + width(t)]).len() > 1;
            k += width(t);
            let m = || format!("{what}: row {i} variable {j} is {} but the relaxed design has {r:?}", d[[i, j]]);
            match judge_fold(ts, j, &r, d[[i, j]]) {
                Fold::Good => {}
                Fold::Misread => {
                    misread = true;
                    rec.kind(MISREAD, m())
                }
                Fold::Bad => return Err(m()),
            }
        }
    }
    Ok(misread)
}

fn x02_sampling(ts: &[XType], rec: &mut Rec) -> R {
    let ctx = MixintContext::new(ts);
    let lim = as_continuous_limits::<f64>(ts);
    let kinds = super::doe::KINDS;
    for ns in [1usize, 2, 3, 5] {
        for seed in [0u64, 7] {
            for (name, kind) in kinds {
                let what = format!("lhs {name} ns={ns} seed={seed}");
                let d = catch(|| ctx.create_lhs_sampling::<f64>(kind, Some(seed)).sample(ns))?;
                check_sample_valid(ts, &d, ns, &what)?;
                let mk = || Lhs::new(&lim).with_rng(Xoshiro256Plus::seed_from_u64(seed)).kind(kind);
                let plain = mk().sample(ns);
                let mis = check_against_relaxed(ts, &d, &plain, &what, rec)?;
                let unf = catch(|| MixintSampling::new(mk(), ts.to_vec()).sample(ns))?;
                ensure!(mis || unf == to_continuous_space(ts, &d), "{what}: unfolded sample is not the encoding of the folded one");
                rec.state((tsname(ts), &what));
                rec.trace();
            }
            let what = format!("random ns={ns} seed={seed}");
            let d = catch(|| ctx.create_rand_sampling::<f64>(Some(seed)).sample(ns))?;
            check_sample_valid(ts, &d, ns, &what)?;
            let plain = Random::new(&lim).with_rng(Xoshiro256Plus::seed_from_u64(seed)).sample(ns);
            check_against_relaxed(ts, &d, &plain, &what, rec)?;
            rec.state((tsname(ts), &what));
            rec.trace();
        }
        let what = format!("ffact ns={ns}");
        let d = catch(|| ctx.create_ffact_sampling::<f64>().sample(ns))?;
        check_sample_valid(ts, &d, ns, &what)?;
        check_against_relaxed(ts, &d, &FullFactorial::new(&lim).sample(ns), &what, rec)?;
        rec.state((tsname(ts), &what));
        rec.trace();
    }
    Ok(())
}

/// reference: cast a relaxed row to the encoding of the valid point (ties avoided by construction)
pub fn ref_cast_row(ts: &[XType], r: &[f64]) -> Vec<f64> {
    let mut out = vec![];
    let mut k = 0;
    for t in ts {
        let d = ref_decode(t, &r[k..k + width(t)])[0];
        match t {
            XType::Enum(n) => out.extend((0..*n).map(|m| (m as f64 == d) as u8 as f64)),
            _ => out.push(d),
        }
        k += width(t);
    }
    out
}

fn halton(i: usize, b: usize) -> f64 {
    let (mut f, mut r, mut i) = (1., 0., i);
    while i > 0 {
        f /= b as f64;
        r += f * (i % b) as f64;
        i /= b;
    }
    r
}
const PRIMES: [usize; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];

fn relaxed_points(ts: &[XType], n: usize, off: usize) -> Array2<f64> {
    let lim = as_continuous_limits::<f64>(ts);
    Array2::from_shape_fn((n, lim.nrows()), |(i, k)| lim[[k, 0]] + (lim[[k, 1]] - lim[[k, 0]]) * halton(i + 1 + off, PRIMES[k]))
}

fn yfun(x: &[f64]) -> f64 {
    x.iter().enumerate().map(|(i, v)| ((i + 1) as f64 * 0.7 * v).sin() + 0.1 * v * v).sum()
}

fn x02_surrogate(ts: &[XType], folded: bool, corr: CorrelationSpec, regr: RegressionSpec, ncl: usize, rec: &mut Rec) -> R {
    let n = 14;
    let rel = relaxed_points(ts, n, 3);
    let w = rel.ncols();
    let cast = to_matrix(&rel.outer_iter().map(|r| ref_cast_row(ts, &r.to_vec())).collect::<Vec<_>>(), w);
    // distinct training rows only
    let mut keep: Vec<usize> = vec![];
    for i in 0..n {
        if keep.iter().all(|&j| cast.row(i) != cast.row(j)) {
            keep.push(i);
        }
    }
    let (rel, cast) = (rel.select(Axis(0), &keep), cast.select(Axis(0), &keep));
    let y = Array1::from_vec(cast.outer_iter().map(|r| yfun(&r.to_vec())).collect());
    let builder = GpMixtureParams::<f64>::new()
        .n_clusters(NbClusters::fixed(ncl))
        .recombination(Recombination::Hard)
        .regression_spec(regr)
        .correlation_spec(corr)
        .theta_tunings(&[ThetaTuning::Fixed(Array1::from_elem(w, 0.3))])
        .with_rng(Xoshiro256Plus::seed_from_u64(1));
    let refm = match catch(|| builder.clone().check().and_then(|c| c.train(&cast, &y)))? {
        Ok(m) => m,
        Err(_) => {
            rec.vacuous = true;
            return Ok(());
        }
    };
    let folded_of = |u: &Array2<f64>| {
        Array2::from_shape_fn((u.nrows(), ts.len()), |(i, j)| {
            let k: usize = ts[..j].iter().map(width).sum();
            let r: Vec<f64> = (0..width(&ts[j])).map(|m| u[[i, k + m]]).collect();
            match ts[j] {
                XType::Enum(_) => ref_decode(&ts[j], &r)[0],
                _ => r[0],
            }
        })
    };
    // training input: relaxed values (discrete values are to be used)
    let xt = if folded { folded_of(&rel) } else { rel.clone() };
    let mut p = MixintGpMixtureParams::new(ts, &builder);
    p.work_in_folded_space(folded);
    let ds = Dataset::new(xt.clone(), y.clone());
    let m = catch(|| p.fit(&ds))?.map_err(|e| format!("mixed-integer training failed: {e}"))?;
    // the same through the builder trait
    let b2: Box<dyn MixtureGpSurrogate> = catch(|| SurrogateBuilder::train(&p, xt.view(), y.view()))?.map_err(|e| format!("train: {e}"))?;
    let cl = egobox_moe::Clustered::to_clustering(&refm);
    let b3 = catch(|| SurrogateBuilder::train_on_clusters(&p, xt.view(), y.view(), &cl))?.map_err(|e| format!("train_on_clusters: {e}"))?;
    let refc = catch(|| builder.clone().check().and_then(|c| c.train_on_clusters(&cast, &y, &cl)))?.map_err(|e| format!("ref {e}"))?;
    let pts = relaxed_points(ts, 40, 31);
    let pcast = to_matrix(&pts.outer_iter().map(|r| ref_cast_row(ts, &r.to_vec())).collect::<Vec<_>>(), w);
    let xq = if folded { folded_of(&pts) } else { pts.clone() };
    let ctx_model = if folded {
        Some(catch(|| MixintContext::new(ts).create_surrogate(&builder, &ds))?.map_err(|e| format!("create_surrogate: {e}"))?)
    } else {
        None
    };
    let mut models: Vec<(&str, &dyn GpSurrogateExt, &dyn GpSurrogate, &egobox_moe::GpMixture)> = vec![("fit", &m, &m, &refm)];
    if let Some(c) = &ctx_model {
        models.push(("context", c, c, &refm));
    }
    let e = |e: egobox_moe::MoeError| format!("{e}");
    for (nm, ext, gp, rf) in models {
        let what = format!("{nm} folded={folded}");
        macro_rules! cmp {
            ($label:expr, $a:expr, $b:expr) => {{
                let a = catch(|| $a)?.map_err(e)?;
                let b = catch(|| $b)?.map_err(e)?;
                ensure!(a == b, "{what}: {} at relaxed points differs from the plain model at the valid points:\n{:?}\n{:?}", $label, a, b);
            }};
        }
        cmp!("predict", gp.predict(&xq.view()), rf.predict(&pcast));
        cmp!("predict_var", gp.predict_var(&xq.view()), rf.predict_var(&pcast));
        cmp!("predict_valvar", gp.predict_valvar(&xq.view()), rf.predict_valvar(&pcast));
        cmp!("predict_gradients", ext.predict_gradients(&xq.view()), rf.predict_gradients(&pcast));
        cmp!("predict_var_gradients", ext.predict_var_gradients(&xq.view()), rf.predict_var_gradients(&pcast));
        cmp!("predict_valvar_gradients", ext.predict_valvar_gradients(&xq.view()), rf.predict_valvar_gradients(&pcast));
        rec.step(6 * pts.nrows() as u64);
        // constant over the relaxed region: same decoded point => same prediction
        let pr = gp.predict(&xq.view()).map_err(e)?;
        for i in 0..pts.nrows() {
            for j in 0..i {
                if pcast.row(i) == pcast.row(j) {
                    rec.count("same_region_pairs", 1);
                    ensure!(pr[i] == pr[j], "{what}: two relaxed points of the same region predict {} and {}", pr[i], pr[j]);
                }
            }
        }
        // sampling from the valid points equals the training output at training points (exact)
        let s = catch(|| ext.sample(&if folded { folded_of(&rel) } else { rel.clone() }.view(), 3))?;
        if let Ok(s) = s {
            ensure!(s.dim() == (rel.nrows(), 3), "{what}: sample shape {:?}", s.dim());
        }
    }
    let a = b2.predict(&xq.view()).map_err(e)?;
    ensure!(a == refm.predict(&pcast).map_err(e)?, "SurrogateBuilder::train differs from the plain model at the valid points");
    let a = b3.predict(&xq.view()).map_err(e)?;
    ensure!(a == refc.predict(&pcast).map_err(e)?, "train_on_clusters differs from the plain model at the valid points");
    rec.state((tsname(ts), folded, format!("{corr:?}{regr:?}{ncl}")));
    rec.trace();
    rec.sample = Some(format!("{}: {} training points, {:?}", tsname(ts), keep.len(), pr3(&refm.predict(&pcast).map_err(e)?)));
    Ok(())
}
fn pr3(a: &Array1<f64>) -> Vec<f64> {
    a.iter().take(3).cloned().collect()
}

pub fn x02(cx: &mut Cx) {
    cx.rule = "Exhaustive lists of variable types of length up to 3 (4 thorough): every sampler, kind, size in {1,2,3,5} and seed in {0,7}, compared with the relaxed design of the plain sampler decoded by a reference; surrogates trained through the context from relaxed inputs, in folded and unfolded space, compared (equal, 6 prediction calls, 40 points) with the plain mixture trained on the reference-decoded inputs, for kernels x trends x clusters.".into();
    cx.assumptions = vec!["surrogate hyperparameters fixed; Halton relaxed points avoid ties".into()];
    let mut cases = vec![];
    let mut lists = type_lists(cx.q(3, 3));
    // degenerate types
    for t in [XType::Int(2, 2), XType::Ord(vec![3.])] {
        lists.push(vec![t.clone()]);
        lists.push(vec![XType::Enum(2), t.clone()]);
        lists.push(vec![t, XType::Float(0., 1.)]);
    }
    if cx.thorough() {
        let al = [XType::Float(-1.5, 2.), XType::Int(-2, 3), XType::Ord(vec![5., 1., 3.]), XType::Enum(2), XType::Enum(3)];
        for w in odometer(&[5; 4]) {
            lists.push(w.iter().map(|&k| al[k].clone()).collect());
        }
    }
    for ts in &lists {
        let t = ts.clone();
        cases.push(case(format!("samp/{}", tsname(&t)), move |rec| x02_sampling(&t, rec)));
    }
    let small = [XType::Float(-1.5, 2.), XType::Int(-2, 3), XType::Ord(vec![5., 1., 3.]), XType::Enum(2), XType::Enum(3)];
    let mut slists: Vec<Vec<XType>> = vec![];
    for n in 1..=cx.q(3, 4) {
        for w in odometer(&vec![5; n]) {
            slists.push(w.iter().map(|&k| small[k].clone()).collect());
        }
    }
    for ts in slists {
        for folded in [true, false] {
            for (cn, corr) in [("se", CorrelationSpec::SQUAREDEXPONENTIAL), ("ae", CorrelationSpec::ABSOLUTEEXPONENTIAL), ("m32", CorrelationSpec::MATERN32), ("m52", CorrelationSpec::MATERN52)] {
                for ncl in [1usize, 2] {
                    if ncl == 2 && (cn != "m52" || ts.len() > 2) {
                        continue;
                    }
                    if !cx.thorough() && ts.len() == 3 && cn != "se" {
                        continue;
                    }
                    let t = ts.clone();
                    cases.push(case(format!("surr/{}/{folded}/{cn}/{ncl}", tsname(&t)), move |rec| {
                        x02_surrogate(&t, folded, corr, RegressionSpec::CONSTANT, ncl, rec)
                    }));
                }
            }
        }
    }
    let _ = array![0.];
    let _ = LhsKind::Classic;
    cx.run(cases);
}
