//! Schedule exploration: each rayon `join` of the code under test is a decision point.
use rayon_core::mc::{Control, Decision};
use std::sync::{Arc, Mutex};

/// A deviation at one join point
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dev {
    BFirst,
    MigrB,
    MigrA,
    BFirstMigr,
}
pub const DEVS: [Dev; 3] = [Dev::BFirst, Dev::MigrB, Dev::BFirstMigr];

#[derive(Clone, Debug, Default)]
pub struct Schedule {
    pub nthreads: usize,
    /// applied at every join point (global policy)
    pub all: Option<Dev>,
    /// deviations at given join indices
    pub devs: Vec<(usize, Dev)>,
}

struct Ctl {
    s: Schedule,
    n: Arc<Mutex<usize>>,
}
fn dec(d: Dev) -> Decision {
    match d {
        Dev::BFirst => Decision { b_first: true, migrated_a: false, migrated_b: false },
        Dev::MigrB => Decision { b_first: false, migrated_a: false, migrated_b: true },
        Dev::MigrA => Decision { b_first: false, migrated_a: true, migrated_b: false },
        Dev::BFirstMigr => Decision { b_first: true, migrated_a: false, migrated_b: true },
    }
}
impl Control for Ctl {
    fn decide(&mut self, i: usize) -> Decision {
        *self.n.lock().unwrap() = i + 1;
        for (j, d) in &self.s.devs {
            if *j == i {
                return dec(*d);
            }
        }
        self.s.all.map(dec).unwrap_or_default()
    }
}

/// Run f under the given schedule; returns its result and the number of join points.
pub fn with<T>(s: &Schedule, f: impl FnOnce() -> T) -> (T, usize) {
    let n = Arc::new(Mutex::new(0));
    rayon_core::mc::install(s.nthreads, Box::new(Ctl { s: s.clone(), n: n.clone() }));
    let r = f();
    rayon_core::mc::install(4, Box::new(crate::cx::DefaultCtl));
    let k = *n.lock().unwrap();
    (r, k)
}

/// All schedules within `bound` deviations for an execution with `joins` join points, plus the
/// uniform policies, for each worker count. `cap` bounds the number of join indices considered
/// (evenly spread over the execution when there are more).
pub fn enumerate(nthreads: &[usize], joins: &dyn Fn(usize) -> usize, bound: usize, cap: usize) -> Vec<Schedule> {
    let mut v = vec![];
    for &nt in nthreads {
        v.push(Schedule { nthreads: nt, all: None, devs: vec![] });
        for d in [Dev::BFirst, Dev::MigrB, Dev::BFirstMigr] {
            v.push(Schedule { nthreads: nt, all: Some(d), devs: vec![] });
        }
        let n = joins(nt);
        let idx: Vec<usize> = if n <= cap { (0..n).collect() } else { (0..cap).map(|k| k * n / cap).collect() };
        if bound >= 1 {
            for &i in &idx {
                for d in DEVS {
                    v.push(Schedule { nthreads: nt, all: None, devs: vec![(i, d)] });
                }
            }
        }
        if bound >= 2 {
            for (a, &i) in idx.iter().enumerate() {
                for &j in &idx[a + 1..] {
                    for d in DEVS {
                        for e in DEVS {
                            v.push(Schedule { nthreads: nt, all: None, devs: vec![(i, d), (j, e)] });
                        }
                    }
                }
            }
        }
    }
    v
}
