//! Small helpers: alphabets, odometers, formatting.
use ndarray::{Array1, Array2};

/// all words over 0..radix[i]
pub fn odometer(radix: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &r in radix {
        let mut nx = Vec::with_capacity(out.len() * r);
        for w in &out {
            for k in 0..r {
                let mut w2 = w.clone();
                w2.push(k);
                nx.push(w2);
            }
        }
        out = nx;
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

pub fn bits2(a: &Array2<f64>) -> Vec<u64> {
    a.iter().map(|v| v.to_bits()).collect()
}
pub fn bits1(a: &Array1<f64>) -> Vec<u64> {
    a.iter().map(|v| v.to_bits()).collect()
}
pub fn fmt2(a: &Array2<f64>) -> String {
    let rows: Vec<String> = a
        .outer_iter()
        .map(|r| format!("[{}]", r.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>().join(",")))
        .collect();
    format!("[{}]", rows.join(","))
}

/// scratch directory removed on drop
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("egomc-{}-{}-{tag}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// cyclic-free De Bruijn word: every word of length n over k letters appears in it
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let (mut a, mut out) = (vec![0; k * n + 1], vec![]);
    db(1, 1, n, k, &mut a, &mut out);
    let head = out[..n - 1].to_vec();
    out.extend(head);
    out
}
