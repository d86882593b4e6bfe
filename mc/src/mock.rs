//! A surrogate whose mean and variance are given functions: local linear (value and gradient at a point).
use egobox_moe::*;
use ndarray::{Array1, Array2, Array3, ArrayView2};
use serde::{Deserialize, Serialize};
use std::fmt::Display;

type Res<T> = std::result::Result<T, MoeError>;

/// mean = m + gm.(x-x0), variance = max(v + gv.(x-x0), 0)
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Mock {
    pub x0: Vec<f64>,
    pub m: f64,
    pub gm: Vec<f64>,
    pub v: f64,
    pub gv: Vec<f64>,
    #[serde(skip)]
    experts: Experts,
    data: (Array2<f64>, Array1<f64>),
}
#[derive(Default)]
struct Experts(Vec<Box<dyn FullGpSurrogate>>);
impl Clone for Experts {
    fn clone(&self) -> Self {
        Experts(vec![])
    }
}
impl std::fmt::Debug for Experts {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[]")
    }
}

impl Mock {
    pub fn new(x0: &[f64], m: f64, gm: &[f64], v: f64, gv: &[f64]) -> Mock {
        Mock {
            x0: x0.to_vec(),
            m,
            gm: gm.to_vec(),
            v,
            gv: gv.to_vec(),
            experts: Experts::default(),
            data: (Array2::zeros((0, x0.len())), Array1::zeros(0)),
        }
    }
    fn lin(&self, v: f64, g: &[f64], x: &[f64]) -> f64 {
        let mut s = v;
        for i in 0..x.len() {
            if x[i] != self.x0[i] {
                s += g[i] * (x[i] - self.x0[i]);
            }
        }
        s
    }
}
impl Display for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Mock")
    }
}
#[typetag::serde(name = "EgomcMockC")]
impl GpSurrogate for Mock {
    fn dims(&self) -> (usize, usize) {
        (self.x0.len(), 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> Res<Array1<f64>> {
        Ok(x.outer_iter().map(|r| self.lin(self.m, &self.gm, &r.to_vec())).collect())
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> Res<Array1<f64>> {
        Ok(x.outer_iter().map(|r| self.lin(self.v, &self.gv, &r.to_vec()).max(0.)).collect())
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> Res<(Array1<f64>, Array1<f64>)> {
        Ok((self.predict(x)?, self.predict_var(x)?))
    }
    fn save(&self, _p: &str, _f: GpFileFormat) -> Res<()> {
        Ok(())
    }
}
#[typetag::serde(name = "EgomcMockE")]
impl GpSurrogateExt for Mock {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> Res<Array2<f64>> {
        Ok(Array2::from_shape_fn((x.nrows(), self.x0.len()), |(_, j)| self.gm[j]))
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> Res<Array2<f64>> {
        Ok(Array2::from_shape_fn((x.nrows(), self.x0.len()), |(_, j)| self.gv[j]))
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> Res<(Array2<f64>, Array2<f64>)> {
        Ok((self.predict_gradients(x)?, self.predict_var_gradients(x)?))
    }
    fn sample(&self, x: &ArrayView2<f64>, n: usize) -> Res<Array2<f64>> {
        Ok(Array2::zeros((x.nrows(), n)))
    }
}
impl Clustered for Mock {
    fn n_clusters(&self) -> usize {
        1
    }
    fn recombination(&self) -> Recombination<f64> {
        Recombination::Hard
    }
    fn to_clustering(&self) -> Clustering {
        let d = self.x0.len();
        let g = GaussianMixture::new(Array1::ones(1), Array2::zeros((1, d)), Array3::from_shape_fn((1, d, d), |(_, i, j)| (i == j) as u8 as f64)).unwrap();
        Clustering::new(g, Recombination::Hard)
    }
}
#[typetag::serde(name = "EgomcMockQ")]
impl GpQualityAssurance for Mock {
    fn training_data(&self) -> &(Array2<f64>, Array1<f64>) {
        &self.data
    }
    fn q2_k(&self, _k: usize) -> f64 {
        0.
    }
    fn q2(&self) -> f64 {
        0.
    }
    fn pva_k(&self, _k: usize) -> f64 {
        0.
    }
    fn pva(&self) -> f64 {
        0.
    }
    fn iae_alpha_k(&self, _k: usize) -> f64 {
        0.
    }
    fn iae_alpha_k_score_with_plot(&self, _k: usize, _p: &mut IaeAlphaPlotData) -> f64 {
        0.
    }
    fn iae_alpha(&self) -> f64 {
        0.
    }
}
#[typetag::serde(name = "EgomcMockM")]
impl MixtureGpSurrogate for Mock {
    fn experts(&self) -> &Vec<Box<dyn FullGpSurrogate>> {
        &self.experts.0
    }
}
