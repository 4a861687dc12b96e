//! Independent kriging reference and a uniform view of the processes under test.
use crate::la::*;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::*;
use std::result::Result;
use linfa::prelude::*;
use ndarray::{Array1, Array2, ArrayView1};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MeanK {
    Constant,
    Linear,
    Quadratic,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CorrK {
    SquaredExp,
    AbsExp,
    Matern32,
    Matern52,
}
pub const MEANS: [MeanK; 3] = [MeanK::Constant, MeanK::Linear, MeanK::Quadratic];
pub const CORRS: [CorrK; 4] = [CorrK::SquaredExp, CorrK::AbsExp, CorrK::Matern32, CorrK::Matern52];

pub fn basis(m: MeanK, x: &[f64]) -> Vec<f64> {
    let mut f = vec![1.];
    if m != MeanK::Constant {
        f.extend_from_slice(x);
    }
    if m == MeanK::Quadratic {
        for i in 0..x.len() {
            for j in i..x.len() {
                f.push(x[i] * x[j]);
            }
        }
    }
    f
}
pub fn nbasis(m: MeanK, d: usize) -> usize {
    match m {
        MeanK::Constant => 1,
        MeanK::Linear => 1 + d,
        MeanK::Quadratic => 1 + d + d * (d + 1) / 2,
    }
}

/// theta: (h), w: (d,h)
pub fn kern(c: CorrK, a: &[f64], b: &[f64], theta: &[f64], w: &Mat) -> f64 {
    let mut p = 1.;
    for j in 0..a.len() {
        let d = (a[j] - b[j]).abs();
        for (l, th) in theta.iter().enumerate() {
            let v = th * w.at(j, l).abs() * d;
            p *= match c {
                CorrK::SquaredExp => (-0.5 * v * v).exp(),
                CorrK::AbsExp => (-v).exp(),
                CorrK::Matern32 => {
                    let s = 3f64.sqrt() * v;
                    (1. + s) * (-s).exp()
                }
                CorrK::Matern52 => {
                    let s = 5f64.sqrt() * v;
                    (1. + s + s * s / 3.) * (-s).exp()
                }
            };
        }
    }
    p
}

pub struct RefGp {
    pub mk: MeanK,
    pub ck: CorrK,
    pub xm: Vec<f64>,
    pub xs: Vec<f64>,
    pub ym: f64,
    pub ys: f64,
    pub xn: Vec<Vec<f64>>,
    pub theta: Vec<f64>,
    pub w: Mat,
    pub l: Mat,
    pub f: Mat,
    /// K^-1 F
    pub kif: Mat,
    /// chol(F' K^-1 F)
    pub la: Mat,
    pub beta: Vec<f64>,
    pub gamma: Vec<f64>,
    /// in units of y squared
    pub sigma2: f64,
    pub lkh: f64,
    pub cond: f64,
    pub cond_a: f64,
    pub nugget: f64,
}

impl RefGp {
    pub fn new(
        x: &Array2<f64>,
        y: &Array1<f64>,
        mk: MeanK,
        ck: CorrK,
        theta: &[f64],
        w: Mat,
        nugget: f64,
    ) -> Option<RefGp> {
        let (n, d) = x.dim();
        let mut xm = vec![];
        let mut xs = vec![];
        for j in 0..d {
            let c = x.column(j).to_vec();
            xm.push(mean(&c));
            let s = std1(&c);
            xs.push(if s == 0. { 1. } else { s });
        }
        let yv = y.to_vec();
        let ym = mean(&yv);
        let ys = {
            let s = std1(&yv);
            if s == 0. {
                1.
            } else {
                s
            }
        };
        let xn: Vec<Vec<f64>> = (0..n)
            .map(|i| (0..d).map(|j| (x[[i, j]] - xm[j]) / xs[j]).collect())
            .collect();
        let yn: Vec<f64> = yv.iter().map(|v| (v - ym) / ys).collect();
        let theta: Vec<f64> = if theta.len() == 1 {
            vec![theta[0]; w.m]
        } else {
            theta.to_vec()
        };
        let mut k = Mat::from_fn(n, n, |i, j| kern(ck, &xn[i], &xn[j], &theta, &w));
        for i in 0..n {
            k.set(i, i, 1. + nugget);
        }
        let ev = k.eigvals();
        let cond = ev[n - 1] / ev[0].max(1e-300);
        let l = k.chol()?;
        let p = nbasis(mk, d);
        let fb: Vec<Vec<f64>> = xn.iter().map(|r| basis(mk, r)).collect();
        let f = Mat::from_fn(n, p, |i, j| fb[i][j]);
        let mut kif = Mat::zeros(n, p);
        for j in 0..p {
            let s = l.csolve(&f.col(j));
            for i in 0..n {
                kif.set(i, j, s[i]);
            }
        }
        let a = f.t().mul(&kif);
        let ea = a.eigvals();
        let cond_a = ea[p - 1] / ea[0].max(1e-300);
        let la = a.chol()?;
        let beta = la.csolve(&kif.tmulv(&yn));
        let fbeta = f.mulv(&beta);
        let res: Vec<f64> = yn.iter().zip(&fbeta).map(|(a, b)| a - b).collect();
        let gamma = l.csolve(&res);
        let lr = l.fsub(&res);
        let s2n = dot(&lr, &lr) / n as f64;
        let logdet: f64 = (0..n).map(|i| l.at(i, i).log10()).sum::<f64>() * 2. / n as f64;
        let lkh = -(n as f64) * (s2n.log10() + logdet);
        Some(RefGp {
            mk,
            ck,
            xm,
            xs,
            ym,
            ys,
            xn,
            theta,
            w,
            l,
            f,
            kif,
            la,
            beta,
            gamma,
            sigma2: s2n * ys * ys,
            lkh,
            cond,
            cond_a,
            nugget,
        })
    }
    pub fn norm(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len()).map(|j| (x[j] - self.xm[j]) / self.xs[j]).collect()
    }
    pub fn k(&self, xn: &[f64]) -> Vec<f64> {
        self.xn
            .iter()
            .map(|r| kern(self.ck, xn, r, &self.theta, &self.w))
            .collect()
    }
    /// (mean, normalised variance, magnitude of the summed terms of the mean)
    pub fn predict(&self, x: &[f64]) -> (f64, f64, f64) {
        let xn = self.norm(x);
        let k = self.k(&xn);
        let f = basis(self.mk, &xn);
        let m = dot(&f, &self.beta) + dot(&k, &self.gamma);
        let mag = f.iter().zip(&self.beta).map(|(a, b)| (a * b).abs()).sum::<f64>()
            + k.iter().zip(&self.gamma).map(|(a, b)| (a * b).abs()).sum::<f64>();
        (self.ym + self.ys * m, self.ncov_(&k, &f, &k, &f, 1.), mag * self.ys + self.ym.abs())
    }
    fn ncov_(&self, k1: &[f64], f1: &[f64], k2: &[f64], f2: &[f64], k12: f64) -> f64 {
        let r1 = self.l.fsub(k1);
        let r2 = self.l.fsub(k2);
        let g = |k: &[f64], f: &[f64]| -> Vec<f64> {
            let t = self.kif.tmulv(k);
            let u: Vec<f64> = f.iter().zip(&t).map(|(a, b)| a - b).collect();
            self.la.fsub(&u)
        };
        k12 - dot(&r1, &r2) + dot(&g(k1, f1), &g(k2, f2))
    }
    /// posterior covariance in units of sigma2
    pub fn ncov(&self, a: &[f64], b: &[f64]) -> f64 {
        let (an, bn) = (self.norm(a), self.norm(b));
        self.ncov_(
            &self.k(&an),
            &basis(self.mk, &an),
            &self.k(&bn),
            &basis(self.mk, &bn),
            kern(self.ck, &an, &bn, &self.theta, &self.w),
        )
    }
    /// relative accuracy one can expect of any double-precision implementation
    pub fn tol(&self) -> f64 {
        1e-15 * (self.cond * (1. + self.gamma.len() as f64) + self.cond_a)
    }
}

/// PLS rotations as the documentation of the dimension reduction prescribes.
pub fn pls_w(x: &Array2<f64>, y: &Array1<f64>, h: usize) -> Option<Mat> {
    let ds = Dataset::new(x.clone(), y.clone().insert_axis(ndarray::Axis(1)));
    match linfa_pls::PlsRegression::params(h).fit(&ds) {
        Ok(p) => {
            let r = p.rotations().0.to_owned();
            Some(Mat::from_fn(x.ncols(), h, |i, j| r[[i, j]]))
        }
        Err(linfa_pls::PlsError::PowerMethodConstantResidualError()) => Some(Mat::zeros(x.ncols(), h)),
        Err(_) => None,
    }
}
pub fn eye(d: usize) -> Mat {
    Mat::from_fn(d, d, |i, j| if i == j { 1. } else { 0. })
}

/// A uniform view of the processes under test.
pub trait AnyGp: Sync + Send {
    fn predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn var(&self, x: &Array2<f64>) -> Array1<f64>;
    fn valvar(&self, x: &Array2<f64>) -> (Array1<f64>, Array1<f64>);
    fn grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn kth(&self, x: &Array2<f64>, k: usize) -> Array1<f64>;
    fn var_grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn var_grad1(&self, x: ArrayView1<f64>) -> Array1<f64>;
    fn valvar_grad(&self, x: &Array2<f64>) -> (Array2<f64>, Array2<f64>);
    /// 0: default, 1: Cholesky, 2: eigenvalues
    fn sample(&self, x: &Array2<f64>, n: usize, how: usize) -> Array2<f64>;
    fn theta(&self) -> Vec<f64>;
    fn variance(&self) -> f64;
    fn lkh(&self) -> f64;
    fn kpls(&self) -> Option<usize>;
    fn dims(&self) -> (usize, usize);
    fn linfa_predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn json(&self) -> String;
    fn from_json(&self, s: &str) -> Result<Box<dyn AnyGp>, String>;
    fn display(&self) -> String;
}
impl<M, C> AnyGp for GaussianProcess<f64, M, C>
where
    M: RegressionModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
    C: CorrelationModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    fn predict(&self, x: &Array2<f64>) -> Array1<f64> {
        GaussianProcess::predict(self, x).unwrap()
    }
    fn var(&self, x: &Array2<f64>) -> Array1<f64> {
        self.predict_var(x).unwrap()
    }
    fn valvar(&self, x: &Array2<f64>) -> (Array1<f64>, Array1<f64>) {
        self.predict_valvar(x).unwrap()
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn kth(&self, x: &Array2<f64>, k: usize) -> Array1<f64> {
        self.predict_kth_derivatives(x, k)
    }
    fn var_grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn var_grad1(&self, x: ArrayView1<f64>) -> Array1<f64> {
        self.predict_var_gradients_single(&x)
    }
    fn valvar_grad(&self, x: &Array2<f64>) -> (Array2<f64>, Array2<f64>) {
        self.predict_valvar_gradients(x)
    }
    fn sample(&self, x: &Array2<f64>, n: usize, how: usize) -> Array2<f64> {
        match how {
            0 => GaussianProcess::sample(self, x, n),
            1 => self.sample_chol(x, n),
            _ => self.sample_eig(x, n),
        }
    }
    fn theta(&self) -> Vec<f64> {
        GaussianProcess::theta(self).to_vec()
    }
    fn variance(&self) -> f64 {
        GaussianProcess::variance(self)
    }
    fn lkh(&self) -> f64 {
        self.likelihood()
    }
    fn kpls(&self) -> Option<usize> {
        self.kpls_dim()
    }
    fn dims(&self) -> (usize, usize) {
        GaussianProcess::dims(self)
    }
    fn linfa_predict(&self, x: &Array2<f64>) -> Array1<f64> {
        Predict::predict(self, x)
    }
    fn json(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
    fn from_json(&self, s: &str) -> Result<Box<dyn AnyGp>, String> {
        serde_json::from_str::<Self>(s)
            .map(|g| Box::new(g) as Box<dyn AnyGp>)
            .map_err(|e| e.to_string())
    }
    fn display(&self) -> String {
        format!("{self}")
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub mk: MeanK,
    pub ck: CorrK,
    pub tuning: Option<ThetaTuning<f64>>,
    pub kpls: Option<usize>,
    pub n_start: Option<usize>,
    pub max_eval: Option<usize>,
    pub nugget: Option<f64>,
}
impl Spec {
    pub fn new(mk: MeanK, ck: CorrK) -> Self {
        Spec {
            mk,
            ck,
            tuning: None,
            kpls: None,
            n_start: None,
            max_eval: None,
            nugget: None,
        }
    }
    pub fn fixed(mut self, th: &[f64]) -> Self {
        self.tuning = Some(ThetaTuning::Fixed(Array1::from_vec(th.to_vec())));
        self
    }
    pub fn nug(&self) -> f64 {
        self.nugget.unwrap_or(100. * f64::EPSILON)
    }
}
fn go<M, C>(m: M, c: C, s: &Spec, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn AnyGp>, String>
where
    M: RegressionModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
    C: CorrelationModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    let mut p = GpParams::<f64, M, C>::new(m, c).kpls_dim(s.kpls);
    if let Some(t) = &s.tuning {
        p = p.theta_tuning(t.clone());
    }
    if let Some(n) = s.n_start {
        p = p.n_start(n);
    }
    if let Some(n) = s.max_eval {
        p = p.max_eval(n);
    }
    if let Some(n) = s.nugget {
        p = p.nugget(n);
    }
    p.fit(&Dataset::new(x.clone(), y.clone()))
        .map(|g| Box::new(g) as Box<dyn AnyGp>)
        .map_err(|e| e.to_string())
}
pub fn fit(s: &Spec, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn AnyGp>, String> {
    macro_rules! corr {
        ($m:expr) => {
            match s.ck {
                CorrK::SquaredExp => go($m, SquaredExponentialCorr::default(), s, x, y),
                CorrK::AbsExp => go($m, AbsoluteExponentialCorr::default(), s, x, y),
                CorrK::Matern32 => go($m, Matern32Corr::default(), s, x, y),
                CorrK::Matern52 => go($m, Matern52Corr::default(), s, x, y),
            }
        };
    }
    match s.mk {
        MeanK::Constant => corr!(ConstantMean::default()),
        MeanK::Linear => corr!(LinearMean::default()),
        MeanK::Quadratic => corr!(QuadraticMean::default()),
    }
}
