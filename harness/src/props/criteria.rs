//! C24, C25: infill criteria and constraint surrogates against independent formulas
use crate::ensure;
use crate::fw::*;
use egobox_moe::{
    Clustered, Clustering, FullGpSurrogate, GpFileFormat, GpMixture, GpMixtureParams, GpQualityAssurance, NbClusters, ThetaTuning, GpSurrogate, GpSurrogateExt, IaeAlphaPlotData, MixtureGpSurrogate, Recombination,
};
use egobox_ego::criteria::{InfillCriterion, EI, LOG_EI, WB2, WB2S};
use argmin::core::Executor;
use egobox_ego::{Cstr, CorrelationSpec, RegressionSpec, SurrogateBuilder, XType, ConstraintStrategy, QEiStrategy, InfillOptimizer, EgorConfig, EgorSolver, ObjFunc};
use linfa::{traits::Fit, Dataset};
use ndarray_rand::rand::Rng;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------------------------------- surrogate

/// A surrogate with closed-form mean and log-variance
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mock {
    pub d: usize,
    pub m0: f64,
    pub ms: f64,
    pub a: Vec<f64>,
    pub w: Vec<f64>,
    pub p: Vec<f64>,
    pub v0: f64,
    pub va: Vec<f64>,
    pub vw: Vec<f64>,
    /// variance divided by this (0: the variance vanishes everywhere)
    pub vs: f64,
}
impl Mock {
    pub fn rand(c: &mut Case, d: usize, ms: f64, m0: f64, sd: f64) -> Mock {
        Mock {
            d,
            m0,
            ms,
            a: (0..d).map(|_| c.normal()).collect(),
            w: (0..d).map(|_| c.u(0.3, 2.)).collect(),
            p: (0..d).map(|_| c.u(0., 6.)).collect(),
            v0: 2. * sd.ln(),
            va: (0..d).map(|_| c.normal()).collect(),
            vw: (0..d).map(|_| c.u(0.3, 2.)).collect(),
            vs: 1.,
        }
    }
    pub fn mean(&self, x: &[f64]) -> f64 {
        self.m0 + self.ms * (0..self.d).map(|i| self.a[i] * (self.w[i] * x[i] + self.p[i]).sin()).sum::<f64>()
    }
    pub fn var(&self, x: &[f64]) -> f64 {
        (self.v0 + (0..self.d).map(|i| self.va[i] * (self.vw[i] * x[i] + self.p[i]).cos()).sum::<f64>()).exp() * self.vs
    }
    pub fn dmean(&self, x: &[f64]) -> Vec<f64> {
        (0..self.d).map(|i| self.ms * self.a[i] * self.w[i] * (self.w[i] * x[i] + self.p[i]).cos()).collect()
    }
    pub fn dvar(&self, x: &[f64]) -> Vec<f64> {
        let v = self.var(x);
        (0..self.d).map(|i| -v * self.va[i] * self.vw[i] * (self.vw[i] * x[i] + self.p[i]).sin()).collect()
    }
}
impl std::fmt::Display for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Mock")
    }
}
fn rows(x: &ArrayView2<f64>) -> Vec<Vec<f64>> {
    x.rows().into_iter().map(|r| r.to_vec()).collect()
}
type MRes<T> = Result<T, egobox_moe::MoeError>;
#[typetag::serde]
impl GpSurrogate for Mock {
    fn dims(&self) -> (usize, usize) {
        (self.d, 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> MRes<Array1<f64>> {
        Ok(rows(x).iter().map(|r| self.mean(r)).collect())
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> MRes<Array1<f64>> {
        Ok(rows(x).iter().map(|r| self.var(r)).collect())
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> MRes<(Array1<f64>, Array1<f64>)> {
        Ok((self.predict(x)?, self.predict_var(x)?))
    }
    fn save(&self, _path: &str, _format: GpFileFormat) -> MRes<()> {
        unimplemented!()
    }
}
fn mat(v: Vec<Vec<f64>>, d: usize) -> Array2<f64> {
    Array2::from_shape_vec((v.len(), d), v.concat()).unwrap()
}
#[typetag::serde]
impl GpSurrogateExt for Mock {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> MRes<Array2<f64>> {
        Ok(mat(rows(x).iter().map(|r| self.dmean(r)).collect(), self.d))
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> MRes<Array2<f64>> {
        Ok(mat(rows(x).iter().map(|r| self.dvar(r)).collect(), self.d))
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> MRes<(Array2<f64>, Array2<f64>)> {
        Ok((self.predict_gradients(x)?, self.predict_var_gradients(x)?))
    }
    fn sample(&self, _x: &ArrayView2<f64>, _n: usize) -> MRes<Array2<f64>> {
        unimplemented!()
    }
}
impl Clustered for Mock {
    fn n_clusters(&self) -> usize {
        1
    }
    fn recombination(&self) -> Recombination<f64> {
        Recombination::Hard
    }
    fn to_clustering(&self) -> Clustering {
        tiny(self.d).to_clustering()
    }
}
#[typetag::serde]
impl GpQualityAssurance for Mock {
    fn training_data(&self) -> &(Array2<f64>, Array1<f64>) {
        unimplemented!()
    }
    fn q2_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn q2(&self) -> f64 {
        unimplemented!()
    }
    fn pva_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn pva(&self) -> f64 {
        unimplemented!()
    }
    fn iae_alpha_k(&self, _: usize) -> f64 {
        unimplemented!()
    }
    fn iae_alpha_k_score_with_plot(&self, _: usize, _: &mut IaeAlphaPlotData) -> f64 {
        unimplemented!()
    }
    fn iae_alpha(&self) -> f64 {
        unimplemented!()
    }
}
#[typetag::serde]
impl MixtureGpSurrogate for Mock {
    fn experts(&self) -> &Vec<Box<dyn FullGpSurrogate>> {
        tiny(self.d).experts()
    }
}

/// A real surrogate, for what the solver asks about the structure of its surrogates
fn tiny(d: usize) -> &'static GpMixture {
    static T: OnceLock<Vec<GpMixture>> = OnceLock::new();
    &T.get_or_init(|| {
        (1..=5)
            .map(|d| {
                let x = Array2::from_shape_fn((9, d), |(i, j)| ((i * (3 + j) + j) % 10) as f64 + 0.1 * i as f64);
                let y = x.rows().into_iter().map(|r| r.sum().sin()).collect::<Array1<f64>>();
                GpMixtureParams::<f64>::new().n_clusters(NbClusters::fixed(1)).fit(&Dataset::new(x, y)).expect("tiny")
            })
            .collect()
    })[d - 1]
}

/// Builder returning the closed-form surrogate whose mean gives the outputs of the training set.
/// The surrogates of a case are found with the lower bound of the first variable.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MockBuilder(u64);
#[derive(Default)]
struct Entry {
    mocks: Vec<Mock>,
    log: Vec<Event>,
}
enum Event {
    /// output number, inputs, outputs
    Train(usize, Vec<Vec<f64>>, Vec<f64>),
    Eval(Vec<Vec<f64>>),
}
static MOCKS: Mutex<BTreeMap<u64, Entry>> = Mutex::new(BTreeMap::new());
fn register(key: f64, mocks: &[Mock]) {
    MOCKS.lock().unwrap().insert(key.to_bits(), Entry { mocks: mocks.to_vec(), log: vec![] });
}
fn unregister(key: f64) -> Vec<Event> {
    MOCKS.lock().unwrap().remove(&key.to_bits()).map_or(vec![], |e| e.log)
}
impl SurrogateBuilder for MockBuilder {
    fn new_with_xtypes(xt: &[XType]) -> Self {
        match xt[0] {
            XType::Float(a, _) => MockBuilder(a.to_bits()),
            _ => unreachable!(),
        }
    }
    fn set_regression_spec(&mut self, _: RegressionSpec) {}
    fn set_correlation_spec(&mut self, _: CorrelationSpec) {}
    fn set_kpls_dim(&mut self, _: Option<usize>) {}
    fn set_n_clusters(&mut self, _: NbClusters) {}
    fn set_recombination(&mut self, _: Recombination<f64>) {}
    fn set_theta_tunings(&mut self, _: &[ThetaTuning<f64>]) {}
    fn set_optim_params(&mut self, _: usize, _: usize) {}
    fn train(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        let x = rows(&xt);
        let mut all = MOCKS.lock().unwrap();
        let e = all.get_mut(&self.0).expect("registered");
        // the output is the one most of the rows agree with
        let agree = |m: &Mock| x.iter().zip(yt).filter(|(r, y)| m.mean(r) == **y).count();
        let k = (0..e.mocks.len()).max_by_key(|k| agree(&e.mocks[*k])).unwrap();
        let best = e.mocks[k].clone();
        e.log.push(Event::Train(k, x, yt.to_vec()));
        Ok(Box::new(best))
    }
    fn train_on_clusters(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>, _: &Clustering) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        self.train(xt, yt)
    }
}

// ---------------------------------------------------------------------------------------- reference

const GLX: [f64; 5] = [-0.906_179_845_938_664, -0.538_469_310_105_683_1, 0., 0.538_469_310_105_683_1, 0.906_179_845_938_664];
const GLW: [f64; 5] = [0.236_926_885_056_189_08, 0.478_628_670_499_366_47, 0.568_888_888_888_888_9, 0.478_628_670_499_366_47, 0.236_926_885_056_189_08];
/// ∫ over (0, 60) by composite Gauss-Legendre quadrature
fn quad(f: impl Fn(f64) -> (f64, f64)) -> (f64, f64) {
    let (n, len) = (300, 60.);
    let h = len / n as f64;
    let (mut a, mut b) = (0., 0.);
    for i in 0..n {
        for k in 0..5 {
            let (u, v) = f(h * (i as f64 + 0.5 + 0.5 * GLX[k]));
            a += GLW[k] * u * h / 2.;
            b += GLW[k] * v * h / 2.;
        }
    }
    (a, b)
}

/// Normal law and normalised expected improvement at `u`, computed by numerical quadrature:
/// logarithms of P(Z<u) and of E[(u-Z)+], and their derivatives
#[derive(Clone, Copy, Debug)]
pub struct Norm {
    pub u: f64,
    pub lcdf: f64,
    pub lei: f64,
    pub dlcdf: f64,
    pub dlei: f64,
    pub lpdf: f64,
}
pub fn norm(u: f64) -> Norm {
    let lpdf = -0.5 * u * u - 0.5 * (2. * std::f64::consts::PI).ln();
    // P(Z<-a) = φ(a) ∫ exp(-a t - t²/2) dt and E[(-a-Z)+] = φ(a) ∫ t exp(-a t - t²/2) dt
    let a = u.abs();
    let l = 1. / a.max(1.);
    let (i0, i1) = quad(|s| {
        let t = s * l;
        let e = (-a * t - 0.5 * t * t).exp();
        (l * e, l * t * e)
    });
    if u <= 0. {
        Norm { u, lpdf, lcdf: lpdf + i0.ln(), lei: lpdf + i1.ln(), dlcdf: 1. / i0, dlei: i0 / i1 }
    } else {
        let cdf = 1. - lpdf.exp() * i0;
        let ei = u + lpdf.exp() * i1;
        Norm { u, lpdf, lcdf: cdf.ln(), lei: ei.ln(), dlcdf: lpdf.exp() / cdf, dlei: cdf / ei }
    }
}

/// What the surrogate says at x
pub struct At {
    pub p: f64,
    pub s: f64,
    pub dp: Vec<f64>,
    pub ds: Vec<f64>,
    pub dp_only: Vec<f64>,
}
pub fn at(m: &dyn MixtureGpSurrogate, x: &[f64]) -> Result<Option<At>, Fail> {
    let q = Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
    let (p, v) = must_ok("predict", "predicting", || m.predict_valvar(&q.view()))?;
    let (dp, dv) = must_ok("predict", "differentiating", || m.predict_valvar_gradients(&q.view()))?;
    let dpo = must_ok("predict", "differentiating", || m.predict_gradients(&q.view()))?;
    if !(v[0] > 0.) || !p[0].is_finite() {
        return Ok(None);
    }
    let s = v[0].sqrt();
    Ok(Some(At { p: p[0], s, dp: dp.row(0).to_vec(), ds: dv.row(0).iter().map(|d| d / (2. * s)).collect(), dp_only: dpo.row(0).to_vec() }))
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}

/// Checks the four criteria at one point. `k`: weight of the standard deviation
fn check_point(c: &mut Case, m: &dyn MixtureGpSurrogate, x: &[f64], fmin: f64, sw: Option<f64>, scale: Option<f64>, q: &At) -> Res {
    let k = sw.unwrap_or(1.);
    let s = k * q.s;
    let u = (fmin - q.p) / s;
    if !u.is_finite() || u.abs() > 1e100 {
        return Ok(());
    }
    let n = norm(u);
    let what = format!("mean={:e} sd={:e} fmin={:e} weight={sw:?} u={u:e} x={x:?}", q.p, q.s, fmin);
    // expected improvement
    let ei = must("ei-panic", "EI", || EI.value(x, m, fmin, sw, scale))?;
    let ref_ei = s * n.lei.exp();
    let tiny = s * 1e-290;
    let rel = 1e-9 + 1e-14 * u * u + 3e-15 * u.powi(4);
    ensure!(ei >= -1e-300 * s, "ei-negative", "EI={ei:e} is negative or NaN, {what}");
    ensure!(near(ei, ref_ei, rel.min(1.) * ref_ei + tiny), "ei-value", "EI={ei:e} expected {ref_ei:e}, {what}");
    // its gradient: -Φ ∇mean + φ ∇sd
    let g = must("ei-panic", "EI gradient", || EI.grad(x, m, fmin, sw, scale))?;
    ensure!(g.len() == x.len(), "ei-grad-shape", "gradient of length {}, {what}", g.len());
    let (cdf, pdf) = (n.lcdf.exp(), n.lpdf.exp());
    let mut ref_gei = vec![];
    for j in 0..x.len() {
        let (dm, ds) = (q.dp[j], k * q.ds[j]);
        let r = -cdf * dm + pdf * ds;
        let tol = 1e-9 * (cdf * dm.abs() + pdf * ds.abs()) + 1e-13 * pdf * u.abs() * (dm.abs() + u.abs() * ds.abs()) + 1e-280 * (dm.abs() + ds.abs());
        ensure!(near(g[j], r, tol), "ei-grad", "EI gradient [{j}] {:e} expected {r:e}, gradient of mean {dm:e} of sd {ds:e}, {what}", g[j]);
        ref_gei.push((r, tol));
    }
    // logarithm of the expected improvement
    let l = must("logei-panic", "LogEI", || LOG_EI.value(x, m, fmin, sw, scale))?;
    let r = n.lei + s.ln();
    ensure!(near(l, r, 1e-6 + 1e-11 * (n.lei.abs() + s.ln().abs())), "logei-value", "LogEI={l:e} expected {r:e}, {what}");
    let g = must("logei-panic", "LogEI gradient", || LOG_EI.grad(x, m, fmin, sw, scale))?;
    ensure!(g.len() == x.len(), "logei-grad-shape", "gradient of length {}, {what}", g.len());
    for j in 0..x.len() {
        let (dm, ds) = (q.dp[j], k * q.ds[j]);
        // d log(s h(u)) = (h'/h) du + ds/s with du = -(dm + u ds)/s
        let (t1, t2, t3) = (-n.dlei * dm / s, -n.dlei * u * ds / s, ds / s);
        let r = t1 + t2 + t3;
        let tol = 1e-6 * (t1.abs() + t2.abs() + t3.abs());
        if r.is_finite() && tol.is_finite() {
            ensure!(near(g[j], r, tol), "logei-grad", "LogEI gradient [{j}] {:e} expected {r:e} = {t1:e} + {t2:e} + {t3:e}, {what}", g[j]);
        }
    }
    // Watson-Barnes
    for (crit, def) in [(&WB2, 1.), (&WB2S, 1.)] {
        let sc = scale.unwrap_or(def);
        let v = must("wb2-panic", "WB2", || crit.value(x, m, fmin, sw, scale))?;
        let r = sc * ref_ei - q.p;
        let mag = sc.abs() * ref_ei + q.p.abs();
        ensure!(near(v, r, rel.min(1.) * mag + sc.abs() * tiny), "wb2-value", "{}={v:e} expected {r:e}, scale {scale:?}, {what}", crit.name());
        let g = must("wb2-panic", "WB2 gradient", || crit.grad(x, m, fmin, sw, scale))?;
        ensure!(g.len() == x.len(), "wb2-grad-shape", "gradient of length {}, {what}", g.len());
        for j in 0..x.len() {
            let (re, tol) = ref_gei[j];
            let r = sc * re - q.dp_only[j];
            ensure!(near(g[j], r, sc.abs() * tol + 1e-9 * (q.dp_only[j].abs() + (sc * re).abs())), "wb2-grad", "{} gradient [{j}] {:e} expected {r:e}, scale {scale:?}, {what}", crit.name(), g[j]);
        }
    }
    c.count("points", 1);
    c.count(
        match u {
            u if u < -1e6 => "u<-1e6",
            u if u < -38. => "u<-38",
            u if u < -1. => "u<-1",
            u if u < 1. => "|u|<1",
            _ => "u>1",
        },
        1,
    );
    c.sub.push(hash64(&[u.to_bits(), q.s.to_bits()]));
    Ok(())
}

fn rand_u(c: &mut Case) -> f64 {
    match c.i(0, 9) {
        0 => 0.,
        1 | 2 => 3. * c.normal(),
        3 => -10f64.powf(c.u(0., 2.)),
        4 => -10f64.powf(c.u(1., 8.)),
        5 => 10f64.powf(c.u(0., 5.)),
        6 => -1. + *c.pick(&[-1e-9, 1e-9, 0., 1e-15]),
        7 => *c.pick(&[-37., -38.5, -40., -30., -29.9, -1e6, -0.99e6, -26., -20., -1e3, -1e4, -1e5]),
        8 => c.u(-10., 2.),
        _ => c.u(-1., 1.) * 10f64.powf(c.u(-8., 0.)),
    }
}

fn weights(c: &mut Case) -> (Option<f64>, Option<f64>) {
    let sw = match c.i(0, 3) {
        0 => None,
        1 => Some(1.),
        _ => Some(10f64.powf(c.u(-1.5, 0.7))),
    };
    let scale = match c.i(0, 2) {
        0 => None,
        1 => Some(1.),
        _ => Some(10f64.powf(c.u(-3., 4.))),
    };
    (sw, scale)
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("Criteria at random points of surrogates with closed-form mean and variance (any scale) and of trained mixtures (several kernels, trends, clusters, sparse), incumbents chosen so that the normalised improvement goes from -1e8 to 1e5; values and gradients compared with numerical quadrature of the expected improvement combined with the surrogate's own mean, deviation and gradients; scaling of WB2S recomputed. Non-trivial: at least one point with a positive variance.");
    ctx.cases("closed-form", ctx.n(120000, 1500000), ctx.n(12, 200) as f64, nthreads(), |c| {
        let d = c.i(1, 4);
        let ms = if c.b(0.4) { 1. } else { 10f64.powf(c.u(-14., 14.)) };
        let m0 = if c.b(0.3) { 0. } else { ms * c.normal() * *c.pick(&[1., 1., 1., 100.]) };
        let sd = ms * 10f64.powf(c.u(-4., 2.));
        let mut m = Mock::rand(c, d, ms, m0, sd);
        if c.b(0.02) {
            m.vs = 0.;
        }
        c.describe(format!("{m:?}"));
        let mut n = 0;
        for _ in 0..4 {
            let x: Vec<f64> = (0..d).map(|_| c.u(-5., 5.)).collect();
            let (sw, scale) = weights(c);
            let u = rand_u(c);
            match at(&m, &x)? {
                Some(q) => {
                    n += 1;
                    check_point(c, &m, &x, q.p + u * q.s * sw.unwrap_or(1.), sw, scale, &q)?
                }
                None => {
                    // No uncertainty: the criteria still have to be usable
                    let p = m.mean(&x);
                    let fmin = p + u * ms;
                    let ei = must("ei-panic", "EI", || EI.value(&x, &m, fmin, sw, scale))?;
                    ensure!(ei >= 0. && ei <= (fmin - p).max(0.) * (1. + 1e-12), "ei-certain", "EI={ei:e} without uncertainty, mean {p:e} fmin {fmin:e}");
                    let l = must("logei-panic", "LogEI", || LOG_EI.value(&x, &m, fmin, sw, scale))?;
                    ensure!(!l.is_nan() && l <= (fmin - p).max(0.).ln().max(f64::MIN) + 1e-9, "logei-certain", "LogEI={l:e} without uncertainty, mean {p:e} fmin {fmin:e}");
                    let sc = scale.unwrap_or(1.);
                    let v = must("wb2-panic", "WB2", || WB2.value(&x, &m, fmin, sw, scale))?;
                    ensure!(near(v, sc * ei - p, 1e-9 * (p.abs() + sc * ei)), "wb2-certain", "WB2={v:e} without uncertainty, EI={ei:e} mean {p:e}");
                    for (name, g) in [("EI", EI.grad(&x, &m, fmin, sw, scale)), ("LogEI", LOG_EI.grad(&x, &m, fmin, sw, scale)), ("WB2", WB2.grad(&x, &m, fmin, sw, scale))] {
                        ensure!(g.len() == d && g.iter().all(|v| !v.is_nan()), "grad-certain", "{name} gradient {g} without uncertainty");
                    }
                    c.count("certain", 1);
                }
            }
        }
        if n == 0 {
            c.key = 0;
        }
        Ok(())
    });
    ctx.cases("scaling", ctx.n(10000, 80000), ctx.n(5, 60) as f64, nthreads(), |c| {
        let d = c.i(1, 3);
        let ms = 10f64.powf(c.u(-2., 4.));
        let (m0, sd) = (ms * c.normal(), ms * 10f64.powf(c.u(-2., 1.)));
        let m = Mock::rand(c, d, ms, m0, sd);
        let n = c.i(1, 30);
        let x = Array2::from_shape_fn((n, d), |_| c.u(-5., 5.));
        let sw = weights(c).0;
        let fmin = m0 + ms * c.u(-3., 1.);
        c.describe(format!("{m:?} n={n} fmin={fmin} sw={sw:?}"));
        let k = sw.unwrap_or(1.);
        let ei: Vec<f64> = rows(&x.view()).iter().map(|r| { let s = k * m.var(r).sqrt(); s * norm((fmin - m.mean(r)) / s).lei.exp() }).collect();
        let best = ei.iter().cloned().fold(0., f64::max);
        let got = must("scaling-panic", "WB2S scaling", || WB2S.scaling(&x.view(), &m, fmin, sw))?;
        ensure!(got.is_finite() && got >= 0., "scaling-value", "WB2S scaling {got}");
        if best > 1e-12 {
            let ok = rows(&x.view()).iter().zip(&ei).any(|(r, e)| *e >= best * (1. - 1e-8) && near(got, 100. * m.mean(r).abs() / e, 1e-7 * got.abs()));
            ensure!(ok, "scaling-value", "WB2S scaling {got:e} but largest EI is {best:e} (means at the largest: {:?})", rows(&x.view()).iter().zip(&ei).filter(|(_, e)| **e >= best * (1. - 1e-8)).map(|(r, _)| m.mean(r)).collect::<Vec<_>>());
            c.count("scales", 1);
        } else {
            c.key = 0;
        }
        for (name, s) in [("WB2", WB2.scaling(&x.view(), &m, fmin, sw)), ("EI", EI.scaling(&x.view(), &m, fmin, sw)), ("LogEI", LOG_EI.scaling(&x.view(), &m, fmin, sw))] {
            ensure!(s == 1., "scaling-fixed", "{name} scaling is {s}");
        }
        Ok(())
    });
    ctx.cases("trained", ctx.n(2000, 15000), ctx.n(20, 200) as f64, nthreads(), |c| {
        let Some(m) = super::moe::mbuild(c, 1, 3, 0.2, false)? else { return Ok(()) };
        let d = m.x.ncols();
        let ymin = m.y.iter().cloned().fold(f64::INFINITY, f64::min);
        let mut n = 0;
        for t in 0..12 {
            let i = c.i(0, m.x.nrows() - 1);
            let x: Vec<f64> = match t % 4 {
                // a training point, next to one, anywhere
                0 => m.x.row(i).to_vec(),
                1 => { let e = 10f64.powf(c.u(-9., -1.)); m.x.row(i).iter().map(|v| v + e * c.normal()).collect() }
                _ => { let j = c.i(0, m.x.nrows() - 1); (0..d).map(|k| { let w = c.u(-0.3, 1.3); m.x[[i, k]] * w + m.x[[j, k]] * (1. - w) }).collect() }
            };
            let (sw, scale) = weights(c);
            let u = rand_u(c);
            let Some(q) = at(&m.moe, &x)? else {
                c.count("certain", 1);
                continue;
            };
            if q.dp.iter().chain(&q.ds).chain(&q.dp_only).any(|v| !v.is_finite()) {
                c.count("singular", 1);
                continue;
            }
            n += 1;
            let fmin = if c.b(0.4) { ymin } else { q.p + u * q.s * sw.unwrap_or(1.) };
            check_point(c, &m.moe, &x, fmin, sw, scale, &q)?;
        }
        if n == 0 {
            c.key = 0;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C25

type Solver = egobox_ego::EgorSolver<egobox_moe::GpMixtureParams<f64>, egobox_ego::Cstr>;

fn crit(c: &mut Case) -> (&'static str, Box<dyn InfillCriterion>) {
    match c.i(0, 3) {
        0 => ("EI", Box::new(EI)),
        1 => ("LogEI", Box::new(LOG_EI)),
        2 => ("WB2", Box::new(WB2)),
        _ => ("WB2S", Box::new(WB2S)),
    }
}

/// value and gradient of a criterion to be maximised, with an error bar on each, from the surrogate's own outputs
struct Crit {
    v: f64,
    tol: f64,
    g: Vec<f64>,
    gtol: Vec<f64>,
}
fn ref_crit(name: &str, q: &At, fmin: f64, k: f64, scale_ic: f64) -> Crit {
    let s = k * q.s;
    let u = (fmin - q.p) / s;
    let n = norm(u);
    let d = q.dp.len();
    let (mut g, mut gtol) = (vec![], vec![]);
    if name == "LogEI" {
        for j in 0..d {
            let (dm, ds) = (q.dp[j], k * q.ds[j]);
            let (t1, t2, t3) = (-n.dlei * dm / s, -n.dlei * u * ds / s, ds / s);
            g.push(t1 + t2 + t3);
            gtol.push(1e-6 * (t1.abs() + t2.abs() + t3.abs()));
        }
        return Crit { v: n.lei + s.ln(), tol: 1e-6 + 1e-11 * (n.lei.abs() + s.ln().abs()), g, gtol };
    }
    let ei = s * n.lei.exp();
    let tei = (1e-9 + 1e-14 * u * u + 3e-15 * u.powi(4)).min(1.) * ei + s * 1e-290;
    let (cdf, pdf) = (n.lcdf.exp(), n.lpdf.exp());
    for j in 0..d {
        let (dm, ds) = (q.dp[j], k * q.ds[j]);
        g.push(-cdf * dm + pdf * ds);
        gtol.push(1e-9 * (cdf * dm.abs() + pdf * ds.abs()) + 1e-13 * pdf * u.abs() * (dm.abs() + u.abs() * ds.abs()) + 1e-280 * (dm.abs() + ds.abs()));
    }
    if name == "EI" {
        return Crit { v: ei, tol: tei, g, gtol };
    }
    for j in 0..d {
        gtol[j] = scale_ic * gtol[j] + 1e-9 * (q.dp_only[j].abs() + (scale_ic * g[j]).abs());
        g[j] = scale_ic * g[j] - q.dp_only[j];
    }
    Crit { v: scale_ic * ei - q.p, tol: scale_ic * tei + 1e-9 * (q.p.abs() + scale_ic * ei), g, gtol }
}

const LNEPS: f64 = -36.043_653_389_117_15;

fn check_quantities(c: &mut Case, obj: &dyn MixtureGpSurrogate, cs: &[Box<dyn MixtureGpSurrogate>], x: &[f64], obj_ms: f64, tolsc: &[f64]) -> Result<bool, Fail> {
    let d = x.len();
    let Some(q) = at(obj, x)? else { return Ok(false) };
    let mut qc = vec![];
    for m in cs {
        let Some(a) = at(&**m, x)? else { return Ok(false) };
        qc.push(a);
    }
    if qc.iter().chain([&q]).any(|q| q.dp.iter().chain(&q.ds).chain(&q.dp_only).any(|v| !v.is_finite())) {
        return Ok(false);
    }
    // quantities used as constraints, with gradients restricted to active components
    for (m, a) in cs.iter().zip(&qc) {
        let scale = 10f64.powf(c.u(-3., 3.)) * a.p.abs().max(a.s);
        let mut act: Vec<usize> = (0..d).collect();
        if c.b(0.5) {
            for i in (1..d).rev() {
                let j = c.i(0, i);
                act.swap(i, j);
            }
            act.truncate(c.i(1, d));
        }
        // unused components of a group are marked with indices greater than any other
        let mut padded = act.clone();
        for _ in 0..c.i(0, 2) {
            padded.push(d + c.i(0, 3));
        }
        for utb in [false, true] {
            let what = if utb { "upper trust bound" } else { "mean" };
            let f = |g: Option<&mut [f64]>| if utb { Solver::upper_trust_bound_cstr(&**m, x, g, scale, &padded) } else { Solver::mean_cstr(&**m, x, g, scale, &padded) };
            let r = (a.p + if utb { 3. * a.s } else { 0. }) / scale;
            let mag = (a.p.abs() + 3. * a.s) / scale;
            let v = must("cstr-panic", what, || f(None))?;
            ensure!(near(v, r, 1e-11 * mag), format!("{}-value", if utb { "utb" } else { "mean" }), "{what} is {v:e} instead of {r:e}: mean {:e} sd {:e} scale {scale:e} x={x:?}", a.p, a.s);
            let mut g = vec![f64::NAN; act.len()];
            let v2 = must("cstr-panic", what, || f(Some(&mut g)))?;
            ensure!(v2 == v, "cstr-value-with-gradient", "{what} is {v:e} and {v2:e} when the gradient is asked");
            for (k, i) in act.iter().enumerate() {
                let (dm, ds) = if utb { (a.dp[*i], if a.s < 1e-12 * obj_ms.min(1.) { f64::NAN } else { 3. * a.ds[*i] }) } else { (a.dp_only[*i], 0.) };
                if ds.is_nan() {
                    continue;
                }
                let r = (dm + ds) / scale;
                ensure!(near(g[k], r, 1e-9 * (dm.abs() + ds.abs()) / scale), format!("{}-grad", if utb { "utb" } else { "mean" }), "gradient of the {what} wrt component {i} is {:e} instead of {r:e}: {dm:e} + {ds:e}, scale {scale:e}, active {padded:?}, x={x:?}", g[k]);
            }
            c.count(what, 1);
        }
    }
    // criterion, with and without the probability of feasibility
    let (name, crit) = crit(c);
    let cfg = egobox_ego::EgorConfig::default().infill_criterion(crit).n_cstr(cs.len()).cstr_infill(true).xtypes(&(0..d).map(|_| egobox_ego::XType::Float(-1., 1.)).collect::<Vec<_>>());
    let cfg = must_ok("config", "checking the configuration", || cfg.check())?;
    let solver = Solver::new(cfg);
    let k = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-1., 0.5)) };
    let scale_ic = if name == "WB2S" { 10f64.powf(c.u(-2., 4.)) } else { 1. };
    let u = if c.b(0.7) { c.u(-4., 2.) } else { rand_u(c) };
    let fmin = q.p + u * k * q.s;
    let r = ref_crit(name, &q, fmin, k, scale_ic);
    let scale = if c.b(0.3) { 1. } else { 10f64.powf(c.u(-2., 2.)) * r.v.abs().clamp(1e-200, 1e200) };
    if !r.v.is_finite() || r.g.iter().any(|v| !v.is_finite()) {
        return Ok(false);
    }
    let tols: Vec<f64> = qc.iter().zip(tolsc).map(|(a, t)| if c.b(0.3) { 0. } else if c.b(0.6) { a.p + rand_pof_u(c) * a.s } else { t * c.u(0., 1.) }).collect();
    let us: Vec<f64> = qc.iter().zip(&tols).map(|(a, t)| (t - a.p) / a.s).collect();
    let ns: Vec<Norm> = us.iter().map(|u| norm(*u)).collect();
    let feas = cs.is_empty() || c.b(0.7);
    let what = format!("{name} feasible={feas} weight={k} scale={scale:e} scale_ic={scale_ic} fmin={fmin:e} mean={:e} sd={:e} tolerances={tols:?} constraints={:?} x={x:?}", q.p, q.s, qc.iter().map(|a| (a.p, a.s)).collect::<Vec<_>>());
    let tola = Array1::from_vec(tols.clone());
    let v = must("infill-panic", "infill objective", || solver.eval_infill_obj_with_cstrs(x, obj, cs, &tola, fmin, scale, scale_ic, feas, k))?;
    let g = must("infill-panic", "gradient of the infill objective", || solver.eval_grad_infill_obj_with_cstrs(x, obj, cs, &tola, fmin, scale, scale_ic, feas, k))?;
    ensure!(g.len() == d, "infill-grad-shape", "gradient of length {}", g.len());
    // d ln pof = pdf/cdf * du with du = -(dm + u ds)/s
    let dl: Vec<Vec<(f64, f64)>> = qc.iter().zip(&ns).zip(&us).map(|((a, n), u)| (0..d).map(|j| {
        let (t1, t2) = (-n.dlcdf * a.dp[j] / a.s, -n.dlcdf * u * a.ds[j] / a.s);
        (t1 + t2, t1.abs() + t2.abs() + 1e-280 * (a.dp[j].abs() + (u * a.ds[j]).abs()) / a.s)
    }).collect()).collect();
    if name == "LogEI" {
        let base = if feas { (r.v, r.tol) } else { (0., 0.) };
        let lp: f64 = ns.iter().map(|n| n.lcdf.max(LNEPS)).sum();
        let e = -(base.0 + lp) / scale;
        ensure!(near(v, e, (base.1 + 1e-9 * (1. + lp.abs())) / scale), "logei-pof-value", "infill objective {v:e} instead of {e:e}: base {:e} log pof {:?}, {what}", base.0, ns.iter().map(|n| n.lcdf).collect::<Vec<_>>());
        // the logarithm of a probability is bounded from below: no derivative around there
        if ns.iter().all(|n| n.lcdf > LNEPS + 1e-3) {
            for j in 0..d {
                let (b, bt) = if feas { (r.g[j], r.gtol[j]) } else { (0., 0.) };
                let e = -(b + dl.iter().map(|l| l[j].0).sum::<f64>()) / scale;
                let t = (bt + 1e-8 * dl.iter().map(|l| l[j].1).sum::<f64>()) / scale;
                ensure!(near(g[j], e, t), "logei-pof-grad", "gradient of the infill objective [{j}] {:e} instead of {e:e}, {what}", g[j]);
            }
            c.count("log feasibility gradients", 1);
        }
    } else {
        let (b, bt) = if feas { (-r.v / scale, r.tol / scale) } else { (-1., 0.) };
        let lp: f64 = ns.iter().map(|n| n.lcdf).sum();
        let p = lp.exp();
        let e = b * p;
        let prel = (1e-9 + 1e-14 * us.iter().map(|u| u * u).sum::<f64>()).min(1.);
        ensure!(near(v, e, bt * p + prel * e.abs() + 1e-290 * b.abs().max(1.)), "pof-value", "infill objective {v:e} instead of {e:e}: base {b:e} log pof {:?}, {what}", ns.iter().map(|n| n.lcdf).collect::<Vec<_>>());
        {
            for j in 0..d {
                let (gb, gt) = if feas { (-r.g[j] / scale, r.gtol[j] / scale) } else { (0., 0.) };
                let (s1, s2) = (dl.iter().map(|l| l[j].0).sum::<f64>(), dl.iter().map(|l| l[j].1).sum::<f64>());
                let e = p * (gb + b * s1);
                let t = p * gt + bt * p * s2 + prel.max(1e-8) * p * (gb.abs() + b.abs() * s2) + 1e-280 * (1. + gb.abs() + b.abs() * s2);
                ensure!(near(g[j], e, t), "pof-grad", "gradient of the infill objective [{j}] {:e} instead of {e:e}, {what}", g[j]);
            }
        }
    }
    c.count(name, 1);
    c.count(if feas { "feasible" } else { "infeasible" }, 1);
    c.sub.push(hash64(&[u.to_bits(), us.first().map_or(0, |u| u.to_bits())]));
    Ok(true)
}
fn rand_pof_u(c: &mut Case) -> f64 {
    match c.i(0, 5) {
        0 => 0.,
        1 => c.u(-9., -4.),
        2 => c.u(-30., 5.),
        _ => 1.5 * c.normal(),
    }
}

pub fn c25(ctx: &Ctx) {
    // trained now: the solver asks for them from tasks of a thread pool that training uses too
    tiny(1);
    ctx.rule("Public solver entry points on surrogates with closed-form mean and variance and on trained mixtures, 0 to 3 constraints of different scales, tolerances, weights, active components, criteria, feasible or not: values and gradients compared with quadrature references; whole optimisation iterations with closed-form surrogates whose chosen point is compared with a grid search of the documented problem. Non-trivial: positive variances.");
    ctx.cases("closed-form", ctx.n(120000, 1500000), ctx.n(15, 200) as f64, nthreads(), |c| {
        let d = c.i(1, 5);
        let nc = c.i(0, 3);
        let ms = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-9., 9.)) };
        let mk = |c: &mut Case, ms: f64| {
            let (m0, sd) = (ms * c.normal(), ms * 10f64.powf(c.u(-2., 1.)));
            Mock::rand(c, d, ms, m0, sd)
        };
        let obj = mk(c, ms);
        let cms: Vec<f64> = (0..nc).map(|_| if c.b(0.5) { 1. } else { 10f64.powf(c.u(-9., 9.)) }).collect();
        let cs: Vec<Mock> = cms.iter().map(|m| mk(c, *m)).collect();
        c.describe(format!("{obj:?} {cs:?}"));
        let cs: Vec<Box<dyn MixtureGpSurrogate>> = cs.into_iter().map(|m| Box::new(m) as Box<dyn MixtureGpSurrogate>).collect();
        let x: Vec<f64> = (0..d).map(|_| c.u(-5., 5.)).collect();
        if !check_quantities(c, &obj, &cs, &x, ms, &cms)? {
            c.key = 0;
        }
        Ok(())
    });
    let stats: Mutex<BTreeMap<&'static str, (u64, u64, u64)>> = Default::default();
    ctx.cases("choice", ctx.n(3200, 20000), ctx.n(20, 300) as f64, nthreads(), |c| choice(c, &stats));
    ctx.cases("choices", 1, 10., 1, |c| {
        // Local optimisers may miss the optimum or stop at an infeasible point now and then, less often than shown
        let limits = [("unconstrained", 0.1, 0.1), ("feasibility-weighted", 0.1, 0.2), ("mean slsqp", 0.2, 0.1), ("trust bound slsqp", 0.25, 0.15), ("mean cobyla", 0.4, 0.1), ("trust bound cobyla", 0.6, 0.1)];
        let st = stats.lock().unwrap();
        c.describe(format!("{st:?}"));
        for (class, viol, gap) in limits {
            let (n, v, g) = st.get(class).cloned().unwrap_or_default();
            if n < 60 {
                continue;
            }
            ensure!(v as f64 <= viol * n as f64, "choice-infeasible", "{class}: {v} of {n} points chosen do not satisfy the documented constraints");
            ensure!(g as f64 <= gap * n as f64, "choice-poor", "{class}: {g} of {n} points chosen are far from the optimum of the documented problem");
        }
        Ok(())
    });
    ctx.cases("trained", ctx.n(800, 15000), ctx.n(20, 200) as f64, nthreads(), |c| {
        let Some(m) = super::moe::mbuild(c, 1, 2, 0., false)? else { return Ok(()) };
        let nc = c.i(1, 2);
        let mut cs: Vec<Box<dyn MixtureGpSurrogate>> = vec![];
        for _ in 0..nc {
            let a: Vec<f64> = (0..m.x.ncols()).map(|_| c.normal()).collect();
            let sd: Vec<f64> = m.x.columns().into_iter().map(|col| col.std(0.).max(1e-12)).collect();
            let y: Array1<f64> = m.x.rows().into_iter().map(|r| r.iter().zip(&a).zip(&sd).map(|((v, a), s)| (a * v / s).sin() + 0.2 * v / s).sum::<f64>()).collect();
            let b = m.params.clone();
            match guard(|| linfa::traits::Fit::fit(&b, &linfa::Dataset::new(m.x.clone(), y))) {
                Ok(Ok(g)) => cs.push(Box::new(g)),
                _ => {
                    c.key = 0;
                    return Ok(());
                }
            }
        }
        let tolsc = vec![0.1; nc];
        let mut any = false;
        for _ in 0..6 {
            let (i, j) = (c.i(0, m.x.nrows() - 1), c.i(0, m.x.nrows() - 1));
            let x: Vec<f64> = (0..m.x.ncols()).map(|k| { let w = c.u(-0.3, 1.3); m.x[[i, k]] * w + m.x[[j, k]] * (1. - w) }).collect();
            any |= check_quantities(c, &m.moe, &cs, &x, 1., &tolsc)?;
        }
        if !any {
            c.key = 0;
        }
        Ok(())
    });
}

/// One iteration of the solver on closed-form surrogates: the chosen point against a grid search
fn choice(c: &mut Case, stats: &Mutex<BTreeMap<&'static str, (u64, u64, u64)>>) -> Res {
    let d = c.i(1, 2);
    let nc = c.i(0, 2);
    let lo: Vec<f64> = (0..d).map(|_| c.u(-5., -4.5)).collect();
    let hi: Vec<f64> = (0..d).map(|_| c.u(-1., 5.)).collect();
    let mut ms: Vec<Mock> = vec![];
    for _ in 0..=nc {
        let s = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-3., 3.)) };
        let (m0, sd) = (s * c.u(-0.5, 0.5), s * 10f64.powf(c.u(-1.5, 0.)));
        ms.push(Mock::rand(c, d, s, m0, sd));
    }
    let n = c.i(4, 10);
    let doe = Array2::from_shape_fn((n, d), |(_, j)| c.u(lo[j], hi[j]));
    let (name, crit) = crit(c);
    let cstr_infill = nc > 0 && c.b(0.4);
    let utb = c.b(0.5);
    let cobyla = c.b(0.3);
    c.describe(format!("{name} cstr_infill={cstr_infill} utb={utb} cobyla={cobyla} {lo:?} {hi:?} {ms:?}"));
    if name == "WB2S" || !rows(&doe.view()).iter().any(|r| ms[1..].iter().all(|m| m.mean(r) <= 0.)) {
        c.key = 0;
        return Ok(());
    }
    let fmin = rows(&doe.view()).iter().filter(|r| ms[1..].iter().all(|m| m.mean(r) <= 0.)).map(|r| ms[0].mean(r)).fold(f64::INFINITY, f64::min);
    register(lo[0], &ms);
    let mm = ms.clone();
    let calls = std::sync::Arc::new(Mutex::new(vec![]));
    let cc = calls.clone();
    let obj = move |x: &ArrayView2<f64>| -> Array2<f64> {
        cc.lock().unwrap().push(x.to_owned());
        Array2::from_shape_fn((x.nrows(), mm.len()), |(i, k)| mm[k].mean(&x.row(i).to_vec()))
    };
    let xt: Vec<XType> = lo.iter().zip(&hi).map(|(a, b)| XType::Float(*a, *b)).collect();
    let seed = c.rng.gen::<u64>();
    let cfg = EgorConfig::default().xtypes(&xt).doe(&doe).n_cstr(nc).max_iters(1).infill_criterion(crit).cstr_infill(cstr_infill)
        .cstr_strategy(if utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
        .infill_optimizer(if cobyla { InfillOptimizer::Cobyla } else { InfillOptimizer::Slsqp })
        .seed(seed);
    let cfg = must_ok("config", "checking the configuration", || cfg.check())?;
    let r = must("run-panic", "one iteration", || {
        let solver: EgorSolver<MockBuilder, Cstr> = EgorSolver::new(cfg);
        Executor::new(ObjFunc::<_, Cstr>::new(obj), solver).ctrlc(false).run().map(|_| ()).map_err(|e| e.to_string())
    })?;
    unregister(lo[0]);
    if let Err(e) = r { return fail("run-error", e); }
    let calls = calls.lock().unwrap();
    if calls.len() < 2 {
        c.count("no point", 1);
        return Ok(());
    }
    let x = calls[1].row(0).to_vec();
    let quant = |x: &[f64]| -> Vec<f64> { ms[1..].iter().map(|m| m.mean(x) + if utb { 3. * m.var(x).sqrt() } else { 0. }).collect() };
    let val = |x: &[f64]| -> f64 {
        let q = At { p: ms[0].mean(x), s: ms[0].var(x).sqrt(), dp: vec![], ds: vec![], dp_only: vec![] };
        let v = ref_crit(name, &q, fmin, 1., 1.).v;
        if !cstr_infill { return v; }
        let lp: f64 = ms[1..].iter().map(|m| norm(-m.mean(x) / m.var(x).sqrt()).lcdf).sum();
        if name == "LogEI" { v + lp } else { v * lp.exp() }
    };
    let g = 60;
    let (mut best, mut worst) = (f64::NEG_INFINITY, f64::INFINITY);
    for i in 0..g * if d == 2 { g } else { 1 } {
        let p: Vec<f64> = (0..d).map(|j| lo[j] + (hi[j] - lo[j]) * ((if j == 0 { i % g } else { i / g }) as f64 / (g - 1) as f64)).collect();
        let v = val(&p);
        worst = worst.min(v);
        if cstr_infill || quant(&p).iter().all(|q| *q <= 0.) { best = best.max(v); }
    }
    let viol = if cstr_infill { 0. } else { quant(&x).iter().zip(&ms[1..]).map(|(q, m)| q / m.ms).fold(0., f64::max) };
    if best.is_finite() {
        let class = match (nc > 0, cstr_infill, utb, cobyla) {
            (false, ..) => "unconstrained",
            (_, true, ..) => "feasibility-weighted",
            (_, _, false, false) => "mean slsqp",
            (_, _, true, false) => "trust bound slsqp",
            (_, _, false, true) => "mean cobyla",
            _ => "trust bound cobyla",
        };
        let mut st = stats.lock().unwrap();
        let e = st.entry(class).or_default();
        e.0 += 1;
        e.1 += (viol > 1e-2) as u64;
        e.2 += (best - val(&x) > 0.05 * (best - worst)) as u64;
        c.count(class, 1);
        c.sub.push(hash64(&[x[0].to_bits()]));
    } else {
        c.key = 0;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C31

pub fn c31(ctx: &Ctx) {
    tiny(1);
    ctx.rule("Optimisations asking for several points at a time, every q-EI strategy, with 0 to 2 modelled constraints, run on closed-form surrogates that record each of their training sets: every row of every training set is either an evaluated point with its true values or a point of the batch being built with the values prescribed by the strategy. Non-trivial: at least one pretended value seen.");
    ctx.cases("batches", ctx.n(4000, 15000), ctx.n(25, 300) as f64, nthreads(), |c| {
        let d = c.i(1, 3);
        let nc = c.i(0, 2);
        let q = c.i(1, 4);
        let iters = c.i(1, 3);
        let lo: Vec<f64> = (0..d).map(|_| c.u(-5., -4.5)).collect();
        let hi: Vec<f64> = (0..d).map(|_| c.u(-1., 5.)).collect();
        let mut ms: Vec<Mock> = vec![];
        for _ in 0..=nc {
            let s = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-3., 3.)) };
            let (m0, sd) = (s * c.u(-0.5, 0.5), s * 10f64.powf(c.u(-1., 0.)));
            ms.push(Mock::rand(c, d, s, m0, sd));
        }
        let n = c.i(4, 10);
        let doe = Array2::from_shape_fn((n, d), |(_, j)| c.u(lo[j], hi[j]));
        let (name, crit) = crit(c);
        let strat = c.pick(&[QEiStrategy::KrigingBeliever, QEiStrategy::KrigingBelieverLowerBound, QEiStrategy::KrigingBelieverUpperBound, QEiStrategy::ConstantLiarMinimum]).clone();
        let cstr_infill = c.b(0.3);
        let trego = c.b(0.2);
        let coego = d > 1 && c.b(0.2);
        let optmod = c.i(1, 3);
        let seed = c.rng.gen::<u64>();
        let key = lo[0];
        c.describe(format!("{strat:?} q={q} iters={iters} {name} cstr_infill={cstr_infill} trego={trego} coego={coego} optmod={optmod} doe={n} seed={seed} {lo:?} {hi:?} {ms:?}"));
        register(key, &ms);
        let mm = ms.clone();
        let obj = move |x: &ArrayView2<f64>| -> Array2<f64> {
            MOCKS.lock().unwrap().get_mut(&key.to_bits()).unwrap().log.push(Event::Eval(rows(x)));
            Array2::from_shape_fn((x.nrows(), mm.len()), |(i, k)| mm[k].mean(&x.row(i).to_vec()))
        };
        let xt: Vec<XType> = lo.iter().zip(&hi).map(|(a, b)| XType::Float(*a, *b)).collect();
        let mut cfg = EgorConfig::default().xtypes(&xt).doe(&doe).n_cstr(nc).max_iters(iters).q_points(q).qei_strategy(strat.clone()).infill_criterion(crit).cstr_infill(cstr_infill).n_start(4).q_optmod(optmod).seed(seed);
        if trego {
            cfg = cfg.trego(true);
        }
        if coego {
            cfg = cfg.coego(egobox_ego::CoegoStatus::Enabled(2.min(d)));
        }
        let cfg = must_ok("config", "checking the configuration", || cfg.check())?;
        let r = must("run-panic", "the optimisation", || {
            let solver: EgorSolver<MockBuilder, Cstr> = EgorSolver::new(cfg);
            Executor::new(ObjFunc::<_, Cstr>::new(obj), solver).ctrlc(false).run().map(|_| ()).map_err(|e| e.to_string())
        });
        let log = unregister(key);
        if let Err(e) = r? {
            return fail("run-error", e);
        }
        let mut known: Vec<Vec<f64>> = vec![];
        let mut seen = 0;
        let mut last: Vec<Vec<f64>> = vec![];
        for ev in &log {
            match ev {
                Event::Eval(x) => {
                    // what was pretended last is what is asked
                    let lost = last.iter().find(|p| !x.contains(p) && !known.iter().chain(x).any(|r| r.iter().zip(*p).map(|(a, b)| (a - b).abs()).sum::<f64>() < 1e-13));
                    ensure!(lost.is_none(), "pretended-not-asked", "the point {lost:?} of the batch is not evaluated: {x:?}");
                    last.clear();
                    ensure!(known.is_empty() || x.len() <= q, "batch-size", "{} points evaluated at once, {q} asked", x.len());
                    known.extend(x.iter().cloned());
                }
                Event::Train(k, x, y) => {
                    let m = &ms[*k];
                    let ymin = known.iter().map(|r| ms[0].mean(r)).fold(f64::INFINITY, f64::min);
                    let mut extra = 0;
                    last.clear();
                    for (r, y) in x.iter().zip(y) {
                        if known.contains(r) && *y == m.mean(r) {
                            continue;
                        }
                        extra += 1;
                        last.push(r.clone());
                        let (p, s) = (m.mean(r), m.var(r).sqrt());
                        let e = match (&strat, k) {
                            (QEiStrategy::ConstantLiarMinimum, 0) => ymin,
                            (QEiStrategy::ConstantLiarMinimum, _) => known.iter().min_by(|a, b| ms[0].mean(a).total_cmp(&ms[0].mean(b))).map(|r| m.mean(r)).unwrap(),
                            (QEiStrategy::KrigingBelieverLowerBound, 0) => p - 3. * s,
                            (QEiStrategy::KrigingBelieverUpperBound, 0) => p + 3. * s,
                            _ => p,
                        };
                        ensure!(near(*y, e, 1e-12 * (e.abs() + p.abs() + s)), "pretended-value", "surrogate {k} is trained with {y:e} at the pretended point {r:?} instead of {e:e} (mean {p:e} sd {s:e}, current minimum {ymin:e})");
                    }
                    // a batch may come back to an evaluated point (the surrogates here stay uncertain there): its value is then
                    // pretended in a further row, the row with the real value stays
                    ensure!(extra < q.max(1), "too-many-pretended", "{extra} pretended points in a training set, {q} points asked");
                    let there = |p: &Vec<f64>| x.iter().zip(y).any(|(r, y)| (r == p && *y == m.mean(p)) || (r != p && r.iter().zip(p).map(|(a, b)| (a - b).abs()).sum::<f64>() < 1e-13));
                    ensure!(known.iter().all(there), "evaluated-lost", "the training set of surrogate {k} does not hold an evaluated point with its value: {:?}", known.iter().find(|p| !there(p)));
                    seen += extra;
                    c.count("training sets", 1);
                }
            }
        }
        c.count("pretended values", seen as u64);
        c.count(
            match strat {
                QEiStrategy::KrigingBeliever => "KrigingBeliever",
                QEiStrategy::KrigingBelieverLowerBound => "KrigingBelieverLowerBound",
                QEiStrategy::KrigingBelieverUpperBound => "KrigingBelieverUpperBound",
                QEiStrategy::ConstantLiarMinimum => "ConstantLiarMinimum",
            },
            1,
        );
        if seen == 0 {
            c.key = 0;
        }
        Ok(())
    });
}
