//! C11: sparse Gaussian processes.
use crate::data::*;
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_gp::correlation_models::*;
use egobox_gp::{Inducings, ParamTuning, SgpParams, SparseGaussianProcess, SparseMethod, ThetaTuning};
use linfa::prelude::*;
use ndarray::{Array1, Array2};

pub trait AnySgp: Send + Sync {
    fn predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn var(&self, x: &Array2<f64>) -> Array1<f64>;
    fn grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn var_grad(&self, x: &Array2<f64>) -> Array2<f64>;
    fn sample(&self, x: &Array2<f64>, n: usize, how: usize) -> Array2<f64>;
    fn theta(&self) -> Vec<f64>;
    fn sigma2(&self) -> f64;
    fn noise(&self) -> f64;
    fn lkh(&self) -> f64;
    fn z(&self) -> Array2<f64>;
    fn kpls(&self) -> Option<usize>;
    fn dims(&self) -> (usize, usize);
    fn linfa_predict(&self, x: &Array2<f64>) -> Array1<f64>;
    fn json(&self) -> String;
    fn from_json(&self, s: &str) -> Result<Box<dyn AnySgp>, String>;
}
impl<C> AnySgp for SparseGaussianProcess<f64, C>
where
    C: CorrelationModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    fn predict(&self, x: &Array2<f64>) -> Array1<f64> {
        SparseGaussianProcess::predict(self, x).unwrap()
    }
    fn var(&self, x: &Array2<f64>) -> Array1<f64> {
        self.predict_var(x).unwrap()
    }
    fn grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_gradients(x)
    }
    fn var_grad(&self, x: &Array2<f64>) -> Array2<f64> {
        self.predict_var_gradients(x)
    }
    fn sample(&self, x: &Array2<f64>, n: usize, how: usize) -> Array2<f64> {
        match how {
            0 => SparseGaussianProcess::sample(self, x, n),
            1 => self.sample_chol(x, n),
            _ => self.sample_eig(x, n),
        }
    }
    fn theta(&self) -> Vec<f64> {
        SparseGaussianProcess::theta(self).to_vec()
    }
    fn sigma2(&self) -> f64 {
        self.variance()
    }
    fn noise(&self) -> f64 {
        self.noise_variance()
    }
    fn lkh(&self) -> f64 {
        self.likelihood()
    }
    fn z(&self) -> Array2<f64> {
        self.inducings().to_owned()
    }
    fn kpls(&self) -> Option<usize> {
        self.kpls_dim()
    }
    fn dims(&self) -> (usize, usize) {
        SparseGaussianProcess::dims(self)
    }
    fn linfa_predict(&self, x: &Array2<f64>) -> Array1<f64> {
        Predict::predict(self, x)
    }
    fn json(&self) -> String {
        serde_json::to_string(self).unwrap()
    }
    fn from_json(&self, s: &str) -> Result<Box<dyn AnySgp>, String> {
        serde_json::from_str::<Self>(s)
            .map(|g| Box::new(g) as Box<dyn AnySgp>)
            .map_err(|e| e.to_string())
    }
}

#[derive(Clone, Debug)]
pub struct SSpec {
    pub ck: CorrK,
    pub method: SparseMethod,
    pub z: Inducings<f64>,
    pub noise: ParamTuning<f64>,
    pub tuning: Option<ThetaTuning<f64>>,
    pub kpls: Option<usize>,
    pub n_start: Option<usize>,
    pub max_eval: Option<usize>,
    pub nugget: Option<f64>,
    pub seed: Option<u64>,
}
impl SSpec {
    pub fn nug(&self) -> f64 {
        self.nugget.unwrap_or(100. * f64::EPSILON)
    }
}
fn go<C>(c: C, s: &SSpec, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn AnySgp>, String>
where
    C: CorrelationModel<f64> + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    let mut p = SgpParams::<f64, C>::new(c, s.z.clone())
        .sparse_method(s.method)
        .noise_variance(s.noise.clone())
        .kpls_dim(s.kpls)
        .seed(s.seed);
    if let Some(t) = &s.tuning {
        p = p.theta_tuning(t.clone());
    }
    if let Some(n) = s.n_start {
        p = p.n_start(n);
    }
    if let Some(n) = s.max_eval {
        p = p.max_eval(n);
    }
    if let Some(n) = s.nugget {
        p = p.nugget(n);
    }
    p.fit(&Dataset::new(x.clone(), y.clone()))
        .map(|g| Box::new(g) as Box<dyn AnySgp>)
        .map_err(|e| e.to_string())
}
pub fn sfit(s: &SSpec, x: &Array2<f64>, y: &Array1<f64>) -> Result<Box<dyn AnySgp>, String> {
    match s.ck {
        CorrK::SquaredExp => go(SquaredExponentialCorr::default(), s, x, y),
        CorrK::AbsExp => go(AbsoluteExponentialCorr::default(), s, x, y),
        CorrK::Matern32 => go(Matern32Corr::default(), s, x, y),
        CorrK::Matern52 => go(Matern52Corr::default(), s, x, y),
    }
}

fn rows(x: &Array2<f64>) -> Vec<Vec<f64>> {
    x.rows().into_iter().map(|r| r.to_vec()).collect()
}

/// Dense route: C = Q + diag, mean = Q* C^-1 y, cov = k** - Q* C^-1 Q*'
pub struct RefSgp {
    ck: CorrK,
    th: Vec<f64>,
    pub w: Mat,
    s2: f64,
    z: Vec<Vec<f64>>,
    x: Vec<Vec<f64>>,
    lm: Mat,
    v: Mat,
    lc: Mat,
    alpha: Vec<f64>,
    pub cond: f64,
    pub cond_c: f64,
    pub lkh: f64,
    /// magnitude of the cancelling terms of the likelihood
    pub lmag: f64,
}
impl RefSgp {
    pub fn new(x: &Array2<f64>, y: &Array1<f64>, m: SparseMethod, ck: CorrK, g: &dyn AnySgp, w: Mat, nug: f64) -> Option<RefSgp> {
        let th = g.theta();
        let (s2, noise) = (g.sigma2(), g.noise());
        let z = rows(&g.z());
        let x = rows(x);
        let k = |a: &[f64], b: &[f64]| s2 * kern(ck, a, b, &th, &w);
        let kmm = Mat::from_fn(z.len(), z.len(), |i, j| k(&z[i], &z[j]) + if i == j { nug } else { 0. });
        let ev = kmm.eigvals();
        let cond = ev[z.len() - 1] / ev[0].max(1e-300);
        let lm = kmm.chol()?;
        let n = x.len();
        // v = lm^-1 Kmn
        let mut v = Mat::zeros(z.len(), n);
        for j in 0..n {
            let c: Vec<f64> = z.iter().map(|r| k(r, &x[j])).collect();
            for (i, e) in lm.fsub(&c).iter().enumerate() {
                v.set(i, j, *e);
            }
        }
        let q = v.t().mul(&v);
        let mut dmin = f64::MAX;
        let lam: Vec<f64> = (0..n)
            .map(|i| match m {
                SparseMethod::Fitc => s2 - q.at(i, i) + noise,
                SparseMethod::Vfe => noise.max(nug),
            })
            .collect();
        for l in &lam {
            dmin = dmin.min(*l);
        }
        if !(dmin > 0.) {
            return None;
        }
        let c = Mat::from_fn(n, n, |i, j| q.at(i, j) + if i == j { lam[i] } else { 0. });
        let ev = c.eigvals();
        let cond_c = ev[n - 1] / ev[0].max(1e-300);
        let lc = c.chol()?;
        let yv = y.to_vec();
        let alpha = lc.csolve(&yv);
        let ld: f64 = (0..n).map(|i| 2. * lc.at(i, i).ln()).sum();
        let mut lkh = -0.5 * (ld + dot(&yv, &alpha));
        if m == SparseMethod::Vfe {
            lkh -= 0.5 * (0..n).map(|i| s2 - q.at(i, i)).sum::<f64>() / noise.max(nug);
        }
        let lmag = ld.abs() + yv.iter().zip(&lam).map(|(a, l)| a * a / l).sum::<f64>() + n as f64 * s2 / lam.iter().cloned().fold(f64::MAX, f64::min);
        Some(RefSgp { ck, th, w, s2, z, x, lm, v, lc, alpha, cond, cond_c, lkh, lmag })
    }
    fn qs(&self, a: &[f64]) -> Vec<f64> {
        let c: Vec<f64> = self.z.iter().map(|r| self.s2 * kern(self.ck, r, a, &self.th, &self.w)).collect();
        self.v.tmulv(&self.lm.fsub(&c))
    }
    /// mean and magnitude of the terms
    pub fn mean(&self, a: &[f64]) -> (f64, f64) {
        let q = self.qs(a);
        (dot(&q, &self.alpha), q.iter().zip(&self.alpha).map(|(a, b)| (a * b).abs()).sum())
    }
    /// latent covariance
    pub fn cov(&self, a: &[f64], b: &[f64]) -> f64 {
        let (qa, qb) = (self.qs(a), self.qs(b));
        self.s2 * kern(self.ck, a, b, &self.th, &self.w) - dot(&self.lc.fsub(&qa), &self.lc.fsub(&qb))
    }
    pub fn tol(&self) -> f64 {
        1e-14 * (self.cond + self.cond_c) * (self.x.len() as f64)
    }
}

pub struct SModel {
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub spec: SSpec,
    pub gp: Box<dyn AnySgp>,
    pub rf: Option<RefSgp>,
}

pub fn sbuild(c: &mut Case) -> Result<Option<SModel>, Fail> {
    let d = c.i(1, 3);
    let n = c.i(8, 30);
    // sparse processes do not normalise: inputs of order one
    let sc: Vec<f64> = (0..d).map(|_| if c.b(0.5) { 1. } else { c.u(0.2, 6.) }).collect();
    let off: Vec<f64> = (0..d).map(|_| if c.b(0.6) { 0. } else { c.u(-20., 20.) }).collect();
    let x = Array2::from_shape_fn((n, d), |(_, j)| off[j] + sc[j] * c.u(-1., 1.));
    let (mut y, ys) = rand_y(c, &x);
    let raw_units = c.b(0.2);
    if !raw_units {
        // centred, order one times a moderate unit
        let m = mean(&y.to_vec());
        let s = std1(&y.to_vec()).max(1e-300);
        let u = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-2., 2.)) };
        y.mapv_inplace(|v| (v - m) / s * u);
    }
    let yv = std1(&y.to_vec()).powi(2);
    for v in y.iter_mut() {
        *v += 0.05 * yv.sqrt() * c.normal();
    }
    let kpls = if d > 1 && c.b(0.15) { Some(c.i(1, d)) } else { None };
    let h = kpls.unwrap_or(d);
    let z = if c.b(0.5) {
        Inducings::Randomized(if c.b(0.15) { n + c.i(0, 3) } else { c.i(1, n) })
    } else {
        let m = c.i(1, 12);
        match c.i(0, 2) {
            0 => Inducings::Located(x.clone()),
            _ => Inducings::Located(Array2::from_shape_fn((m, d), |(_, j)| off[j] + sc[j] * c.u(-1.2, 1.2))),
        }
    };
    let noise = match c.i(0, 3) {
        0 => ParamTuning::Fixed(yv * 10f64.powf(c.u(-6., -0.5))),
        1 => ParamTuning::default(),
        _ => {
            let lo = yv.max(1e-6) * 10f64.powf(c.u(-6., -2.));
            let hi = lo * 10f64.powf(c.u(0.1, 4.));
            ParamTuning::Optimized { init: c.u(lo.ln(), hi.ln()).exp().clamp(lo, hi), bounds: (lo, hi) }
        }
    };
    let tuning = match c.i(0, 4) {
        0 => None,
        1 => Some(ThetaTuning::Fixed(Array1::from_vec((0..if c.b(0.5) { 1 } else { h }).map(|_| c.u(-0.7, 1.6).exp()).collect()))),
        k => {
            let nb = if c.b(0.5) { 1 } else { h };
            let b: Vec<(f64, f64)> = (0..nb).map(|_| { let lo = 10f64.powf(c.u(-2., 0.)); (lo, lo * 10f64.powf(c.u(0.2, 2.))) }).collect();
            let ni = if nb == 1 && c.b(0.5) { 1 } else { h };
            let init: Vec<f64> = (0..ni).map(|j| { let (lo, hi) = b[j.min(nb - 1)]; c.u(lo.ln(), hi.ln()).exp().clamp(lo, hi) }).collect();
            let (init, bounds) = (Array1::from_vec(init), Array1::from_vec(b));
            if k == 4 && c.b(0.3) {
                Some(ThetaTuning::Partial { init, bounds, active: vec![0] })
            } else {
                Some(ThetaTuning::Full { init, bounds })
            }
        }
    };
    let spec = SSpec {
        ck: *c.pick(&CORRS),
        method: if c.b(0.5) { SparseMethod::Fitc } else { SparseMethod::Vfe },
        z,
        noise,
        tuning,
        kpls,
        n_start: Some(*c.pick(&[0, 0, 1, 2, 4])),
        max_eval: if c.b(0.5) { None } else { Some(c.i(1, 60)) },
        nugget: if c.b(0.8) { None } else { Some(10f64.powf(c.u(-12., -6.))) },
        seed: if c.b(0.8) { Some(c.rng.gen()) } else { None },
    };
    let zd = match &spec.z { Inducings::Located(z) => format!("located {}", z.nrows()), z => format!("{z:?}") };
    c.describe(format!("n={n} d={d} y={ys} raw={raw_units} ck={:?} method={:?} z={zd} noise={:?} tuning={:?} kpls={:?} n_start={:?} max_eval={:?} nugget={:?} seed={:?} x0={} y0={}", spec.ck, spec.method, spec.noise, spec.tuning, spec.kpls, spec.n_start, spec.max_eval, spec.nugget, spec.seed, x.row(0), y[0]));
    let w = match kpls {
        Some(h) => match pls_w(&x, &y, h) {
            Some(w) => w,
            None => {
                c.key = 0;
                return Ok(None);
            }
        },
        None => eye(d),
    };
    match must("fit", "training a sparse process", || sfit(&spec, &x, &y))? {
        Ok(gp) => {
            let rf = RefSgp::new(&x, &y, spec.method, spec.ck, gp.as_ref(), w, spec.nug());
            Ok(Some(SModel { x, y, spec, gp, rf }))
        }
        Err(_) => {
            c.key = 0;
            c.count("refused", 1);
            Ok(None)
        }
    }
}
use ndarray_rand::rand::Rng;

fn bits(v: impl IntoIterator<Item = f64>) -> Vec<u64> {
    v.into_iter().map(|a| a.to_bits()).collect()
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("Random data in 1..3 dimensions, FITC and VFE, every kernel, fixed / tuned noise, located and randomised inducing sets (incl. all training points and more than available), fixed / full / partial hyperparameters with scalar or per-component bounds, dimension reduction. A case is non-trivial when a model was trained; closed-form comparisons need conditioning below 1e9.");
    ctx.cases("sparse", ctx.n(6000, 60000), ctx.n(30, 400) as f64, nthreads(), |c| {
        let Some(m) = sbuild(c)? else { return Ok(()) };
        let (gp, s) = (&m.gp, &m.spec);
        let (n, d) = m.x.dim();
        let h = s.kpls.unwrap_or(d);
        c.count(if s.method == SparseMethod::Fitc { "FITC models" } else { "VFE models" }, 1);
        // parameters
        let th = gp.theta();
        ensure!(th.len() == h, "theta-length", "{} hyperparameters for dimension {h}", th.len());
        let default = ThetaTuning::Full { init: Array1::from_vec(vec![0.1]), bounds: Array1::from_vec(vec![(1e-2, 1e2)]) };
        match s.tuning.as_ref().unwrap_or(&default) {
            ThetaTuning::Fixed(t) => {
                for j in 0..h {
                    let e = t[if t.len() == 1 { 0 } else { j }];
                    ensure!((th[j] - e).abs() <= 1e-9 * e, "theta-fixed", "theta[{j}]={} should stay {e}", th[j]);
                }
            }
            ThetaTuning::Full { bounds, .. } | ThetaTuning::Partial { bounds, .. } => {
                for j in 0..h {
                    let (lo, hi) = bounds[if bounds.len() == 1 { 0 } else { j }];
                    ensure!(th[j] >= lo * (1. - 1e-9) && th[j] <= hi * (1. + 1e-9), "theta-bounds", "theta[{j}]={} outside [{lo},{hi}]", th[j]);
                }
            }
        }
        let nz = gp.noise();
        match &s.noise {
            ParamTuning::Fixed(v) => ensure!(nz == *v, "noise-fixed", "noise {nz} should stay {v}"),
            ParamTuning::Optimized { bounds: (lo, hi), .. } => ensure!(nz >= lo * (1. - 1e-9) && nz <= hi * (1. + 1e-9), "noise-bounds", "noise {nz} outside [{lo},{hi}]"),
        }
        ensure!(gp.sigma2().is_finite() && gp.sigma2() > 0., "sigma2", "process variance {}", gp.sigma2());
        ensure!(gp.dims() == (d, 1), "dims", "dims {:?}", gp.dims());
        ensure!(gp.kpls() == if h < d { Some(h) } else { None }, "kpls-dim", "kpls_dim {:?}", gp.kpls());
        let z = gp.z();
        match &s.z {
            Inducings::Located(a) => ensure!(z == *a, "inducings", "located inducing points changed"),
            Inducings::Randomized(k) => {
                ensure!(z.nrows() == (*k).min(n) && z.ncols() == d, "inducings", "{:?} inducing points asked {k} of {n}", z.dim());
                let mut used = vec![false; n];
                for r in z.rows() {
                    let p = (0..n).find(|i| !used[*i] && m.x.row(*i) == r);
                    match p {
                        Some(i) => used[i] = true,
                        None => return fail("inducings", "randomised inducing point repeated or not in the training set"),
                    }
                }
            }
            _ => {}
        }
        // predictions
        let q = query(c, &m.x, 6);
        let p = must("predict", "predict", || gp.predict(&q))?;
        let v = must("var", "predict_var", || gp.var(&q))?;
        ensure!(bits(gp.linfa_predict(&q)) == bits(p.clone()), "predict-trait", "Predict trait differs");
        for i in 0..6 {
            let o = one(&row(&q, i));
            let (a, b) = (gp.predict(&o)[0], gp.var(&o)[0]);
            let sc = 1e-9 * (a.abs() + gp.sigma2().sqrt());
            let t = m.rf.as_ref().map(|r| r.tol()).unwrap_or(1.).max(1e-9);
            ensure!((a - p[i]).abs() <= sc + t * gp.sigma2().sqrt() * 1e3 || t > 1e-3, "single-mean", "single {a} vs batch {}", p[i]);
            ensure!((b - v[i]).abs() <= 10. * t * gp.sigma2() || t > 1e-3, "single-var", "single {b} vs batch {}", v[i]);
            ensure!(v[i].is_finite() && v[i] >= nz && p[i].is_finite(), "var-noise", "variance {} below the noise {nz}, or mean {} not finite", v[i], p[i]);
        }
        // reproducible
        if s.seed.is_some() && s.n_start != Some(1) && c.idx % 3 == 0 {
            for t in [1, 4] {
                let g2 = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap().install(|| sfit(s, &m.x, &m.y));
                let Ok(g2) = g2 else { return fail("not-reproducible", "second training refused") };
                ensure!(bits(g2.theta()) == bits(th.clone()) && g2.z() == z && g2.sigma2() == gp.sigma2() && g2.noise() == nz && bits(g2.predict(&q)) == bits(p.clone()), "not-reproducible", "seeded trainings differ ({t} threads)");
            }
            c.count("twin trainings", 2);
        }
        let Some(rf) = &m.rf else {
            c.count("no reference", 1);
            return Ok(());
        };
        if rf.cond > 1e9 || rf.cond_c > 1e9 {
            c.count("ill-conditioned", 1);
            return Ok(());
        }
        let t = 1e-10 + rf.tol();
        let ymax = m.y.iter().fold(0f64, |a, b| a.max(b.abs()));
        ensure!((gp.lkh() - rf.lkh).abs() <= 1e-6 * (1. + rf.lkh.abs()) + 1e3 * t * rf.lkh.abs() + 1e-13 * n as f64 * rf.lmag, "likelihood", "likelihood {} reference {} (cond {:.1e} {:.1e})", gp.lkh(), rf.lkh, rf.cond, rf.cond_c);
        for i in 0..6 {
            let qi = row(&q, i);
            let (e, mag) = rf.mean(&qi);
            ensure!((p[i] - e).abs() <= 10. * t * (mag + ymax), "mean", "prediction {} reference {e} (cond {:.1e} {:.1e})", p[i], rf.cond, rf.cond_c);
            let e = rf.cov(&qi, &qi).max(1e-15) + nz;
            ensure!((v[i] - e).abs() <= 100. * t * gp.sigma2() + 1e-14, "var", "variance {} reference {e} (noise {nz}, process variance {}, cond {:.1e} {:.1e})", v[i], gp.sigma2(), rf.cond, rf.cond_c);
        }
        c.count("points compared", 6);
        // dense equivalence when every training input is an inducing point
        if matches!(&s.z, Inducings::Located(a) if *a == m.x) || matches!(&s.z, Inducings::Randomized(k) if *k >= n) {
            let k = Mat::from_fn(n, n, |i, j| gp.sigma2() * kern(s.ck, &row(&m.x, i), &row(&m.x, j), &th, &rf.w) + if i == j { nz.max(s.nug()) } else { 0. });
            let ev = k.eigvals();
            let cd = ev[n - 1] / ev[0].max(1e-300);
            if let (Some(l), true) = (k.chol(), cd < 1e8 && s.nug() / nz < 1e-3) {
                let al = l.csolve(&m.y.to_vec());
                for i in 0..6 {
                    let qi = row(&q, i);
                    let ks: Vec<f64> = (0..n).map(|r| gp.sigma2() * kern(s.ck, &qi, &row(&m.x, r), &th, &rf.w)).collect();
                    let e = dot(&ks, &al);
                    let mag: f64 = ks.iter().zip(&al).map(|(a, b)| (a * b).abs()).sum();
                    let tt = 10. * t + 1e-14 * cd * n as f64 + 100. * s.nug() / nz.max(s.nug()) + s.nug() * rf.cond / gp.sigma2();
                    if tt > 1e-2 { continue; }
                    ensure!((p[i] - e).abs() <= tt * (mag + ymax), "dense-mean", "sparse {} dense {e}", p[i]);
                    let u = l.fsub(&ks);
                    let e = gp.sigma2() - dot(&u, &u) + nz;
                    ensure!((v[i] - e).abs() <= 10. * tt * gp.sigma2(), "dense-var", "sparse {} dense {e}", v[i]);
                    c.count("dense comparisons", 1);
                }
            }
        }
        // gradients
        if t < 1e-8 {
            let g = must("grad", "predict_gradients", || gp.grad(&q))?;
            let vg = must("var_grad", "predict_var_gradients", || gp.var_grad(&q))?;
            ensure!(g.dim() == (6, d) && vg.dim() == (6, d), "shape", "{:?} {:?}", g.dim(), vg.dim());
            for i in 0..6 {
                let qi = row(&q, i);
                let (_, mag) = rf.mean(&qi);
                for j in 0..d {
                    // stay away from kernel kinks
                    if z.column(j).iter().any(|a| (a - qi[j]).abs() < 0.01) || h < d {
                        continue;
                    }
                    let at = |e: f64| { let mut y = qi.clone(); y[j] += e; one(&y) };
                    let hh = 5e-3;
                    let (fd, err) = crate::props::gp::deriv(&|e| gp.predict(&at(e))[0], hh);
                    let noise = t * (mag + ymax);
                    let tol = 20. * err + noise / hh * 10. + 1e-6 * (mag + ymax) + 1e5 * 1e-15 * (1. + qi[j].abs()) * (mag + ymax) + noise * 1e5;
                    ensure!((g[[i, j]] - fd).abs() <= tol, "grad", "mean gradient {} finite differences {fd} (tol {tol:.1e})", g[[i, j]]);
                    if rf.cov(&qi, &qi) > 1e-5 * gp.sigma2() {
                        let (fd, err) = crate::props::gp::deriv(&|e| gp.var(&at(e))[0], hh);
                        let s2 = gp.sigma2();
                        let tol = 20. * err + 100. * t * s2 * (1. / hh + 1e4) + 1e-6 * s2 + 1e-10 * (1. + qi[j].abs()) * s2 + 1e-15 * nz * 1e6;
                        ensure!((vg[[i, j]] - fd).abs() <= tol, "var-grad", "variance gradient {} finite differences {fd} (tol {tol:.1e})", vg[[i, j]]);
                    }
                    c.count("derivatives", 1);
                }
            }
        }
        Ok(())
    });
}
