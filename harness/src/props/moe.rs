//! Mixture of experts monitors: C12 (persistence), C13 (responsibilities), C14 (recombination), C15 (selection, metrics).
use crate::data::*;
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_moe::*;
use egobox_moe::{Inducings, SparseMethod, ThetaTuning};
use linfa::prelude::*;
use std::result::Result;
use ndarray::{Array1, Array2, Array3, Axis};
use ndarray_rand::rand::{Rng, SeedableRng};
use std::path::PathBuf;

pub fn regr(m: MeanK) -> RegressionSpec {
    match m {
        MeanK::Constant => RegressionSpec::CONSTANT,
        MeanK::Linear => RegressionSpec::LINEAR,
        MeanK::Quadratic => RegressionSpec::QUADRATIC,
    }
}
pub fn corr(k: CorrK) -> CorrelationSpec {
    match k {
        CorrK::SquaredExp => CorrelationSpec::SQUAREDEXPONENTIAL,
        CorrK::AbsExp => CorrelationSpec::ABSOLUTEEXPONENTIAL,
        CorrK::Matern32 => CorrelationSpec::MATERN32,
        CorrK::Matern52 => CorrelationSpec::MATERN52,
    }
}

/// Data made of `k` groups of different behaviour
pub fn cluster_data(c: &mut Case, k: usize, d: usize, n: usize) -> (Array2<f64>, Array1<f64>) {
    let sc: Vec<f64> = (0..d).map(|_| if c.b(0.6) { 1. } else { 10f64.powf(c.u(-2., 3.)) }).collect();
    let spread = c.u(0.5, 4.);
    let cen = Array2::from_shape_fn((k, d), |_| spread * c.u(-1., 1.));
    let a = Array2::from_shape_fn((k, d), |_| c.u(-3., 3.));
    let b: Vec<f64> = (0..k).map(|_| c.u(-4., 4.)).collect();
    let uniform = c.b(0.4);
    let mut x = Array2::zeros((n, d));
    let mut y = Array1::zeros(n);
    let ys = if c.b(0.6) { 1. } else { 10f64.powf(c.u(-4., 4.)) };
    for i in 0..n {
        let g = if uniform { 0 } else { c.i(0, k - 1) };
        let t: Vec<f64> = (0..d).map(|j| if uniform { spread * c.u(-1., 1.) } else { cen[[g, j]] + 0.4 * c.normal() }).collect();
        // nearest centre decides the behaviour
        let g = (0..k)
            .min_by(|&p, &q| {
                let e = |p: usize| (0..d).map(|j| (t[j] - cen[[p, j]]).powi(2)).sum::<f64>();
                e(p).partial_cmp(&e(q)).unwrap()
            })
            .unwrap();
        y[i] = ys * (b[g] + (0..d).map(|j| (a[[g, j]] * t[j]).sin() + 0.3 * a[[g, j]] * t[j]).sum::<f64>());
        for j in 0..d {
            x[[i, j]] = t[j] * sc[j];
        }
    }
    (x, y)
}

pub struct Mix {
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub params: GpMixtureParams<f64>,
    pub k: usize,
    pub recomb: Recombination<f64>,
    pub moe: GpMixture,
    pub sparse: bool,
    pub kpls: Option<usize>,
    pub mk: MeanK,
    pub ck: CorrK,
}

pub fn rand_recomb(c: &mut Case, none: bool) -> Recombination<f64> {
    match c.i(0, 4) {
        0 | 1 => Recombination::Hard,
        2 if none => Recombination::Smooth(None),
        _ => Recombination::Smooth(Some(if c.b(0.4) { 1. } else { 10f64.powf(c.u(-1.2, 0.8)) })),
    }
}

pub fn mbuild(c: &mut Case, kmin: usize, kmax: usize, sparse_p: f64, none: bool) -> Result<Option<Mix>, Fail> {
    let k = c.i(kmin, kmax);
    let d = c.i(1, 3);
    let n = c.i(8, 16) * k + 4 * d;
    let kk = k.max(c.i(1, 2));
    let (x, y) = cluster_data(c, kk, d, n);
    let sparse = c.b(sparse_p);
    let (mk, ck) = (if sparse { MeanK::Constant } else { *c.pick(&[MeanK::Constant, MeanK::Constant, MeanK::Linear, MeanK::Quadratic]) }, *c.pick(&CORRS));
    let kpls = if d > 1 && c.b(0.2) { Some(c.i(1, d)) } else { None };
    let recomb = rand_recomb(c, none);
    let seed: u64 = c.rng.gen();
    let h = kpls.unwrap_or(d);
    let mut tun = vec![];
    for _ in 0..if k > 1 && c.b(0.5) { k } else { 1 } {
        tun.push(match c.i(0, 3) {
            0 => ThetaTuning::Fixed(Array1::from_vec((0..h).map(|_| c.u(-1., 1.5).exp()).collect())),
            1 => ThetaTuning::Full { init: Array1::from_vec((0..h).map(|_| c.u(-1., 1.).exp()).collect()), bounds: Array1::from_vec(vec![(1e-2, 20.)]) },
            _ => ThetaTuning::default(),
        });
    }
    let mut p = GpMixtureParams::new()
        .n_clusters(NbClusters::fixed(k))
        .recombination(recomb)
        .regression_spec(regr(mk))
        .correlation_spec(corr(ck))
        .kpls_dim(kpls)
        .theta_tunings(&tun)
        .n_start(*c.pick(&[0, 2, 3]))
        .max_eval(*c.pick(&[25, 50]))
        .with_rng(R64::seed_from_u64(seed));
    let mut g = String::from("full");
    if sparse {
        let z = if c.b(0.7) { Inducings::Randomized(c.i(3, 8)) } else { Inducings::Located(x.slice(ndarray::s![..6.min(n), ..]).to_owned()) };
        let m = if c.b(0.5) { SparseMethod::Fitc } else { SparseMethod::Vfe };
        g = format!("sparse {m:?} {}", matches!(z, Inducings::Located(_)));
        p = p.gp_type(GpType::SparseGp { sparse_method: m, inducings: z });
    }
    c.describe(format!("k={k} d={d} n={n} {g} {mk:?} {ck:?} kpls={kpls:?} {recomb:?} tunings={tun:?} seed={seed} x0={} y0={}", x.row(0), y[0]));
    match must("train", "training a mixture", || p.clone().fit(&Dataset::new(x.clone(), y.clone())))? {
        Ok(moe) => Ok(Some(Mix { x, y, params: p, k, recomb, moe, sparse, kpls, mk, ck })),
        Err(_) => {
            c.key = 0;
            c.count("refused", 1);
            Ok(None)
        }
    }
}

// ------------------------------------------------------------------------------------------------ C13

/// Log-space reference of a mixture of normals whose covariances are multiplied by `f`
pub struct RefGmx {
    lw: Vec<f64>,
    mu: Vec<Vec<f64>>,
    chol: Vec<Mat>,
    prec: Vec<Mat>,
    ld: Vec<f64>,
    pub cond: f64,
}
impl RefGmx {
    pub fn new(w: &Array1<f64>, mu: &Array2<f64>, cov: &Array3<f64>, f: f64) -> Option<RefGmx> {
        let (k, d) = mu.dim();
        let mut r = RefGmx { lw: w.mapv(f64::ln).to_vec(), mu: vec![], chol: vec![], prec: vec![], ld: vec![], cond: 1. };
        for i in 0..k {
            let m = Mat::from_fn(d, d, |a, b| f * cov[[i, a, b]]);
            let ev = m.eigvals();
            r.cond = r.cond.max(ev[d - 1] / ev[0].max(1e-300));
            let l = m.chol()?;
            r.ld.push((0..d).map(|a| l.at(a, a).ln()).sum());
            let mut p = Mat::zeros(d, d);
            for a in 0..d {
                let mut e = vec![0.; d];
                e[a] = 1.;
                for (b, v) in l.csolve(&e).iter().enumerate() {
                    p.set(b, a, *v);
                }
            }
            r.prec.push(p);
            r.chol.push(l);
            r.mu.push(mu.row(i).to_vec());
        }
        Some(r)
    }
    fn quad(&self, i: usize, x: &[f64]) -> f64 {
        let e: Vec<f64> = x.iter().zip(&self.mu[i]).map(|(a, b)| a - b).collect();
        let s = self.chol[i].fsub(&e);
        dot(&s, &s)
    }
    pub fn logpdf(&self, i: usize, x: &[f64]) -> f64 {
        -0.5 * (self.quad(i, x) + x.len() as f64 * (2. * std::f64::consts::PI).ln()) - self.ld[i]
    }
    /// responsibilities and their absolute accuracy
    pub fn resp(&self, x: &[f64]) -> (Vec<f64>, f64) {
        let l: Vec<f64> = (0..self.mu.len()).map(|i| self.logpdf(i, x) + self.lw[i]).collect();
        let m = l.iter().cloned().fold(f64::MIN, f64::max);
        let s: f64 = l.iter().map(|v| (v - m).exp()).sum();
        let q = (0..self.mu.len()).map(|i| self.quad(i, x)).fold(0., f64::max);
        let xx = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        let _ = xx;
        (l.iter().map(|v| (v - m).exp() / s).collect(), 1e-14 * (self.cond + 10.) * (1. + q) + 1e-12)
    }
    pub fn dresp(&self, x: &[f64]) -> (Vec<Vec<f64>>, f64) {
        let (p, t) = self.resp(x);
        let d = x.len();
        let g: Vec<Vec<f64>> = (0..p.len())
            .map(|i| {
                let e: Vec<f64> = x.iter().zip(&self.mu[i]).map(|(a, b)| a - b).collect();
                self.prec[i].mulv(&e)
            })
            .collect();
        let gm = g.iter().flatten().fold(0f64, |m, v| m.max(v.abs()));
        let r = (0..p.len()).map(|i| (0..d).map(|j| p[i] * ((0..p.len()).map(|l| p[l] * g[l][j]).sum::<f64>() - g[i][j])).collect()).collect();
        (r, 3. * t * gm * p.len() as f64)
    }
}

fn check_gmx(c: &mut Case, g: &GaussianMixture<f64>, f: f64, q: &Array2<f64>) -> Res {
    let (k, d) = (g.n_clusters(), q.ncols());
    let rf = RefGmx::new(g.weights(), g.means(), g.covariances(), f);
    let p = must("probas", "responsibilities", || g.predict_probas(q))?;
    let dp = must("dprobas", "derivatives of responsibilities", || g.predict_probas_derivatives(q))?;
    let cl: Array1<usize> = must("assign", "assigning clusters", || g.predict(q))?;
    ensure!(p.dim() == (q.nrows(), k) && dp.dim() == (q.nrows(), k, d), "shape", "{:?} {:?}", p.dim(), dp.dim());
    for i in 0..q.nrows() {
        let x = row(q, i);
        let pr = p.row(i);
        ensure!(pr.iter().all(|v| v.is_finite() && *v >= 0.), "probas-invalid", "responsibilities {pr} at {x:?}");
        ensure!((pr.sum() - 1.).abs() < 1e-9, "probas-sum", "responsibilities {pr} at {x:?} sum to {}", pr.sum());
        let best = pr.iter().cloned().fold(0., f64::max);
        ensure!(cl[i] < k && pr[cl[i]] >= best - 1e-9, "assignment", "cluster {} assigned at {x:?} where responsibilities are {pr}", cl[i]);
        ensure!(dp.index_axis(Axis(0), i).iter().all(|v| v.is_finite()), "dprobas-invalid", "derivatives {} at {x:?} (responsibilities {pr})", dp.index_axis(Axis(0), i));
        let s1 = g.predict_single_probas_derivatives(&q.row(i));
        ensure!(s1 == dp.index_axis(Axis(0), i), "dprobas-single", "single point derivatives differ at {x:?}");
        if let Some(rf) = &rf {
            let (r, t) = rf.resp(&x);
            if t < 1e-3 {
                for j in 0..k {
                    ensure!((r[j] - pr[j]).abs() <= t, "probas-value", "responsibility {j} {} at {x:?} expected {} (tolerance {t:.1e})", pr[j], r[j]);
                }
                let (dr, t) = rf.dresp(&x);
                for j in 0..k {
                    for l in 0..d {
                        let v = dp[[i, j, l]];
                        ensure!((v - dr[j][l]).abs() <= t + 1e-9 * dr[j][l].abs(), "dprobas-value", "derivative of responsibility {j} wrt {l} {v} at {x:?} expected {} (tolerance {t:.1e})", dr[j][l]);
                    }
                }
                let pd = g.pdfs(&q.row(i));
                for j in 0..k {
                    let e = rf.logpdf(j, &x);
                    if e > -600. {
                        ensure!((pd[j].ln() - e).abs() <= t.max(1e-9) + 1e-12 * e.abs() + 1e-13 * rf.cond * (1. + e.abs()), "pdf", "density {j} {} at {x:?} expected {}", pd[j], e.exp());
                    }
                }
                c.count("referenced points", 1);
            } else {
                c.count("far points", 1);
            }
        }
    }
    Ok(())
}

fn gmx_query(c: &mut Case, mu: &Array2<f64>, sd: &[f64], m: usize) -> Array2<f64> {
    let k = mu.nrows();
    Array2::from_shape_fn((m, mu.ncols()), |(i, j)| {
        let (a, b) = (mu[[i % k, j]], mu[[(i + 1) % k, j]]);
        match i % 5 {
            0 => a + sd[j] * c.normal(),
            1 => a + (b - a) * c.u(0., 1.),
            2 => a + 10. * sd[j] * c.normal(),
            3 => a + 10f64.powf(c.u(1., 6.)) * sd[j] * c.normal(),
            _ => a,
        }
    })
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("Random mixtures of normals (1..5 components, 1..4 dimensions, covariances over several orders of magnitude, any smoothing factor) and trained mixtures; responsibilities, assignments, densities and derivatives at points inside, between, far (1e6 deviations) compared with a log-space reference. Non-trivial: at least two components.");
    ctx.cases("mixtures", ctx.n(20000, 400000), ctx.n(20, 200) as f64, nthreads(), |c| {
        let (k, d) = (c.i(1, 5), c.i(1, 4));
        let sc: Vec<f64> = (0..d).map(|_| if c.b(0.5) { 1. } else { 10f64.powf(c.u(-3., 3.)) }).collect();
        let w = Array1::from_vec((0..k).map(|_| if c.b(0.1) { 1e-6 } else { c.u(0.1, 1.) }).collect());
        let w = &w / w.sum();
        let mu = Array2::from_shape_fn((k, d), |(_, j)| sc[j] * c.u(-5., 5.));
        let mut cov = Array3::zeros((k, d, d));
        for i in 0..k {
            let mut b = Mat::zeros(d, d);
            let s = 10f64.powf(c.u(-1.5, 1.));
            for p in 0..d {
                for q in 0..d {
                    b.set(p, q, s * sc[p] * c.normal());
                }
            }
            let m = b.mul(&b.t());
            for p in 0..d {
                for q in 0..d {
                    cov[[i, p, q]] = m.at(p, q) + if p == q { (0.3 * s * sc[p]).powi(2) } else { 0. };
                }
            }
        }
        let f = match c.i(0, 2) { 0 => 1., _ => 10f64.powf(c.u(-2., 1.)) };
        c.describe(format!("k={k} d={d} factor={f} weights={w} means={mu:?} covs={cov:?}"));
        if k == 1 {
            c.key = 0;
        }
        let g = must_ok("new", "building a mixture", || GaussianMixture::new(w.clone(), mu.clone(), cov.clone()))?;
        let g = if c.b(0.3) { g.heaviside_factor(3.).heaviside_factor(f) } else { g.heaviside_factor(f) };
        ensure!(g.means() == mu && g.weights() == w && g.covariances() == cov, "parameters", "mixture parameters are not the given ones");
        let q = gmx_query(c, &mu, &sc, 10);
        check_gmx(c, &g, f, &q)
    });
    ctx.cases("trained", ctx.n(1200, 20000), ctx.n(20, 200) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 2, 4, 0., true)? else { return Ok(()) };
        let g = m.moe.gmx();
        ensure!(g.n_clusters() == m.k, "clusters", "{} clusters, requested {}", g.n_clusters(), m.k);
        ensure!((g.weights().sum() - 1.).abs() < 1e-6, "weights", "weights {} do not sum to 1", g.weights());
        let f = match m.moe.recombination() {
            Recombination::Smooth(Some(f)) => f,
            Recombination::Smooth(None) => return fail("unresolved", "trained mixture has no smoothing factor"),
            _ => 1.,
        };
        match m.recomb {
            Recombination::Smooth(None) => ensure!((0.1..=2.1).contains(&f), "factor", "optimised factor {f}"),
            r => ensure!(r == m.moe.recombination(), "recombination", "{:?} instead of {r:?}", m.moe.recombination()),
        }
        let sd: Vec<f64> = (0..m.x.ncols()).map(|j| std1(&m.x.column(j).to_vec())).collect();
        let q = gmx_query(c, &g.means().to_owned(), &sd, 10);
        check_gmx(c, g, f, &q)?;
        let xt = m.x.clone();
        check_gmx(c, g, f, &xt)?;
        // changing the factor afterwards
        let f2 = 10f64.powf(c.u(-1., 1.));
        let moe = m.moe.set_recombination(Recombination::Smooth(Some(f2)));
        ensure!(moe.recombination() == Recombination::Smooth(Some(f2)), "recombination", "not set");
        check_gmx(c, moe.gmx(), f2, &q)
    });
}

// ------------------------------------------------------------------------------------------------ C14

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || a.to_bits() == b.to_bits()
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("Trained mixtures (1..4 clusters, 1..3 dimensions, full and sparse experts, every trend, kernel, projection and recombination); predictions, variances, gradients of the mixture compared with the documented combination of its experts' own predictions and of its responsibilities, and with finite differences. Non-trivial: at least two clusters.");
    ctx.cases("combination", ctx.n(2500, 50000), ctx.n(35, 400) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 1, 4, 0.2, true)? else { return Ok(()) };
        if m.k == 1 {
            c.key = 0;
        }
        let d = m.x.ncols();
        let trained: Array1<usize> = m.moe.gmx().predict(&m.x);
        let moe = if c.b(0.2) {
            let r = rand_recomb(c, false);
            m.moe.set_recombination(r)
        } else {
            m.moe
        };
        let e = moe.experts();
        ensure!(e.len() == m.k && moe.n_clusters() == m.k, "clusters", "{} experts", e.len());
        ensure!(moe.dims() == (d, 1), "dims", "{:?}", moe.dims());
        let nq = c.i(1, 7);
        let q = query(c, &m.x, nq);
        let v = q.view();
        let g = moe.gmx();
        let (p, dp, cl): (_, _, Array1<usize>) = (g.predict_probas(&q), g.predict_probas_derivatives(&q), g.predict(&q));
        let pr: Vec<Array1<f64>> = e.iter().map(|g| g.predict(&v).unwrap()).collect();
        let va: Vec<Array1<f64>> = e.iter().map(|g| g.predict_var(&v).unwrap()).collect();
        let gr: Vec<Array2<f64>> = e.iter().map(|g| g.predict_gradients(&v).unwrap()).collect();
        let vg: Vec<Array2<f64>> = e.iter().map(|g| g.predict_var_gradients(&v).unwrap()).collect();
        let hard = moe.recombination() == Recombination::Hard;
        let mp = must_ok("predict", "predicting", || moe.predict(&q))?;
        let mv = must_ok("var", "predicting variances", || moe.predict_var(&q))?;
        let (mp2, mv2) = must_ok("valvar", "predicting values and variances", || moe.predict_valvar(&q))?;
        let mg = must_ok("gradients", "predicting gradients", || moe.predict_gradients(&q))?;
        let mvg = must_ok("var-gradients", "predicting variance gradients", || moe.predict_var_gradients(&q))?;
        let (mg2, mvg2) = must_ok("valvar-gradients", "predicting value and variance gradients", || moe.predict_valvar_gradients(&q))?;
        ensure!(mp.len() == nq && mv.len() == nq && mg.dim() == (nq, d) && mvg.dim() == (nq, d) && mg2.dim() == (nq, d) && mvg2.dim() == (nq, d), "shape", "");
        let linfa: Array1<f64> = linfa::traits::Predict::predict(&moe, &q);
        for i in 0..nq {
            let x = q.row(i);
            let w: Vec<f64> = (0..m.k).map(|k| if hard { (cl[i] == k) as u8 as f64 } else { p[[i, k]] }).collect();
            let dw = |k: usize, j: usize| if hard { 0. } else { dp[[i, k, j]] };
            let s = |f: &dyn Fn(usize) -> f64| -> (f64, f64) {
                let t: Vec<f64> = (0..m.k).map(|k| f(k)).collect();
                (t.iter().sum(), 1e-9 * t.iter().map(|v| v.abs()).sum::<f64>() + 1e-300)
            };
            // a zero weight hides whatever the expert says
            let z = |w: f64, v: f64| if w == 0. { 0. } else { w * v };
            let (r, t) = s(&|k| z(w[k], pr[k][i]));
            ensure!(close(mp[i], r, t), "value", "prediction {} at {x} expected {r} from responsibilities {w:?} and {:?}", mp[i], pr.iter().map(|a| a[i]).collect::<Vec<_>>());
            ensure!(close(mp2[i], r, t) && close(linfa[i], r, t), "value-other", "predictions {} {} at {x} expected {r}", mp2[i], linfa[i]);
            let (r, t) = s(&|k| z(w[k] * w[k], va[k][i]));
            ensure!(close(mv[i], r, t), "variance", "variance {} at {x} expected {r} from responsibilities {w:?} and {:?}", mv[i], va.iter().map(|a| a[i]).collect::<Vec<_>>());
            ensure!(close(mv2[i], r, t), "variance-other", "variance {} at {x} expected {r}", mv2[i]);
            for j in 0..d {
                let (r, t) = s(&|k| z(w[k], gr[k][[i, j]]) + z(dw(k, j), pr[k][i]));
                let t2 = t + 1e-9 * (0..m.k).map(|k| z(w[k], gr[k][[i, j]]).abs() + z(dw(k, j), pr[k][i]).abs()).sum::<f64>();
                ensure!(close(mg[[i, j]], r, t2), "gradient", "gradient {j} {} at {x} expected {r}", mg[[i, j]]);
                ensure!(close(mg2[[i, j]], r, t2), "gradient-other", "gradient {j} {} at {x} expected {r}", mg2[[i, j]]);
                let (r, t) = s(&|k| z(w[k] * w[k], vg[k][[i, j]]) + z(2. * w[k] * dw(k, j), va[k][i]));
                let t2 = t + 1e-9 * (0..m.k).map(|k| z(w[k] * w[k], vg[k][[i, j]]).abs() + z(2. * w[k] * dw(k, j), va[k][i]).abs()).sum::<f64>();
                ensure!(close(mvg[[i, j]], r, t2), "variance-gradient", "variance gradient {j} {} at {x} expected {r}", mvg[[i, j]]);
                ensure!(close(mvg2[[i, j]], r, t2), "variance-gradient-other", "variance gradient {j} {} at {x} expected {r}", mvg2[[i, j]]);
            }
            // batch = pointwise
            let o = one(&x.to_vec());
            let (a, b) = moe.predict_valvar(&o).map_err(|e| Fail { sig: "pointwise".into(), msg: e.to_string() })?;
            let same = |t: f64, u: f64| close(a[0], mp[i], 1e-9 * mp[i].abs() + t) && close(b[0], mv[i], 1e-9 * mv[i].abs() + u);
            if !same(0., 0.) {
                // the order of sums matters with ill-conditioned experts
                let gmax = gamma_max(&serde_json::to_value(&moe).unwrap());
                let vtot = e.iter().map(|e| e.variance()).fold(0f64, f64::max);
                let ys = std1(&m.y.to_vec());
                ensure!(same(1e-14 * gmax * (ys + vtot), 1e-14 * gmax * vtot * (1. + vtot) + 1e-6 * vtot), "pointwise", "batched prediction differs from the pointwise one at {x}: {} {} and {} {}", mp[i], mv[i], a[0], b[0]);
            }
        }
        c.count(if hard { "hard" } else { "smooth" }, nq as u64);
        // experts are processes trained on their own cluster
        if !m.sparse {
            for k in 0..m.k {
                let idx: Vec<usize> = (0..m.x.nrows()).filter(|&i| trained[i] == k).collect();
                if idx.is_empty() {
                    continue;
                }
                let xs = m.x.select(Axis(0), &idx);
                let ys = m.y.select(Axis(0), &idx);
                let sp = Spec { mk: m.mk, ck: m.ck, tuning: Some(ThetaTuning::Fixed(e[k].theta().clone())), kpls: m.kpls, n_start: None, max_eval: None, nugget: None };
                let Ok(gp) = fit(&sp, &xs, &ys) else { return fail("expert-cluster", format!("expert {k} cannot be trained again")) };
                let sd = std1(&ys.to_vec());
                let (a, b) = (gp.predict(&q), gp.var(&q));
                for i in 0..nq {
                    let t = 1e-5 * (sd + a[i].abs() + (a[i] - mean(&ys.to_vec())).abs());
                    ensure!(close(a[i], pr[k][i], t), "expert-cluster", "expert {k} predicts {} at {} where a process trained on its cluster predicts {}", pr[k][i], q.row(i), a[i]);
                    ensure!(close(b[i], va[k][i], 1e-4 * (b[i] + sd * sd)), "expert-cluster", "expert {k} has variance {} at {} where a process trained on its cluster has {}", va[k][i], q.row(i), b[i]);
                }
                c.count("experts trained again", 1);
            }
        }
        // sampling
        let s = guard(|| moe.sample(&q, 3).map(|t| t.dim()));
        match s {
            Err(e) => return fail("sample-panic", e),
            Ok(Ok(dim)) => ensure!(m.k == 1 && dim == (nq, 3), "sample", "sampled {dim:?} with {} clusters", m.k),
            Ok(Err(_)) => ensure!(m.k > 1, "sample", "refused to sample a single expert"),
        }
        Ok(())
    });
    // a one-cluster mixture is the process itself
    ctx.cases("single", ctx.n(1200, 20000), ctx.n(15, 150) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 1, 1, 0., false)? else { return Ok(()) };
        let v = m.params.clone().check().unwrap();
        let sp = Spec { mk: m.mk, ck: m.ck, tuning: Some(v.theta_tunings()[0].clone()), kpls: m.kpls, n_start: Some(v.n_start()), max_eval: Some(v.max_eval()), nugget: None };
        let gp = match fit(&sp, &m.x, &m.y) {
            Ok(g) => g,
            Err(e) => return fail("single", format!("the mixture trained but the process did not: {e}")),
        };
        let q = query(c, &m.x, 6);
        let th = m.moe.experts()[0].theta().to_vec();
        ensure!(th == gp.theta().to_vec(), "single-theta", "theta {th:?} differs from the process' {:?}", gp.theta());
        ensure!(m.moe.predict(&q).unwrap() == gp.predict(&q) && m.moe.predict_var(&q).unwrap() == gp.var(&q), "single-values", "predictions differ from the process'");
        let e = &m.moe.experts()[0];
        ensure!(e.likelihood().to_bits() == gp.lkh().to_bits() && e.variance() == gp.variance() && e.noise_variance() == 0., "single-params", "hyperparameters differ");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C15

fn folds(n: usize, k: usize) -> Vec<(Vec<usize>, Vec<usize>)> {
    // linfa: k blocks of n/k points are held out in turn, remaining points always train
    let s = n / k;
    let mut blocks: Vec<Vec<usize>> = (0..n).collect::<Vec<_>>().chunks(s).map(|c| c.to_vec()).collect();
    let mut r = vec![];
    for i in 0..k {
        r.push((blocks[1..].concat(), blocks[0].clone()));
        if i < k - 1 {
            blocks.swap(0, i + 1);
        }
    }
    r
}

fn name_of(s: &str) -> (String, String) {
    let mut it = s.split('_');
    let a = it.next().unwrap_or("").to_string();
    let b = it.next().unwrap_or("").split(['(', '[', ' ']).next().unwrap_or("");
    let b = b.strip_suffix("GP").unwrap_or(b).to_string();
    (a, b)
}

fn same_model(a: &GpMixture, b: &GpMixture, q: &Array2<f64>) -> bool {
    let bits = |v: Array1<f64>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    a.to_string() == b.to_string()
        && a.n_clusters() == b.n_clusters()
        && a.recombination() == b.recombination()
        && bits(a.predict(q).unwrap()) == bits(b.predict(q).unwrap())
        && bits(a.predict_var(q).unwrap()) == bits(b.predict_var(q).unwrap())
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("Trained mixtures over specification sets, numbers of clusters (fixed and automatic), tunings, projections and seeds: experts checked against the specification, retrained for reproducibility; cross-validation metrics recomputed from independently trained models. Non-trivial: trained model.");
    ctx.cases("metrics", ctx.n(400, 6000), ctx.n(30, 300) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 1, 2, 0.15, false)? else { return Ok(()) };
        let n = m.x.nrows();
        let k = if c.b(0.15) { n } else { c.i(2, 7) };
        let mut press = 0.;
        let mut tss = 0.;
        let mut z2 = 0.;
        let mut cnt = 0usize;
        let mut iaes = vec![];
        let mut deltas = vec![0.; 20];
        let ym = mean(&m.y.to_vec());
        let al: Vec<f64> = (0..20).map(|i| 0.02 + 0.96 * i as f64 / 19.).collect();
        // same arrays (and so same round-off) as the ones given by the library used for folding
        let all = Dataset::new(m.x.clone(), m.y.clone());
        for ((tr, va), (ds, dv)) in folds(n, k).into_iter().zip(all.fold(k)) {
            ensure!(ds.records() == m.x.select(Axis(0), &tr) && *dv.targets() == m.y.select(Axis(0), &va), "folds", "folds are not the expected ones");
            let sub = match guard(|| m.params.clone().fit(&ds)) {
                Ok(Ok(s)) => s,
                _ => {
                    c.key = 0;
                    c.count("untrainable folds", 1);
                    return Ok(());
                }
            };
            let xv = m.x.select(Axis(0), &va);
            let (p, v) = sub.predict_valvar(&xv).unwrap();
            let mut cov = vec![0usize; 20];
            for (i, &r) in va.iter().enumerate() {
                let e = m.y[r] - p[i];
                press += e * e;
                tss += (m.y[r] - ym).powi(2);
                z2 += e * e / v[i];
                cnt += 1;
                for (a, cv) in al.iter().zip(cov.iter_mut()) {
                    // |e|/sd <= z_{1-a/2}
                    let pv = 2. * (1. - 0.5 * (1. + libm::erf(e.abs() / v[i].sqrt() / 2f64.sqrt())));
                    if (pv - a).abs() < 1e-9 + 1e-14 * (m.y[r].abs() + p[i].abs()) / v[i].sqrt() {
                        c.key = 0;
                        return Ok(()); // on the edge of the interval
                    }
                    if pv >= *a {
                        *cv += 1;
                    }
                }
            }
            let dl: Vec<f64> = cov.iter().map(|v| *v as f64 / va.len() as f64).collect();
            iaes.push(dl.iter().zip(&al).map(|(d, a)| (d - (1. - a)).abs()).sum::<f64>() / 20.);
            for (t, d) in deltas.iter_mut().zip(&dl) {
                *t += d / k as f64;
            }
        }
        let q2 = 1. - press / tss;
        let pva = (z2 / cnt as f64).ln().abs();
        let iae = mean(&iaes);
        for round in 0..2 {
            let r = must("q2", "computing Q2", || m.moe.q2_k(k))?;
            ensure!((r - q2).abs() <= 1e-7 * (1. + q2.abs()) || r.to_bits() == q2.to_bits(), "q2", "Q2({k}) {r} expected {q2} (round {round})");
            let r = must("pva", "computing PVA", || m.moe.pva_k(k))?;
            ensure!((r - pva).abs() <= 1e-6 * (1. + pva.abs()) || !pva.is_finite(), "pva", "PVA({k}) {r} expected {pva} (round {round})");
            let r = must("iae", "computing IAE", || m.moe.iae_alpha_k(k))?;
            ensure!((r - iae).abs() <= 1e-9 || !r.is_finite(), "iae", "IAE({k}) {r} expected {iae} (round {round})");
            if n > 24 {
                break;
            }
        }
        let s = m.moe.score(GpMetric::IAEAlphaWithPlot, k);
        let pd = s.plot_data.unwrap_or_default();
        ensure!((s.value - iae).abs() <= 1e-9, "iae-plot", "{} expected {iae}", s.value);
        ensure!(pd.alphas.len() == 20 && pd.deltas.len() == 20, "plot", "plot data of length {} {}", pd.alphas.len(), pd.deltas.len());
        for i in 0..20 {
            ensure!((pd.alphas[i] - al[i]).abs() < 1e-12 && (pd.deltas[i] - deltas[i]).abs() < 1e-9, "plot", "plot data {i}: {} {} expected {} {}", pd.alphas[i], pd.deltas[i], al[i], deltas[i]);
        }
        ensure!((m.moe.score(GpMetric::Q2, k).value - q2).abs() <= 1e-7 * (1. + q2.abs()), "score", "");
        ensure!((m.moe.score(GpMetric::Pva, k).value - pva).abs() <= 1e-6 * (1. + pva.abs()) || !pva.is_finite(), "score", "");
        if k == n {
            let a = m.moe.q2();
            ensure!((a - q2).abs() <= 1e-7 * (1. + q2.abs()), "q2-loo", "Q2 {a} is not the leave-one-out one {q2}");
            let a = m.moe.pva();
            ensure!((a - pva).abs() <= 1e-6 * (1. + pva.abs()) || !pva.is_finite(), "pva-loo", "PVA {a} is not the leave-one-out one {pva}");
            c.count("leave-one-out", 1);
        }
        let (tx, ty) = GpQualityAssurance::training_data(&m.moe);
        ensure!(tx == m.x && ty == m.y, "training-data", "training data is not the given one");
        c.count("folds", k as u64);
        Ok(())
    });
    // metrics of processes themselves
    ctx.cases("gp-q2", ctx.n(400, 6000), ctx.n(10, 100) as f64, nthreads(), |c| {
        use egobox_gp::metrics::PredictScore;
        let d = c.i(1, 2);
        let n = c.i(6, 16);
        let (x, _) = rand_x(c, n, d);
        let (y, _) = rand_y(c, &x);
        let th = Array1::from_vec((0..d).map(|_| c.u(-1., 1.5).exp()).collect());
        let k = if c.b(0.3) { n } else { c.i(2, 5) };
        c.describe(format!("n={n} d={d} k={k} theta={th}"));
        let p = egobox_gp::GaussianProcess::<f64, egobox_gp::mean_models::ConstantMean, egobox_gp::correlation_models::Matern52Corr>::params(egobox_gp::mean_models::ConstantMean::default(), egobox_gp::correlation_models::Matern52Corr::default())
            .theta_tuning(ThetaTuning::Fixed(th));
        let Ok(gp) = p.clone().fit(&Dataset::new(x.clone(), y.clone())) else { c.key = 0; return Ok(()) };
        let (mut press, mut tss) = (0., 0.);
        let ym = mean(&y.to_vec());
        let all = Dataset::new(x.clone(), y.clone());
        for ((_, va), (ds, _)) in folds(n, k).into_iter().zip(all.fold(k)) {
            let Ok(g) = p.clone().fit(&ds) else { c.key = 0; return Ok(()) };
            let v = g.predict(&x.select(Axis(0), &va)).unwrap();
            for (i, &r) in va.iter().enumerate() {
                press += (y[r] - v[i]).powi(2);
                tss += (y[r] - ym).powi(2);
            }
        }
        let q2 = 1. - press / tss;
        let r = must("q2", "Q2 of a process", || gp.q2_score(k))?;
        ensure!((r - q2).abs() <= 1e-7 * (1. + q2.abs()) || !q2.is_finite(), "gp-q2", "Q2({k}) {r} expected {q2}");
        if k == n {
            let r = gp.looq2_score();
            ensure!((r - q2).abs() <= 1e-7 * (1. + q2.abs()) || !q2.is_finite(), "gp-q2", "leave-one-out Q2 {r} expected {q2}");
        }
        Ok(())
    });
    // specification sets, selection and reproducibility
    ctx.cases("selection", ctx.n(300, 4000), ctx.n(30, 300) as f64, nthreads(), |c| {
        let k = c.i(1, 2);
        let d = c.i(1, 3);
        let n = c.i(10, 18) * k;
        let (x, y) = cluster_data(c, k, d, n);
        let rs = RegressionSpec::from_bits(c.i(1, 7) as u8).unwrap();
        let cs = CorrelationSpec::from_bits(c.i(1, 15) as u8).unwrap();
        let kpls = if d > 1 && c.b(0.2) { Some(c.i(1, d)) } else { None };
        let auto = c.b(0.25);
        let seed: u64 = c.rng.gen();
        let max = c.i(1, 3);
        let recomb = rand_recomb(c, true);
        c.describe(format!("k={k} d={d} n={n} {rs:?} {cs:?} kpls={kpls:?} auto={auto} max={max} {recomb:?} seed={seed} x0={} y0={}", x.row(0), y[0]));
        let p = GpMixtureParams::new()
            .n_clusters(if auto { NbClusters::automax(max) } else { NbClusters::fixed(k) })
            .regression_spec(rs)
            .correlation_spec(cs)
            .recombination(recomb)
            .kpls_dim(kpls)
            .n_start(2)
            .max_eval(25)
            .with_rng(R64::seed_from_u64(seed));
        let ds = Dataset::new(x.clone(), y.clone());
        let m = match must("train", "training a mixture", || p.clone().fit(&ds))? {
            Ok(m) => m,
            Err(_) => {
                c.key = 0;
                c.count("refused", 1);
                return Ok(());
            }
        };
        if auto {
            ensure!((1..=max).contains(&m.n_clusters()), "auto", "{} clusters, at most {max} allowed", m.n_clusters());
            c.count(["", "auto 1", "auto 2", "auto 3"][m.n_clusters()], 1);
        } else {
            ensure!(m.n_clusters() == k, "clusters", "{} clusters instead of {k}", m.n_clusters());
        }
        for e in m.experts() {
            let (a, b) = name_of(&e.to_string());
            let ra = match a.as_str() {
                "Constant" => RegressionSpec::CONSTANT,
                "Linear" => RegressionSpec::LINEAR,
                "Quadratic" => RegressionSpec::QUADRATIC,
                _ => return fail("name", format!("unknown expert {e}")),
            };
            let cb = match b.as_str() {
                "SquaredExponential" => CorrelationSpec::SQUAREDEXPONENTIAL,
                "AbsoluteExponential" => CorrelationSpec::ABSOLUTEEXPONENTIAL,
                "Matern32" => CorrelationSpec::MATERN32,
                "Matern52" => CorrelationSpec::MATERN52,
                _ => return fail("name", format!("unknown expert {e}")),
            };
            ensure!(rs.contains(ra) && cs.contains(cb), "spec", "expert {e} is not allowed by {rs:?} {cs:?}");
            if let Some(h) = kpls {
                ensure!(e.theta().len() == h, "kpls", "{} hyperparameters with {h} components", e.theta().len());
            } else {
                ensure!(e.theta().len() == d, "theta-len", "{} hyperparameters in dimension {d}", e.theta().len());
            }
        }
        // reproducible
        let q = query(c, &x, 5);
        let m2 = must_ok("train-again", "training again", || p.clone().fit(&ds))?;
        ensure!(same_model(&m, &m2, &q), "reproducible", "training again with the same seed gives another model: {m} and {m2}");
        Ok(())
    });
    ctx.cases("sparse-reproducible", ctx.n(300, 4000), ctx.n(15, 150) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 1, 2, 1., false)? else { return Ok(()) };
        let q = query(c, &m.x, 5);
        for _ in 0..2 {
            let m2 = must_ok("train-again", "training again", || m.params.clone().fit(&Dataset::new(m.x.clone(), m.y.clone())))?;
            ensure!(same_model(&m.moe, &m2, &q), "sparse-reproducible", "training again with the same seed gives another model: {} and {m2}", m.moe);
        }
        Ok(())
    });
    // tuning honoured
    ctx.cases("tuning", ctx.n(600, 8000), ctx.n(15, 150) as f64, nthreads(), |c| {
        let Some(m) = mbuild(c, 1, 3, 0.25, true)? else { return Ok(()) };
        let v = m.params.clone().check().unwrap();
        let tt = v.theta_tunings();
        for (i, e) in m.moe.experts().iter().enumerate() {
            let t = if tt.len() == 1 { &tt[0] } else { &tt[i] };
            match t {
                ThetaTuning::Fixed(th) => {
                    ensure!(e.theta().len() == th.len() && e.theta().iter().zip(th).all(|(a, b)| (a - b).abs() <= 1e-12 * b), "fixed", "expert {i} has theta {} instead of {th}", e.theta());
                    c.count("fixed", 1);
                }
                ThetaTuning::Full { bounds, .. } => {
                    for th in e.theta() {
                        let (lo, hi) = bounds[0];
                        ensure!(*th >= lo * (1. - 1e-9) && *th <= hi * (1. + 1e-9), "bounds", "expert {i} has theta {} outside {lo} {hi}", e.theta());
                    }
                    c.count("bounded", 1);
                }
                _ => {}
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C12

pub fn scratch(ctx: &Ctx, name: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("vp-{}-{name}-{}", ctx.prop, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Structural equality of serialised states, numbers up to one unit in the last place
pub fn same_value(a: &serde_json::Value, b: &serde_json::Value, exact: bool, path: &str) -> Res {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            if x == y {
                return Ok(());
            }
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            ensure!(if exact { x == y } else { (x - y).abs() <= 9e-16 * x.abs() + 1e-320 }, "state", "{path}: {x:e} became {y:e}");
            Ok(())
        }
        (Array(x), Array(y)) => {
            ensure!(x.len() == y.len(), "state", "{path}: length {} became {}", x.len(), y.len());
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                same_value(p, q, exact, &format!("{path}[{i}]"))?;
            }
            Ok(())
        }
        (Object(x), Object(y)) => {
            ensure!(x.keys().eq(y.keys()), "state", "{path}: keys differ");
            for (k, p) in x {
                same_value(p, &y[k], exact, &format!("{path}.{k}"))?;
            }
            Ok(())
        }
        _ => {
            ensure!(a == b, "state", "{path}: {a} became {b}");
            Ok(())
        }
    }
}

pub fn gp_same(a: &dyn GpSurrogate, b: &dyn GpSurrogate, q: &Array2<f64>, exact: bool, ys: f64, gmax: f64, vtot: f64) -> Res {
    ensure!(a.dims() == b.dims(), "dims", "{:?} became {:?}", a.dims(), b.dims());
    ensure!(!exact || a.to_string() == b.to_string(), "display", "{a} became {b}");
    let v = q.view();
    let (p, r) = (a.predict(&v).unwrap(), must_ok("loaded-predict", "predicting with the loaded model", || b.predict(&v))?);
    let (pv, rv) = (a.predict_var(&v).unwrap(), must_ok("loaded-var", "predicting with the loaded model", || b.predict_var(&v))?);
    for i in 0..q.nrows() {
        // even with equal states, memory layouts (hence the order of sums) may differ
        let t = 1e-9 * (ys + p[i].abs()) + if exact { 1e-14 } else { 1e-13 } * gmax * (ys + vtot);
        ensure!(close(p[i], r[i], t), "prediction", "prediction {} became {} at {}", p[i], r[i], q.row(i));
        // the state itself is compared: only the effect of last digits on ill-conditioned correlations is tolerated here
        let t = if exact { 1e-6 * (ys * ys + pv[i]) + 1e-4 * vtot } else { 1e-4 * (ys * ys + pv[i]) + 0.1 * vtot };
        ensure!(close(pv[i], rv[i], t), "variance", "variance {} became {} at {}", pv[i], rv[i], q.row(i));
    }
    Ok(())
}

/// Largest weight of the predictor, governs how last-digit changes spread
pub fn gamma_max(v: &serde_json::Value) -> f64 {
    fn all(v: &serde_json::Value) -> f64 {
        match v {
            serde_json::Value::Number(n) => n.as_f64().unwrap_or(0.).abs(),
            serde_json::Value::Array(a) => a.iter().map(all).fold(0., f64::max),
            serde_json::Value::Object(o) => o.values().map(all).fold(0., f64::max),
            _ => 0.,
        }
    }
    match v {
        serde_json::Value::Object(o) => o.iter().map(|(k, v)| if ["gamma", "beta", "vec", "inv"].contains(&k.as_str()) { all(v) } else { gamma_max(v) }).fold(0., f64::max),
        serde_json::Value::Array(a) => a.iter().map(gamma_max).fold(0., f64::max),
        _ => 0.,
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("Trained mixtures (full and sparse experts, 1..3 clusters, every kernel, trend, projection, recombination, degenerate outputs), their experts, and mixed-integer mixtures saved and loaded in both formats: state, predictions, derivatives and re-saved bytes compared; files truncated at random and boundary positions, damaged (JSON) or read in the wrong format must give errors. Non-trivial: trained model.");
    let dir = scratch(ctx, "files");
    let dir = &dir;
    ctx.cases("mixture", ctx.n(1500, 20000), ctx.n(25, 250) as f64, nthreads(), |c| {
        let flat = c.b(0.05);
        let Some(mut m) = mbuild(c, 1, 3, 0.3, true)? else { return Ok(()) };
        if flat {
            // constant outputs
            let y = Array1::from_elem(m.y.len(), c.u(-3., 3.));
            c.describe("constant outputs");
            match must("train", "training on constant outputs", || m.params.clone().fit(&Dataset::new(m.x.clone(), y.clone())))? {
                Ok(moe) => {
                    m.moe = moe;
                    m.y = y;
                }
                Err(_) => return Ok(()),
            }
        }
        let ys = std1(&m.y.to_vec()).max(1e-300);
        let q = query(c, &m.x, 5);
        let st = serde_json::to_value(&m.moe).map_err(|e| Fail { sig: "serialise".into(), msg: e.to_string() })?;
        let gmax = gamma_max(&st);
        let vtot = m.moe.experts().iter().map(|e| e.variance()).fold(0f64, f64::max);
        for fmt in [GpFileFormat::Json, GpFileFormat::Binary] {
            let exact = matches!(fmt, GpFileFormat::Binary);
            let again = || if exact { GpFileFormat::Binary } else { GpFileFormat::Json };
            let other = || if exact { GpFileFormat::Json } else { GpFileFormat::Binary };
            let path = dir.join(format!("m{}-{exact}", c.idx));
            let ps = path.to_str().unwrap();
            must_ok("save", "saving a mixture", || m.moe.save(ps, again()))?;
            let bytes = std::fs::read(&path).unwrap();
            let l = must_ok("load", "loading a mixture", || GpMixture::load(ps, again()))?;
            let st2 = serde_json::to_value(&l).unwrap();
            same_value(&st, &st2, exact, "")?;
            gp_same(&m.moe, l.as_ref(), &q, exact, ys, gmax, vtot)?;
            let rc = match (l.recombination(), m.moe.recombination()) {
                (Recombination::Smooth(Some(a)), Recombination::Smooth(Some(b))) => (a - b).abs() <= if exact { 0. } else { 9e-16 * b },
                (a, b) => a == b,
            };
            ensure!(l.n_clusters() == m.moe.n_clusters() && rc, "metadata", "clusters or recombination changed: {:?} {:?}", l.recombination(), m.moe.recombination());
            for (a, b) in m.moe.experts().iter().zip(l.experts()) {
                ensure!(!exact || (a.theta() == b.theta() && a.variance().to_bits() == b.variance().to_bits() && a.likelihood().to_bits() == b.likelihood().to_bits() && a.noise_variance() == b.noise_variance()), "hyperparameters", "{a} became {b}");
            }
            if exact {
                let (g1, g2) = (m.moe.predict_gradients(&q).unwrap(), l.predict_gradients(&q).unwrap());
                let th = m.moe.experts().iter().flat_map(|e| e.theta().to_vec()).fold(1f64, f64::max);
                let sx = (0..q.ncols()).map(|j| std1(&m.x.column(j).to_vec())).fold(f64::MAX, f64::min).max(1e-300);
                let mx = |g: &Array2<f64>| g.iter().fold(0f64, |a, v| a.max(v.abs()));
                let tg = 1e-8 * mx(&g1) + (1e-12 + 1e-14 * gmax) * ys * th / sx;
                ensure!(g1.iter().zip(&g2).all(|(a, b)| close(*a, *b, tg)), "gradients", "gradients changed: {g1} {g2}");
                let (g1, g2) = (m.moe.predict_var_gradients(&q).unwrap(), l.predict_var_gradients(&q).unwrap());
                let tv = 1e-5 * mx(&g1) + 1e-6 * ys * ys * th / sx;
                ensure!(g1.iter().zip(&g2).all(|(a, b)| close(*a, *b, tv)), "var-gradients", "variance gradients changed: {g1} {g2}");
                // save again
                l.save(ps, again()).unwrap();
                ensure!(std::fs::read(&path).unwrap() == bytes, "resave", "saving the loaded model gives other bytes");
            }
            // truncated files
            for cut in [0, 1, bytes.len() / 2, bytes.len() - 1, c.i(0, bytes.len() - 1), c.i(0, bytes.len() - 1)] {
                std::fs::write(&path, &bytes[..cut]).unwrap();
                let r = must("load-truncated", "loading a truncated file", || GpMixture::load(ps, again()).is_ok())?;
                ensure!(!r, "truncated", "file truncated at {cut} of {} was loaded", bytes.len());
                c.count("truncated files", 1);
            }
            if !exact {
                let mut b = bytes.clone();
                for _ in 0..c.i(1, 3) {
                    let i = c.i(0, b.len() - 1);
                    b[i] = c.rng.gen();
                }
                std::fs::write(&path, &b).unwrap();
                let _ = must("load-damaged", "loading a damaged file", || GpMixture::load(ps, again()).is_ok())?;
                c.count("damaged files", 1);
            }
            std::fs::write(&path, &bytes).unwrap();
            let r = must("load-wrong", "loading with the wrong format", || GpMixture::load(ps, other()).is_ok())?;
            ensure!(!r, "wrong-format", "loaded with the wrong format");
            // experts
            let e = &m.moe.experts()[c.i(0, m.k - 1)];
            must_ok("save-expert", "saving an expert", || e.save(ps, again()))?;
            let l = must_ok("load-expert", "loading an expert", || load(ps, again()))?;
            let bytes = std::fs::read(&path).unwrap();
            gp_same(e.as_gp(), l.as_ref(), &q, exact, ys, gmax, vtot)?;
            let cut = c.i(0, bytes.len() - 1);
            std::fs::write(&path, &bytes[..cut]).unwrap();
            let r = must("load-truncated", "loading a truncated file", || load(ps, again()).is_ok())?;
            ensure!(!r, "truncated", "expert file truncated at {cut} of {} was loaded", bytes.len());
            std::fs::remove_file(&path).unwrap();
            let r = must("load-missing", "loading a missing file", || load(ps, again()).is_ok() || GpMixture::load(ps, again()).is_ok())?;
            ensure!(!r, "missing", "missing file loaded");
            c.count(if m.sparse { "sparse" } else { "full" }, 1);
        }
        let nodir = dir.join("absent").join("m");
        let r = must("save-nodir", "saving in a missing directory", || m.moe.save(nodir.to_str().unwrap(), GpFileFormat::Json).is_ok())?;
        ensure!(!r, "save-nodir", "saved in a missing directory");
        let e = &m.moe.experts()[0];
        let r = must("save-nodir", "saving an expert in a missing directory", || e.save(nodir.to_str().unwrap(), GpFileFormat::Binary).is_ok())?;
        ensure!(!r, "save-nodir", "saved in a missing directory");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(dir);
}

trait AsGp {
    fn as_gp(&self) -> &dyn GpSurrogate;
}
impl AsGp for Box<dyn FullGpSurrogate> {
    fn as_gp(&self) -> &dyn GpSurrogate {
        self.as_ref()
    }
}
