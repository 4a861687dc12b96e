//! C05..C10: Gaussian processes.
use crate::data::*;
use crate::ensure;
use crate::fw::*;
use crate::gpref::*;
use crate::la::*;
use egobox_gp::ThetaTuning;
use ndarray::{Array1, Array2, Axis};
use ndarray_rand::rand::Rng;

fn rand_spec(c: &mut Case, d: usize, n: usize) -> Spec {
    let mut mk = *c.pick(&MEANS);
    while nbasis(mk, d) + 1 > n {
        mk = if mk == MeanK::Quadratic { MeanK::Linear } else { MeanK::Constant };
    }
    Spec::new(mk, *c.pick(&CORRS))
}
fn rand_theta(c: &mut Case, h: usize, ck: CorrK) -> Vec<f64> {
    let (lo, hi) = match ck {
        CorrK::SquaredExp => (0.8, 8.),
        CorrK::AbsExp => (0.05, 8.),
        CorrK::Matern32 => (0.15, 6.),
        CorrK::Matern52 => (0.3, 6.),
    };
    (0..h).map(|_| (c.u(f64::ln(lo), f64::ln(hi))).exp()).collect()
}

pub struct Model {
    pub x: Array2<f64>,
    pub y: Array1<f64>,
    pub spec: Spec,
    pub gp: Box<dyn AnyGp>,
    pub rf: RefGp,
}

/// A trained model and its reference; None when the reference says the system is too ill-conditioned to compare.
fn build(c: &mut Case, tuned: bool, kpls_p: f64, maxcond: f64) -> Result<Option<Model>, Fail> {
    let d = c.i(1, 5);
    let n = c.i((d + 3).max(5), 24);
    let (x, xs) = rand_x(c, n, d);
    let (y, ys) = rand_y(c, &x);
    let mut s = rand_spec(c, d, n);
    if c.b(0.3) {
        s.nugget = Some(10f64.powf(c.u(-12., -2.)));
    }
    if d > 1 && c.b(kpls_p) {
        s.kpls = Some(c.i(1, d - 1));
    }
    let h = s.kpls.unwrap_or(d);
    if !tuned {
        let th = rand_theta(c, h, s.ck);
        s = s.fixed(&th);
    } else if c.b(0.5) {
        s.n_start = Some(*c.pick(&[0usize, 2, 4]));
    }
    c.describe(format!("n={n} d={d} x={xs} y={ys} spec={s:?} x0={} y0={}", x.row(0), y[0]));
    let w = match s.kpls {
        Some(h) => match pls_w(&x, &y, h) {
            Some(w) => w,
            None => {
                c.key = 0;
                return Ok(None);
            }
        },
        None => eye(d),
    };
    let gp = must("fit", &format!("training {s:?}"), || fit(&s, &x, &y))?;
    let th0: Vec<f64> = match (&s.tuning, &gp) {
        (Some(ThetaTuning::Fixed(t)), _) => t.to_vec(),
        (_, Ok(g)) => g.theta(),
        _ => vec![],
    };
    let rf = if th0.is_empty() {
        None
    } else {
        RefGp::new(&x, &y, s.mk, s.ck, &th0, w, s.nug())
    };
    let gp = match gp {
        Ok(g) => g,
        Err(e) => {
            // refusing an ill-conditioned problem is legitimate
            if let Some(r) = &rf {
                ensure!(
                    r.cond > 1e11 || r.cond_a > 1e13,
                    "fit-error",
                    "training fails on a well-conditioned problem (cond {:.1e}, {:.1e}): {e}",
                    r.cond,
                    r.cond_a
                );
            }
            c.key = 0;
            c.count("refused (ill-conditioned)", 1);
            return Ok(None);
        }
    };
    match rf {
        Some(r) if r.cond <= maxcond && r.cond_a <= 1e10 => Ok(Some(Model {
            x,
            y,
            spec: s,
            gp,
            rf: r,
        })),
        _ => {
            c.key = 0;
            c.count("skipped (ill-conditioned)", 1);
            Ok(None)
        }
    }
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol || (a == b)
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("Random data sets (5 input styles, 5 output styles, units from 1e-6 to 1e7), every trend x kernel, fixed and tuned hyperparameters, nuggets, dimension reduction; 8 query points at, near and far from the data. A case is non-trivial when the kernel matrix is well enough conditioned (<1e10) for the reference to decide; others are counted as skipped.");
    let go = |c: &mut Case, tuned: bool| -> Res {
        let Some(m) = build(c, tuned, 0.25, 1e10)? else {
            return Ok(());
        };
        compare(c, &m)
    };
    // every trend x kernel x dimension reduction is reached by many cases
    ctx.cases("fixed", ctx.n(60000, 600000), ctx.n(15, 300) as f64, nthreads(), |c| go(c, false));
    ctx.cases("tuned", ctx.n(600, 8000), ctx.n(15, 300) as f64, nthreads(), |c| go(c, true));
}

fn compare(c: &mut Case, m: &Model) -> Res {
    let (rf, gp) = (&m.rf, &m.gp);
    let tag = match (m.spec.ck, m.spec.kpls.is_some()) {
        (CorrK::SquaredExp, false) => "SquaredExp models",
        (CorrK::AbsExp, false) => "AbsExp models",
        (CorrK::Matern32, false) => "Matern32 models",
        (CorrK::Matern52, false) => "Matern52 models",
        _ => "reduced-dimension models",
    };
    c.count(tag, 1);
    c.count(
        match m.spec.mk {
            MeanK::Constant => "constant trends",
            MeanK::Linear => "linear trends",
            MeanK::Quadratic => "quadratic trends",
        },
        1,
    );
    let q = query(c, &m.x, 8);
    let (nx, _) = (m.x.ncols(), 0);
    ensure!(gp.dims() == (nx, 1), "dims", "dims {:?}", gp.dims());
    let p = must("predict", "predict", || gp.predict(&q))?;
    let v = must("predict_var", "predict_var", || gp.var(&q))?;
    let (p2, v2) = must("predict_valvar", "predict_valvar", || gp.valvar(&q))?;
    let p3 = must("predict", "Predict trait", || gp.linfa_predict(&q))?;
    ensure!(p.len() == 8 && v.len() == 8 && p2.len() == 8 && v2.len() == 8, "length", "{} {} {} {}", p.len(), v.len(), p2.len(), v2.len());
    let t = 1e-12 + 20. * rf.tol();
    // a numerically vanishing residual makes the variance and likelihood round-off: relative to y'R^-1y
    let s2floor = 1e-13 * rf.ys * rf.ys * rf.cond.sqrt().max(1.);
    let s2tol = 100. * t * rf.sigma2 + s2floor;
    ensure!(
        close(gp.variance(), rf.sigma2, s2tol),
        "variance",
        "process variance {} reference {} (cond {:.1e})",
        gp.variance(),
        rf.sigma2,
        rf.cond
    );
    if rf.sigma2 > 1e4 * s2floor {
        let n = m.x.nrows() as f64;
        ensure!(
            close(gp.lkh(), rf.lkh, n * (1e-9 + 100. * t + 10. * s2floor / rf.sigma2)),
            "likelihood",
            "likelihood {} reference {} (cond {:.1e})",
            gp.lkh(),
            rf.lkh,
            rf.cond
        );
    }
    for i in 0..8 {
        let qi = row(&q, i);
        let (pr, nv, mag) = rf.predict(&qi);
        let tol = 10. * t * mag;
        ensure!(close(p[i], pr, tol), "mean", "prediction {} reference {pr} at {qi:?} (tol {tol:.1e}, cond {:.1e})", p[i], rf.cond);
        let far = basis(rf.mk, &rf.norm(&qi)).iter().fold(1f64, |a, b| a.max(b.abs()));
        let vtol = 100. * t * (1. + far * far) + 1e-12;
        let vr = nv.max(0.);
        ensure!(
            close(v[i], vr * gp.variance(), gp.variance() * (vtol + (1e-7 + 1e3 * t) * vr)),
            "var",
            "variance {} reference {} (normalised {vr}) at {qi:?} (cond {:.1e})",
            v[i],
            vr * gp.variance(),
            rf.cond
        );
        ensure!(v[i] >= 0., "var-negative", "variance {}", v[i]);
        let s = 1e-9 * mag + 1e-300;
        ensure!(close(p2[i], p[i], tol.min(s)), "valvar-mean", "combined {} vs {}", p2[i], p[i]);
        ensure!(close(v2[i], v[i], gp.variance() * vtol), "valvar-var", "combined {} vs {}", v2[i], v[i]);
        ensure!(p3[i] == p[i], "predict-trait", "{} vs {}", p3[i], p[i]);
        let o = one(&qi);
        ensure!(close(gp.predict(&o)[0], p[i], tol.min(s)), "single-mean", "single {} vs batch {}", gp.predict(&o)[0], p[i]);
        ensure!(close(gp.var(&o)[0], v[i], gp.variance() * vtol), "single-var", "single {} vs batch {}", gp.var(&o)[0], v[i]);
        let (a, b) = gp.valvar(&o);
        ensure!(close(a[0], p[i], tol.min(s)) && close(b[0], v[i], gp.variance() * vtol), "single-valvar", "single {a} {b} vs batch {} {}", p[i], v[i]);
    }
    c.count("points compared", 8);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("Random data sets incl. constant outputs, clustered and badly scaled inputs; every trend x kernel with default nugget, fixed and tuned. Checks at training points, on hostile query points, far away, and after adding an observation. Non-trivial: a model was trained.");
    let go = |c: &mut Case, tuned: bool| -> Res {
        let d = c.i(1, 5);
        let n = c.i((d + 3).max(5), 25);
        let (x, xs) = rand_x(c, n, d);
        let (mut y, ys) = rand_y(c, &x);
        let constant = c.b(0.05);
        if constant {
            y.fill(y[0]);
        }
        let mut s = rand_spec(c, d, n);
        if d > 1 && c.b(0.1) {
            s.kpls = Some(c.i(1, d - 1));
        }
        let h = s.kpls.unwrap_or(d);
        if !tuned {
            let th: Vec<f64> = if c.b(0.7) {
                rand_theta(c, h, s.ck)
            } else {
                (0..h).map(|_| 10f64.powf(c.u(-2., 1.3))).collect()
            };
            s = s.fixed(&th);
        }
        c.describe(format!("n={n} d={d} x={xs} y={ys} const={constant} spec={s:?} x0={} y0={}", x.row(0), y[0]));
        let gp = match must("fit", "training", || fit(&s, &x, &y))? {
            Ok(g) => g,
            Err(_) => {
                c.key = 0;
                c.count("refused", 1);
                return Ok(());
            }
        };
        let w = match s.kpls {
            Some(h) => match pls_w(&x, &y, h) {
                Some(w) => w,
                None => return Ok(()),
            },
            None => eye(d),
        };
        let th = gp.theta();
        let rf = RefGp::new(&x, &y, s.mk, s.ck, &th, w, s.nug());
        // 1. hostile points: finite and non-negative
        let mut q = query(c, &x, 10);
        for i in 8..10 {
            for j in 0..d {
                q[[i, j]] = x[[0, j]] + (x[[n - 1, j]] - x[[0, j]] + 1e-3) * c.u(-1e4, 1e4);
            }
        }
        let p = must("predict", "predict", || gp.predict(&q))?;
        let v = must("var", "predict_var", || gp.var(&q))?;
        let (p2, v2) = must("valvar", "predict_valvar", || gp.valvar(&q))?;
        ensure!(p.iter().chain(p2.iter()).all(|a| a.is_finite()), "nonfinite-mean", "{p} {p2}");
        ensure!(v.iter().chain(v2.iter()).all(|a| a.is_finite() && *a >= 0.), "bad-var", "{v} {v2}");
        c.count("hostile points", 10);
        // 2. interpolation
        let pt = gp.predict(&x);
        let vt = gp.var(&x);
        let ystd = { let s = std1(&y.to_vec()); if s == 0. { 1. } else { s } };
        let ymag = y.iter().fold(0f64, |a, b| a.max(b.abs()));
        // repeated rows cannot be interpolated separately
        let dup = (0..n).any(|i| (0..i).any(|j| (0..d).all(|k| (x[[i, k]] - x[[j, k]]).abs() <= 1e-9 * (x[[i, k]].abs() + x[[j, k]].abs()))));
        let sing = s.kpls.is_some(); // reduced directions may merge points
        if let Some(rf) = &rf {
            let g1: f64 = rf.gamma.iter().map(|g| g.abs()).sum();
            let b1: f64 = rf.beta.iter().map(|g| g.abs()).sum();
            let tol = ystd * (1e-8 + 1e3 * (s.nug() + 1e-15 * n as f64) * (g1 + b1)) + 1e-12 * ymag;
            if tol < 0.05 * ystd {
                for i in 0..n {
                    ensure!((pt[i] - y[i]).abs() <= tol, "interpolation", "training output {} predicted {} (tol {tol:.1e}, cond {:.1e} {:.1e} trend {:?})", y[i], pt[i], rf.cond, rf.cond_a, rf.beta);
                }
                c.count("interpolated points", n as u64);
            }
            if rf.cond < 1e13 && rf.cond_a < 1e12 {
                for i in 0..n {
                    ensure!(vt[i] <= gp.variance() * (1e-9 + 1e-13 * rf.cond.min(1e9) + 100. * s.nug()), "training-variance", "normalised variance {} at training point {i} (cond {:.1e})", vt[i] / gp.variance(), rf.cond);
                }
            }
        } else {
            c.count("no reference", 1);
        }
        let _ = (dup, sing);
        if constant {
            for i in 0..10 {
                ensure!((p[i] - y[0]).abs() <= 1e-6 * (1. + y[0].abs()), "constant-output", "constant data {} predicted {}", y[0], p[i]);
            }
        }
        let Some(rf) = rf else { return Ok(()) };
        if rf.cond > 1e9 || rf.cond_a > 1e9 {
            return Ok(());
        }
        // 3. far away: kernel underflows, trend and prior remain
        if s.kpls.is_none() {
            let mut far = vec![0.; d];
            let r = 1e4;
            for j in 0..d {
                far[j] = rf.xm[j] + rf.xs[j] * r * if c.b(0.5) { 1. } else { -1. };
            }
            let kmax = rf.k(&rf.norm(&far)).iter().fold(0f64, |a, b| a.max(*b));
            if kmax < 1e-30 {
                let f = basis(rf.mk, &rf.norm(&far));
                let mean = rf.ym + rf.ys * dot(&f, &rf.beta);
                let mag = rf.ym.abs() + rf.ys * f.iter().zip(&rf.beta).map(|(a, b)| (a * b).abs()).sum::<f64>();
                let u = rf.la.fsub(&f);
                let nv = 1. + dot(&u, &u);
                let t = 1e-9 + 100. * rf.tol();
                let (pf, vf) = (gp.predict(&one(&far))[0], gp.var(&one(&far))[0]);
                ensure!((pf - mean).abs() <= t * mag, "far-mean", "far mean {pf}, trend {mean}");
                ensure!((vf - gp.variance() * nv).abs() <= gp.variance() * nv * t * 10., "far-var", "far variance {vf}, prior+trend {}", gp.variance() * nv);
                c.count("far points", 1);
            }
        }
        // variance bounded by prior + trend part everywhere
        for i in 0..8 {
            let qi = row(&q, i);
            let f = basis(rf.mk, &rf.norm(&qi));
            let k = rf.k(&rf.norm(&qi));
            let t = rf.kif.tmulv(&k);
            let u: Vec<f64> = rf.la.fsub(&f.iter().zip(&t).map(|(a, b)| a - b).collect::<Vec<_>>());
            let bound = 1. + dot(&u, &u);
            ensure!(v[i] <= gp.variance() * bound * (1. + 1e-6 + 1e3 * rf.tol()), "var-bound", "normalised variance {} above {bound}", v[i] / gp.variance());
        }
        // 4. more data, less (normalised) uncertainty, at the same absolute length scales
        if !constant && s.kpls.is_none() {
            let z = query(c, &x, 1);
            let mut x2 = x.clone();
            x2.push_row(z.row(0)).unwrap();
            let mut y2 = y.to_vec();
            y2.push(c.u(-1., 1.) * ystd + y[0]);
            let y2 = Array1::from_vec(y2);
            let th_full: Vec<f64> = if th.len() == 1 { vec![th[0]; d] } else { th.clone() };
            let th2: Vec<f64> = (0..d)
                .map(|j| {
                    let s2 = std1(&x2.column(j).to_vec());
                    th_full[j] * if s2 == 0. { 1. } else { s2 } / rf.xs[j]
                })
                .collect();
            let s2 = s.clone().fixed(&th2);
            if let (Ok(Ok(g2)), Some(r2)) = (guard(|| fit(&s2, &x2, &y2)), RefGp::new(&x2, &y2, s.mk, s.ck, &th2, eye(d), s.nug())) {
                if r2.cond < 1e10 && r2.cond_a < 1e9 && gp.variance() > 0. && g2.variance() > 0. {
                    let vb = g2.var(&q);
                    for i in 0..8 {
                        let (a, b) = (v[i] / gp.variance(), vb[i] / g2.variance());
                        ensure!(b <= a * (1. + 1e-6) + 1e-9 + 1e3 * (r2.tol() + rf.tol()) * (1. + a), "var-grows", "normalised variance grew from {a} to {b} after adding an observation");
                    }
                    c.count("augmented models", 1);
                }
            }
        }
        Ok(())
    };
    ctx.cases("fixed", ctx.n(25000, 300000), ctx.n(15, 300) as f64, nthreads(), |c| go(c, false));
    ctx.cases("tuned", ctx.n(600, 8000), ctx.n(15, 300) as f64, nthreads(), |c| go(c, true));
    // degenerate data
    ctx.cases("degenerate", ctx.n(400, 4000), 30., nthreads(), |c| {
        let d = c.i(1, 3);
        let n = c.i(6, 14);
        let (mut x, _) = rand_x(c, n, d);
        let (mut y, _) = rand_y(c, &x);
        let kind = c.i(0, 2);
        match kind {
            0 => {
                // an exactly repeated observation
                for j in 0..d {
                    x[[1, j]] = x[[0, j]];
                }
                y[1] = y[0];
            }
            1 => x.column_mut(d - 1).fill(3.5), // a constant input
            _ => y.fill(-2.25),
        }
        let s = rand_spec(c, d, n);
        c.describe(format!("degenerate kind={kind} n={n} d={d} {s:?} x0={}", x.row(0)));
        if let Ok(g) = must("fit", "training", || fit(&s, &x, &y))? {
            let q = query(c, &x, 6);
            let (p, v) = must("valvar", "predict", || g.valvar(&q))?;
            ensure!(p.iter().all(|a| a.is_finite()), "nonfinite-mean", "{p}");
            ensure!(v.iter().all(|a| a.is_finite() && *a >= 0.), "bad-var", "{v}");
            c.count("degenerate models", 1);
            if kind == 2 {
                ensure!(p.iter().all(|a| (a + 2.25).abs() < 1e-6), "constant-output", "{p}");
            }
        } else {
            c.count("refused", 1);
        }
        Ok(())
    });
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|a| a.to_bits()).collect()
}
fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("Random tuning contracts: fixed / full / partial (unordered active sets), scalar or per-component guesses and bounds, guesses on or inside the bounds, 0..12 starts, evaluation budgets 1..100, dimension reduction; repeated on pools of 1, 2 and 8 threads. Non-trivial: a model was trained.");
    ctx.cases("tuning", ctx.n(12000, 120000), ctx.n(30, 400) as f64, nthreads(), |c| {
        let d = c.i(1, 5);
        let n = c.i((d + 3).max(6), 18);
        let (x, xs) = rand_x(c, n, d);
        let (y, ys) = rand_y(c, &x);
        let mut s = rand_spec(c, d, n);
        if s.mk == MeanK::Quadratic && c.b(0.7) {
            s.mk = MeanK::Constant;
        }
        if d > 1 && c.b(0.3) {
            s.kpls = Some(c.i(1, d));
        }
        let h = s.kpls.unwrap_or(d);
        let scalar_b = c.b(0.4);
        let nb = if scalar_b { 1 } else { h };
        let bounds: Vec<(f64, f64)> = (0..nb)
            .map(|_| {
                let lo = 10f64.powf(c.u(-2.5, 0.5));
                (lo, lo * 10f64.powf(c.u(0.1, 2.5)))
            })
            .collect();
        let ni = if c.b(0.4) { 1 } else { h };
        let init: Vec<f64> = (0..ni)
            .map(|j| {
                let (lo, hi) = if ni == 1 {
                    // common part of all bounds, or the first one
                    bounds[0]
                } else {
                    bounds[j.min(nb - 1)]
                };
                match c.i(0, 4) {
                    0 => lo,
                    1 => hi,
                    _ => c.u(lo.ln(), hi.ln()).exp().clamp(lo, hi),
                }
            })
            .collect();
        let mode = c.i(0, 3);
        let mut active: Vec<usize> = (0..h).filter(|_| c.b(0.6)).collect();
        if active.is_empty() {
            active.push(c.i(0, h - 1));
        }
        for i in (1..active.len()).rev() {
            let k = c.i(0, i);
            active.swap(i, k);
        }
        let ia = Array1::from_vec(init.clone());
        let ba = Array1::from_vec(bounds.clone());
        let tuning = match mode {
            0 => ThetaTuning::Fixed(ia.clone()),
            1 | 2 => ThetaTuning::Full { init: ia.clone(), bounds: ba.clone() },
            _ => ThetaTuning::Partial { init: ia.clone(), bounds: ba.clone(), active: active.clone() },
        };
        s.tuning = Some(tuning);
        s.n_start = Some(*c.pick(&[0, 0, 1, 2, 3, 5, 10]));
        s.max_eval = Some(*c.pick(&[1, 10, 25, 50, 100]));
        c.describe(format!("n={n} d={d} x={xs} y={ys} {s:?} x0={}", x.row(0)));
        c.count(["fixed tunings", "full tunings", "full tunings", "partial tunings"][mode], 1);
        let gp = match must("fit", "training", || fit(&s, &x, &y))? {
            Ok(g) => g,
            Err(_) => {
                c.key = 0;
                c.count("refused", 1);
                return Ok(());
            }
        };
        let th = gp.theta();
        ensure!(th.len() == h, "theta-length", "{} hyperparameters for (reduced) dimension {h}", th.len());
        ensure!(gp.kpls() == if h < d { Some(h) } else { None }, "kpls-dim", "kpls_dim {:?} asked {:?} of {d}", gp.kpls(), s.kpls);
        let full_init: Vec<f64> = (0..h).map(|j| init[if ni == 1 { 0 } else { j }]).collect();
        let bnd = |j: usize| bounds[if nb == 1 { 0 } else { j }];
        let is_active = |j: usize| mode == 1 || mode == 2 || (mode == 3 && active.contains(&j));
        for j in 0..h {
            if is_active(j) {
                let (lo, hi) = bnd(j);
                ensure!(th[j] >= lo * (1. - 1e-9) && th[j] <= hi * (1. + 1e-9), "theta-bounds", "theta[{j}]={} outside [{lo},{hi}]", th[j]);
            } else {
                ensure!(th[j].to_bits() == full_init[j].to_bits(), "theta-fixed", "theta[{j}]={} should stay {}", th[j], full_init[j]);
            }
        }
        // likelihood belongs to theta, and is at least that of the guess
        let mut sf = s.clone();
        sf.tuning = Some(ThetaTuning::Fixed(Array1::from_vec(th.clone())));
        if let Ok(g) = must("refit", "training at the reported theta", || fit(&sf, &x, &y))? {
            ensure!(g.lkh() == gp.lkh() || (g.lkh() - gp.lkh()).abs() <= 1e-8 * (1. + g.lkh().abs()), "lkh-theta", "likelihood {} but {} at the reported theta", gp.lkh(), g.lkh());
        } else {
            return fail("refit", "training at the reported theta is refused");
        }
        if mode != 0 && (0..h).all(|j| !is_active(j) || (full_init[j] >= bnd(j).0 && full_init[j] <= bnd(j).1)) {
            sf.tuning = Some(ThetaTuning::Fixed(Array1::from_vec(full_init.clone())));
            // likelihoods of nearly singular matrices are noise
            let w = match s.kpls { Some(h) => pls_w(&x, &y, h), None => Some(eye(d)) };
            let sane = w.and_then(|w| RefGp::new(&x, &y, s.mk, s.ck, &full_init, w, s.nug())).map_or(false, |r| r.cond < 1e9 && r.cond_a < 1e9);
            if let (true, Ok(Ok(g))) = (sane, guard(|| fit(&sf, &x, &y))) {
                ensure!(!g.lkh().is_finite() || gp.lkh() >= g.lkh() - 1e-6 * (1. + g.lkh().abs()), "lkh-worse", "tuned likelihood {} is worse than {} at the guess {full_init:?}", gp.lkh(), g.lkh());
                c.count("compared with the guess", 1);
            }
        }
        // reproducible whatever the number of threads (a single extra start is drawn at random by design)
        if s.n_start != Some(1) && c.idx % 4 == 0 {
            for t in [1, 2, 8] {
                let (s2, x2, y2) = (s.clone(), x.clone(), y.clone());
                let g = in_pool(t, move || fit(&s2, &x2, &y2)).map_err(|e| Fail { sig: "refit".into(), msg: e })?;
                ensure!(bits(&g.theta()) == bits(&th) && g.lkh().to_bits() == gp.lkh().to_bits() && g.variance().to_bits() == gp.variance().to_bits(),
                    "not-reproducible", "theta {:?} with {t} threads, {th:?} before", g.theta());
                let q = query(c, &x, 4);
                ensure!(bits(&g.predict(&q).to_vec()) == bits(&gp.predict(&q).to_vec()), "not-reproducible", "predictions differ with {t} threads");
            }
            c.count("twin trainings", 3);
        }
        Ok(())
    });
    // tuning reaches a good likelihood: close to the best of a wide random search
    ctx.cases("optimum", ctx.n(120, 2000), ctx.n(15, 200) as f64, nthreads(), |c| {
        let d = c.i(1, 2);
        let n = c.i(8, 16);
        let (x, _) = rand_x(c, n, d);
        let (y, _) = rand_y(c, &x);
        let mut s = Spec::new(MeanK::Constant, *c.pick(&CORRS));
        s.nugget = Some(1e-6);
        c.describe(format!("optimum n={n} d={d} {s:?} x0={} y0={}", x.row(0), y[0]));
        let Ok(g) = must("fit", "training", || fit(&s, &x, &y))? else { return Ok(()) };
        let mut best = f64::NEG_INFINITY;
        let mut all = vec![];
        for _ in 0..150 {
            let th: Vec<f64> = (0..d).map(|_| 10f64.powf(c.u(-2., 1.))).collect();
            if let Some(r) = RefGp::new(&x, &y, s.mk, s.ck, &th, eye(d), s.nug()) {
                best = best.max(r.lkh);
                all.push(r.lkh);
            }
        }
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let spread = best - all[all.len() / 2];
        // 10 local searches against 150 random points
        ensure!(g.lkh() >= best - 0.25 * spread - 0.05 * n as f64, "poor-optimum", "tuned likelihood {} while random search finds {best} (median {})", g.lkh(), all[all.len() / 2]);
        Ok(())
    });
}

/// Richardson-extrapolated central difference and its error estimate.
pub fn deriv(f: &dyn Fn(f64) -> f64, h: f64) -> (f64, f64) {
    let d = |h: f64| (f(h) - f(-h)) / (2. * h);
    let (a, b, e) = (d(h), d(h / 2.), d(h / 4.));
    let r1 = (4. * b - a) / 3.;
    let r2 = (4. * e - b) / 3.;
    (r2, (r2 - r1).abs())
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("Random models (every trend x kernel, with and without dimension reduction, fixed and tuned theta), query points inside, outside and near the data but away from kernel kinks; each gradient entry point compared with Richardson finite differences of the matching prediction. Non-trivial: model well-conditioned (<1e8).");
    let go = |c: &mut Case, tuned: bool| -> Res {
        let Some(m) = build(c, tuned, 0.35, 1e8)? else { return Ok(()) };
        let (rf, gp) = (&m.rf, &m.gp);
        let d = m.x.ncols();
        let q = {
            let mut q = query(c, &m.x, 4);
            // keep away from coordinates of training points, where kernels may have kinks
            for i in 0..4 {
                for j in 0..d {
                    let mut tries = 0;
                    while (0..m.x.nrows()).any(|r| (q[[i, j]] - m.x[[r, j]]).abs() < 0.012 * rf.xs[j]) && tries < 200 {
                        q[[i, j]] = rf.xm[j] + rf.xs[j] * c.u(-2.5, 2.5);
                        tries += 1;
                    }
                }
            }
            q
        };
        let g = must("grad", "predict_gradients", || gp.grad(&q))?;
        let vg = must("var_grad", "predict_var_gradients", || gp.var_grad(&q))?;
        let (g2, vg2) = must("valvar_grad", "predict_valvar_gradients", || gp.valvar_grad(&q))?;
        ensure!(g.dim() == (4, d) && vg.dim() == (4, d) && g2.dim() == (4, d) && vg2.dim() == (4, d), "shape", "{:?} {:?}", g.dim(), vg.dim());
        for i in 0..4 {
            let qi = row(&q, i);
            let (_, nv, mag) = rf.predict(&qi);
            let vg1 = must("var_grad1", "predict_var_gradients_single", || gp.var_grad1(q.row(i)))?;
            for j in 0..d {
                if (0..m.x.nrows()).any(|r| (qi[j] - m.x[[r, j]]).abs() < 0.012 * rf.xs[j]) {
                    continue;
                }
                let at = |h: f64| {
                    let mut z = qi.clone();
                    z[j] += h * rf.xs[j];
                    one(&z)
                };
                let h = 8e-3;
                let (fd, err) = deriv(&|t| gp.predict(&at(t))[0], h);
                let noise = 1e-15 * (rf.cond.min(1e6) + 10.) * mag / h * 8.;
                let (fd, err) = (fd / rf.xs[j], (20. * err + noise) / rf.xs[j]);
                let scale = mag / rf.xs[j];
                let tol = err + 1e-7 * scale;
                ensure!((g[[i, j]] - fd).abs() <= tol, "grad", "d/dx{j} mean {} finite differences {fd} (tol {tol:.1e}) at {qi:?}", g[[i, j]]);
                ensure!((g2[[i, j]] - g[[i, j]]).abs() <= 1e-9 * scale, "valvar-grad", "combined {} vs {}", g2[[i, j]], g[[i, j]]);
                let k = must("kth", "predict_kth_derivatives", || gp.kth(&q, j))?;
                ensure!(k.len() == 4, "shape", "kth derivative length {}", k.len());
                ensure!((k[i] - g[[i, j]]).abs() <= 1e-8 * scale, "kth-grad", "component derivative {} vs gradient {} (component {j})", k[i], g[[i, j]]);
                c.count("mean derivatives", 1);
                // variance: where it is not clamped
                if nv > 1e-5 {
                    let (fd, err) = deriv(&|t| gp.var(&at(t))[0], h);
                    let vs = gp.variance() * (1. + nv);
                    let noise = 1e-15 * (rf.cond.min(1e6) + 10.) * vs / h * 8.;
                    let tol = (20. * err + noise) / rf.xs[j] + 1e-6 * vs / rf.xs[j];
                    let fd = fd / rf.xs[j];
                    ensure!((vg[[i, j]] - fd).abs() <= tol, "var-grad", "d/dx{j} variance {} finite differences {fd} (tol {tol:.1e}) at {qi:?}", vg[[i, j]]);
                    let s = 1e-9 * vs / rf.xs[j];
                    ensure!((vg1[j] - vg[[i, j]]).abs() <= s, "var-grad-single", "{} vs {}", vg1[j], vg[[i, j]]);
                    ensure!((vg2[[i, j]] - vg[[i, j]]).abs() <= s, "valvar-var-grad", "{} vs {}", vg2[[i, j]], vg[[i, j]]);
                    c.count("variance derivatives", 1);
                }
            }
        }
        Ok(())
    };
    ctx.cases("fixed", ctx.n(25000, 250000), ctx.n(20, 300) as f64, nthreads(), |c| go(c, false));
    ctx.cases("tuned", ctx.n(300, 5000), ctx.n(15, 300) as f64, nthreads(), |c| go(c, true));
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("Random models at fixed hyperparameters and their transformed twins: input translation/scaling per component (1e-12..1e12), output translation/scaling, row permutation, column permutation with the hyperparameters; predictions, variances, gradients and likelihood compared; shuffled and split batches. Non-trivial: well-conditioned (<1e8).");
    ctx.cases("twins", ctx.n(40000, 400000), ctx.n(25, 300) as f64, nthreads(), |c| {
        let Some(m) = build(c, false, 0.2, 1e8)? else { return Ok(()) };
        let (n, d) = m.x.dim();
        let q = query(c, &m.x, 6);
        let (p, v) = m.gp.valvar(&q);
        let (g, vg) = m.gp.valvar_grad(&q);
        let th = m.gp.theta();
        let kind = c.i(0, 4);
        let mut x2 = m.x.clone();
        let mut y2 = m.y.clone();
        let mut q2 = q.clone();
        let mut th2 = th.clone();
        // y' = ay + b ; x'_j = sx_j x_j + bx_j
        let (mut a, mut b) = (1., 0.);
        let mut sx = vec![1.; d];
        let mut perm: Vec<usize> = (0..d).collect();
        let mut loss = 0f64; // digits lost by the shift itself
        let mut yloss = 0f64;
        match kind {
            0 => {
                for j in 0..d {
                    sx[j] = 10f64.powf(c.u(-12., 12.));
                    if c.b(0.2) { sx[j] = -sx[j]; }
                    let bx = if c.b(0.5) { 0. } else { c.u(-50., 50.) * m.rf.xs[j] * sx[j].abs() };
                    loss = loss.max((bx / sx[j]).abs() / m.rf.xs[j]);
                    loss = loss.max(m.rf.xm[j].abs() / m.rf.xs[j]);
                    x2.column_mut(j).mapv_inplace(|t| t * sx[j] + bx);
                    q2.column_mut(j).mapv_inplace(|t| t * sx[j] + bx);
                }
            }
            1 => {
                a = 10f64.powf(c.u(-12., 12.)) * if c.b(0.3) { -1. } else { 1. };
                b = if c.b(0.5) { 0. } else { c.u(-50., 50.) * m.rf.ys * a.abs() };
                yloss = (b / a).abs() / m.rf.ys + m.rf.ym.abs() / m.rf.ys;
                y2.mapv_inplace(|t| a * t + b);
            }
            2 => {
                let mut o: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    let k = c.i(0, i);
                    o.swap(i, k);
                }
                x2 = m.x.select(Axis(0), &o);
                y2 = m.y.select(Axis(0), &o);
            }
            3 => {
                for i in (1..d).rev() {
                    let k = c.i(0, i);
                    perm.swap(i, k);
                }
                x2 = m.x.select(Axis(1), &perm);
                q2 = q.select(Axis(1), &perm);
                if m.spec.kpls.is_none() && th.len() == d {
                    th2 = perm.iter().map(|j| th[*j]).collect();
                }
            }
            _ => {
                // batch order and splitting
                let mut o: Vec<usize> = (0..6).collect();
                for i in (1..6).rev() {
                    let k = c.i(0, i);
                    o.swap(i, k);
                }
                let qs = q.select(Axis(0), &o);
                let (ps, vs) = m.gp.valvar(&qs);
                let (gs, vgs) = m.gp.valvar_grad(&qs);
                for (k, i) in o.iter().enumerate() {
                    let (_, nv, mag) = m.rf.predict(&row(&q, *i));
                    let t = 1e-11;
                    ensure!((ps[k] - p[*i]).abs() <= t * mag, "batch-mean", "{} vs {}", ps[k], p[*i]);
                    ensure!((vs[k] - v[*i]).abs() <= t * m.gp.variance() * (1. + nv), "batch-var", "{} vs {}", vs[k], v[*i]);
                    for j in 0..d {
                        ensure!((gs[[k, j]] - g[[*i, j]]).abs() <= 1e-9 * mag / m.rf.xs[j], "batch-grad", "{} vs {}", gs[[k, j]], g[[*i, j]]);
                        ensure!((vgs[[k, j]] - vg[[*i, j]]).abs() <= 1e-9 * m.gp.variance() * (1. + nv.abs()) / m.rf.xs[j], "batch-vgrad", "{} vs {}", vgs[[k, j]], vg[[*i, j]]);
                    }
                }
                c.count("batch twins", 1);
                return Ok(());
            }
        }
        c.desc = format!("{} twin={kind}", c.desc);
        let mut s2 = m.spec.clone();
        s2 = s2.fixed(&th2);
        let g2 = match must("fit", "training the twin", || fit(&s2, &x2, &y2))? {
            Ok(g) => g,
            Err(e) => return fail("twin-refused", format!("twin {kind} refused: {e}")),
        };
        let (p2, v2) = g2.valvar(&q2);
        let (gr2, vg2) = g2.valvar_grad(&q2);
        let t = 1e-9 + 1e3 * m.rf.tol() * (1. + loss + yloss);
        if t > 1e-3 {
            c.key = 0;
            return Ok(());
        }
        let s2f = 1e-12 * (1. + yloss).powi(1) * m.rf.ys * m.rf.ys;
        ensure!((g2.variance() / (a * a) - m.gp.variance()).abs() <= t * 10. * m.gp.variance() + s2f, "twin-variance", "{} vs {}", g2.variance() / (a * a), m.gp.variance());
        if m.gp.variance() > 1e6 * s2f {
            ensure!((g2.lkh() - m.gp.lkh()).abs() <= n as f64 * (10. * t + 1e-6), "twin-lkh", "likelihood {} vs {}", g2.lkh(), m.gp.lkh());
        }
        for i in 0..6 {
            let (_, nv, mag) = m.rf.predict(&row(&q, i));
            ensure!(((p2[i] - b) / a - p[i]).abs() <= t * 10. * (mag + (b / a).abs()), "twin-mean", "kind {kind}: {} vs {}", (p2[i] - b) / a, p[i]);
            let vs = m.gp.variance() * (1. + nv.abs());
            ensure!((v2[i] / (a * a) - v[i]).abs() <= 100. * t * vs + s2f, "twin-var", "kind {kind}: {} vs {}", v2[i] / (a * a), v[i]);
            // kinks: compare gradients away from training coordinates
            for j in 0..d {
                let jj = perm[j];
                if (0..n).any(|r| (q[[i, jj]] - m.x[[r, jj]]).abs() < 1e-6 * m.rf.xs[jj] * (1. + loss)) {
                    continue;
                }
                let any_kink = (0..d).any(|k| (0..n).any(|r| (q[[i, k]] - m.x[[r, k]]).abs() < 1e-6 * m.rf.xs[k] * (1. + loss)));
                if any_kink && m.spec.kpls.is_some() {
                    continue;
                }
                let e = gr2[[i, j]] * sx[jj] / a;
                ensure!((e - g[[i, jj]]).abs() <= 100. * t * mag / m.rf.xs[jj], "twin-grad", "kind {kind}: {e} vs {}", g[[i, jj]]);
                let e = vg2[[i, j]] * sx[jj] / (a * a);
                ensure!((e - vg[[i, jj]]).abs() <= (1000. * t * vs + s2f) / m.rf.xs[jj], "twin-vgrad", "kind {kind}: {e} vs {}", vg[[i, jj]]);
            }
        }
        c.count("transformed twins", 1);
        Ok(())
    });
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("Random well-conditioned models in various units; a few thousand trajectories per sampling method on 2..5 points (some training points); empirical mean, covariance and normality of the projections compared with the reference posterior. Non-trivial: reference available.");
    ctx.cases("trajectories", ctx.n(20000, 300000), ctx.n(25, 300) as f64, nthreads(), |c| {
        let Some(m) = build(c, false, 0.15, 1e6)? else { return Ok(()) };
        let k = c.i(2, 5);
        let mut q = query(c, &m.x, k);
        for i in 0..k {
            // inside or moderately outside
            for j in 0..m.x.ncols() {
                q[[i, j]] = q[[i, j]].clamp(m.rf.xm[j] - 4. * m.rf.xs[j], m.rf.xm[j] + 4. * m.rf.xs[j]);
            }
        }
        let how = c.i(0, 2);
        let nt = 4000;
        let s2 = m.gp.variance();
        let cov = Mat::from_fn(k, k, |i, j| m.rf.ncov(&row(&q, i), &row(&q, j)));
        let ev = cov.eigvals();
        let evmax = ev[k - 1].max(1.);
        if how == 1 && ev[0] < 1e-7 {
            c.key = 0;
            return Ok(()); // Cholesky needs a definite matrix
        }
        if s2 <= 0. || !(s2 > 1e-250) || m.rf.sigma2 < 1e-12 * m.rf.ys * m.rf.ys {
            c.key = 0;
            return Ok(());
        }
        let t = must("sample", "sampling trajectories", || m.gp.sample(&q, nt, how))?;
        ensure!(t.dim() == (k, nt), "shape", "{:?}", t.dim());
        let mu: Vec<f64> = (0..k).map(|i| m.gp.predict(&one(&row(&q, i)))[0]).collect();
        let sg = s2.sqrt();
        // standardised deviations
        let z: Vec<Vec<f64>> = (0..k).map(|i| (0..nt).map(|r| (t[[i, r]] - mu[i]) / sg).collect()).collect();
        ensure!(z.iter().flatten().all(|v| v.is_finite()), "nonfinite", "non finite trajectory");
        let noise = 1e-9 + (1e-8 + 100. * m.rf.tol()) * evmax; // round-off and dropped eigenvalues
        let sd: Vec<f64> = (0..k).map(|i| (cov.at(i, i).max(0.) + noise).sqrt()).collect();
        let yr = m.rf.predict(&row(&q, 0)).2 / sg;
        for i in 0..k {
            let me = mean(&z[i]);
            ensure!(me.abs() <= 7.5 * sd[i] / (nt as f64).sqrt() + 2e-5 + 1e-9 * yr, "sample-mean", "method {how}: mean deviation {me} sd {} at point {i} (variances {:?} cond {:.1e} {:.1e} model {:?} mu {mu:?} s2 {s2:.2e})", sd[i], (0..k).map(|a| cov.at(a, a)).collect::<Vec<_>>(), m.rf.cond, m.rf.cond_a, m.gp.var(&q).mapv(|v| v / s2));
            for j in 0..=i {
                let e = z[i].iter().zip(&z[j]).map(|(a, b)| a * b).sum::<f64>() / nt as f64;
                let cij = cov.at(i, j);
                let se = ((sd[i] * sd[j]).powi(2) + cij * cij).sqrt() / (nt as f64).sqrt();
                ensure!((e - cij).abs() <= 7.5 * se + 1e-5 + noise, "sample-cov", "method {how}: covariance({i},{j}) {e} reference {cij} (normalised by the process variance {s2:.2e})");
            }
            // normality: fourth moment
            if sd[i] > 0.02 && noise < 1e-4 * sd[i] * sd[i] {
                let m4 = z[i].iter().map(|v| (v / sd[i]).powi(4)).sum::<f64>() / nt as f64;
                ensure!((m4 - 3.).abs() < 7.5 * (96. / nt as f64).sqrt(), "sample-kurtosis", "fourth moment {m4}");
            }
        }
        c.count("trajectories", nt as u64);
        c.count(["default method", "cholesky method", "eigen method"][how], 1);
        Ok(())
    });
    ctx.cases("sparse", ctx.n(4000, 60000), ctx.n(20, 300) as f64, nthreads(), |c| {
        let Some(m) = super::sgp::sbuild(c)? else { return Ok(()) };
        let Some(rf) = &m.rf else { c.key = 0; return Ok(()) };
        let s2 = m.gp.sigma2();
        if !(rf.tol() < 1e-6 && s2 > 1e-250) {
            c.key = 0;
            return Ok(());
        }
        let k = c.i(2, 4);
        let q = Array2::from_shape_fn((k, m.x.ncols()), |(_, j)| {
            let i = c.i(0, m.x.nrows() - 1);
            m.x[[i, j]] + 0.3 * c.normal()
        });
        let cov = Mat::from_fn(k, k, |i, j| rf.cov(&row(&q, i), &row(&q, j)) / s2);
        let ev = cov.eigvals();
        if ev[0] < 1e-6 {
            c.key = 0;
            return Ok(());
        }
        let how = c.i(0, 2);
        let nt = 3000;
        let t = must("sample", "sampling sparse trajectories", || m.gp.sample(&q, nt, how))?;
        ensure!(t.dim() == (k, nt), "shape", "{:?}", t.dim());
        let mu = m.gp.predict(&q);
        let z: Vec<Vec<f64>> = (0..k).map(|i| (0..nt).map(|r| (t[[i, r]] - mu[i]) / s2.sqrt()).collect()).collect();
        let noise = 1e-8 + 100. * rf.tol();
        for i in 0..k {
            let sd = (cov.at(i, i).max(0.) + noise).sqrt();
            let me = mean(&z[i]);
            ensure!(me.abs() <= 7.5 * sd / (nt as f64).sqrt() + 1e-6 + 1e-9 * mu[i].abs() / s2.sqrt(), "sparse-mean", "method {how}: mean deviation {me} sd {sd} at {}", q.row(i));
            for j in 0..=i {
                let e = z[i].iter().zip(&z[j]).map(|(a, b)| a * b).sum::<f64>() / nt as f64;
                let cij = cov.at(i, j);
                let se = ((cov.at(i, i) + noise) * (cov.at(j, j) + noise) + cij * cij).sqrt() / (nt as f64).sqrt();
                ensure!((e - cij).abs() <= 7.5 * se + noise, "sparse-cov", "method {how}: covariance({i},{j}) {e} reference {cij} (normalised by sigma2 {s2:.2e}) theta {:?} conds {:.1e} {:.1e} model variance {} cov {:?}", m.gp.theta(), rf.cond, rf.cond_c, m.gp.var(&q).mapv(|v| (v - m.gp.noise()) / s2), (0..k).map(|a| (0..k).map(|b| cov.at(a, b)).collect::<Vec<_>>()).collect::<Vec<_>>());
            }
        }
        c.count("sparse trajectories", nt as u64);
        Ok(())
    });
    // successive calls give different trajectories
    ctx.cases("fresh", 50, 20., nthreads(), |c| {
        let Some(m) = build(c, false, 0., 1e6)? else { return Ok(()) };
        let q = Array2::from_shape_fn((3, m.x.ncols()), |(_, j)| m.rf.xm[j] + m.rf.xs[j] * c.u(-2., 2.));
        if m.gp.variance() <= 0. || m.rf.sigma2 < 1e-12 * m.rf.ys * m.rf.ys || m.rf.ncov(&row(&q, 0), &row(&q, 0)) < 1e-3 {
            return Ok(());
        }
        let a = m.gp.sample(&q, 3, 2);
        let b = m.gp.sample(&q, 3, 2);
        ensure!(a != b, "not-fresh", "two draws are identical");
        ensure!(a.column(0) != a.column(1), "not-fresh", "two trajectories of a draw are identical");
        let _ = c.rng.gen::<u64>();
        Ok(())
    });
}
