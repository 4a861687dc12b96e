//! C23: the ask-and-tell service.
use super::designs::{unfold, rand_points, vals};
use super::egor::*;
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{EgorServiceApi, EgorServiceBuilder, XType};
use egobox_moe::GpMixtureParams;
use ndarray::{concatenate, Array2, ArrayView2, Axis};
use std::result::Result;
use std::sync::Mutex;

pub enum Service {
    Float(EgorServiceApi<GpMixtureParams<f64>>),
    Mixed(EgorServiceApi<MixintGpMixtureParams>),
}
impl Service {
    pub fn new(s: &Spec) -> Result<Self, Fail> {
        let b = EgorServiceBuilder::optimize().configure(|_| s.config());
        let r = guard(|| {
            if s.mixint {
                b.min_within_mixint_space(&s.xt).map(Service::Mixed)
            } else {
                let mut lim = Array2::zeros((s.xt.len(), 2));
                for (i, t) in s.xt.iter().enumerate() {
                    if let XType::Float(a, b) = t {
                        lim[[i, 0]] = *a;
                        lim[[i, 1]] = *b;
                    }
                }
                b.min_within(&lim).map(Service::Float)
            }
        });
        match r {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => fail("service-config", e.to_string()),
            Err(e) => fail("service-config", e),
        }
    }
    pub fn ask(&self, x: &ArrayView2<f64>, y: &ArrayView2<f64>) -> Result<Array2<f64>, String> {
        guard(|| match self {
            Service::Float(s) => s.suggest(x, y),
            Service::Mixed(s) => s.suggest(x, y),
        })
    }
}

fn gen(c: &mut Case) -> Spec {
    let mut o = opts_any(c);
    o.plain_gp = c.b(0.75);
    o.maxdim = 4;
    o.fcstr = false;
    o.trego = false;
    o.coego = false;
    let mut s = rand_spec(c, o);
    if c.b(0.3) {
        s.q_points = c.i(1, 5);
    }
    s
}

/// Closest point of `h`, relative to the width of the variables.
fn gap(s: &Spec, x: &[f64], h: &Array2<f64>, upto: usize) -> f64 {
    let mut best = f64::INFINITY;
    for r in h.rows().into_iter().take(upto) {
        let mut d = 0f64;
        for ((t, a), b) in s.xt.iter().zip(x).zip(r) {
            d = d.max(match t {
                XType::Float(l, u) => (a - b).abs() / (u - l),
                _ => {
                    if a == b {
                        0.
                    } else {
                        1.
                    }
                }
            });
        }
        best = best.min(d);
    }
    best
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("Random histories given to the suggestion service (spaces, options, numbers of points, hostile objectives), repeated, interleaved and on other thread pools; ask-and-tell loops.");
    let ask = |c: &mut Case| -> Res {
        let s = gen(c);
        let n = if c.b(0.3) { c.i(s.n_doe, s.n_doe + 30) } else { s.n_doe };
        let x = rand_points(c, &s.xt, n);
        let y = vals(&s, &x);
        c.describe(format!("history of {n} {}", s.short()));
        let sv = Service::new(&s)?;
        let r = match sv.ask(&x.view(), &y.view()) {
            Ok(r) => r,
            Err(e) => {
                if s.clu == 1 && s.reg == 0 {
                    return fail("suggest-failed", e);
                }
                c.count("histories which cannot be trained on", 1);
                c.key = 0;
                return Ok(());
            }
        };
        ensure!(
            r.nrows() == s.q_points && r.ncols() == s.xt.len(),
            "suggest-number",
            "{:?} points suggested instead of {}",
            r.dim(),
            s.q_points
        );
        for (i, p) in r.rows().into_iter().enumerate() {
            let p = p.to_vec();
            pt_ok(&s.xt, &p)?;
            c.count("suggestions", 1);
            let dh = gap(&s, &p, &x, n);
            let ds = gap(&s, &p, &r, i);
            if dh == 0. {
                c.count("suggestions in the history", 1);
            }
            if ds == 0. {
                c.count("suggestions repeated", 1);
            }
        }
        // what the built-in optimisation does first with the same design
        let mut s1 = s.clone();
        s1.max_iters = 1;
        s1.doe = Some(concatenate![Axis(1), unfold(&s.xt, &x), y]);
        // (the service seeks feasibility first when no known point is feasible)
        let tols = s.tols();
        let feasible = (0..n).any(|i| violation(&y.row(i).to_vec()[1..], &tols) == 0.);
        if let Ok(o) = run(&s1) {
            if o.batches.len() == 1 && o.batches[0].0.nrows() == s.q_points {
                let b = &o.batches[0].0;
                // (points too close to known ones are asked again)
                let apart = (0..r.nrows()).all(|i| {
                    let p = r.row(i).to_vec();
                    gap(&s, &p, &x, n) > 1e-2 && gap(&s, &p, &r, i) > 1e-2
                });
                if same(b, &r) {
                    c.count("suggestions like the optimisation", 1);
                } else if apart && feasible {
                    return fail(
                        "suggest-differs",
                        format!("suggested {r:?}, the optimisation given the same history evaluates {b:?}"),
                    );
                }
            }
        }
        // again, after other questions, by another service, on other pools, another layout
        let other = {
            let x2 = rand_points(c, &s.xt, n);
            let y2 = vals(&s, &x2);
            sv.ask(&x2.view(), &y2.view())
        };
        let _ = other;
        let t = c.i(1, 4);
        let again: Vec<(&str, Result<Array2<f64>, String>)> = vec![
            ("the same service", sv.ask(&x.view(), &y.view())),
            ("a new service", Service::new(&s)?.ask(&x.view(), &y.view())),
            ("another pool", {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
                pool.install(|| sv.ask(&x.view(), &y.view()))
            }),
            ("another layout", {
                let xf = x.t().as_standard_layout().to_owned();
                let yf = y.t().as_standard_layout().to_owned();
                sv.ask(&xf.t(), &yf.t())
            }),
        ];
        for (what, r2) in again {
            let Ok(r2) = r2 else {
                return fail("suggest-varies", format!("{what}: {:?} instead of {r:?}", r2.err()));
            };
            ensure!(same(&r, &r2), "suggest-varies", "{what} suggests {r2:?} instead of {r:?}");
            c.count("repetitions", 1);
        }
        // another seed gives other admissible points
        let mut s2 = s.clone();
        s2.seed = if c.b(0.3) { None } else { Some(c.i(0, 1 << 20) as u64) };
        if let Ok(r) = Service::new(&s2)?.ask(&x.view(), &y.view()) {
            ensure!(r.nrows() == s.q_points, "suggest-number", "{:?} points with seed {:?}", r.dim(), s2.seed);
            for p in r.rows() {
                pt_ok(&s.xt, &p.to_vec())?;
            }
        }
        Ok(())
    };
    ctx.cases("ask", ctx.n(160, 4000), ctx.n(20, 1200) as f64, nthreads(), ask);

    // loops
    let tally: Mutex<Vec<((usize, usize), f64)>> = Default::default();
    let tell = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = true;
        o.hostile = false;
        o.maxdim = 2;
        o.fcstr = false;
        o.trego = false;
        o.coego = false;
        let mut s = rand_spec(c, o);
        s.fun.kind = Kind::Bowl;
        s.n_start = 10;
        c.describe(s.short());
        let sv = Service::new(&s)?;
        let mut x = rand_points(c, &s.xt, 6);
        let mut y = vals(&s, &x);
        let n0 = y.nrows();
        let q = s.q_points;
        for k in 0..12 / q {
            let p = match sv.ask(&x.view(), &y.view()) {
                Ok(p) => p,
                Err(e) => return fail("suggest-failed", format!("question {k}: {e}")),
            };
            ensure!(p.nrows() == q, "suggest-number", "question {k}: {:?} points instead of {q}", p.dim());
            for r in p.rows() {
                pt_ok(&s.xt, &r.to_vec())?;
            }
            let v = vals(&s, &p);
            x = concatenate![Axis(0), x, p];
            y = concatenate![Axis(0), y, v];
            c.count("questions", 1);
        }
        let tols = s.tols();
        let key = |r: usize| {
            let cs: Vec<f64> = y.row(r).iter().skip(1).cloned().collect();
            best_key(y[[r, 0]], violation(&cs, &tols))
        };
        let lt = |a: &(bool, f64), b: &(bool, f64)| (a.0 as u8, a.1) < (b.0 as u8, b.1);
        let best = |n: usize| {
            let mut b = key(0);
            for i in 1..n {
                let k = key(i);
                if lt(&k, &b) {
                    b = k;
                }
            }
            b
        };
        let (b0, b1) = (best(n0), best(y.nrows()));
        // kinds of problems: continuous or not, constrained or not
        let kind = (is_discrete(&s.xt) as usize, (s.n_cstr() > 0) as usize);
        let ratio = if lt(&b1, &b0) {
            c.count("loops which improve", 1);
            if b0.0 == b1.0 {
                b1.1 / b0.1.max(1e-300)
            } else {
                0.
            }
        } else {
            1.
        };
        tally.lock().unwrap().push((kind, ratio));
        Ok(())
    };
    ctx.cases("tell", ctx.n(80, 1500), ctx.n(20, 900) as f64, nthreads(), tell);
    let v = tally.into_inner().unwrap();
    let progress = |c: &mut Case| -> Res {
        let k = [(0, 0), (0, 1), (1, 0), (1, 1)][c.idx as usize];
        let mut r: Vec<f64> = v.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        r.sort_by(f64::total_cmp);
        let n = r.len();
        let imp = r.iter().filter(|x| **x < 1.).count();
        c.describe(format!("discrete, constrained: {k:?}: {n} loops, {imp} improve, ratios {r:?}"));
        if n < 8 {
            c.key = 0;
            return Ok(());
        }
        let (share, med) = [(0.8, 1e-2), (0.45, 1.), (0.45, 1.), (0.3, 1.)][c.idx as usize];
        ensure!(
            imp as f64 >= share * n as f64 && r[n / 2] <= med,
            "no-progress",
            "ask-and-tell loops on convex problems (discrete, constrained: {k:?}): {imp} of {n} improve, gap to the initial one: {r:?}"
        );
        Ok(())
    };
    ctx.cases("progress", 4, 5., 1, progress);
}
