//! C17-C28: monitored optimisation runs.
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use ndarray::{s, Array2};
use std::result::Result;

pub fn opts_any(c: &mut Case) -> Opts {
    Opts {
        space: *c.pick(&[0, 0, 1, 1, 2]),
        maxdim: 4,
        hostile: true,
        cstr: true,
        fcstr: true,
        plain_gp: c.b(0.5),
        trego: true,
        coego: true,
    }
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|v| v.to_bits()).collect()
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("Optimisations of random problems, spaces and options with recording functions.");
    let f = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = c.b(0.75);
        let s = rand_spec(c, o);
        c.describe(s.short());
        let rec = std::sync::Arc::new(Rec::default());
        let r = run_rec(&s, &rec);
        let batches = rec.batches.lock().unwrap().clone();
        for (bi, (x, _)) in batches.iter().enumerate() {
            for r in x.rows() {
                if let Err(f) = pt_ok(&s.xt, &r.to_vec()) {
                    return fail(f.sig, format!("batch {bi}: {}", f.msg));
                }
                c.count("objective points", 1);
            }
        }
        c.count("constraint calls", rec.fc_calls.load(std::sync::atomic::Ordering::Relaxed));
        if let Some((sig, msg)) = rec.fc_bad.lock().unwrap().clone() {
            return fail(sig, msg);
        }
        match r {
            Ok(_) => c.count("runs completed", 1),
            Err(e) => {
                c.count("runs ended by an error", 1);
                // several clusters or a trend may not be trainable with the points at hand
                if s.clu == 1 && s.reg == 0 {
                    return fail("run-failed", e);
                }
            }
        }
        Ok(())
    };
    ctx.cases("runs", ctx.n(400, 6000), ctx.n(45, 1200) as f64, nthreads(), f);
}

pub fn data(st: &egobox_ego::EgorState<f64>) -> (Array2<f64>, Array2<f64>, Array2<f64>) {
    st.data.clone().unwrap()
}
pub fn fold(s: &Spec, x: &Array2<f64>) -> Array2<f64> {
    if is_discrete(&s.xt) {
        egobox_ego::gpmix::mixint::to_discrete_space(&s.xt, x)
    } else {
        x.to_owned()
    }
}
pub fn same(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(a, b)| a.to_bits() == b.to_bits())
}
/// A run that cannot be trained is not a subject of the history properties.
pub fn ran(c: &mut Case, s: &Spec, r: Result<Out, String>) -> Result<Option<Out>, Fail> {
    match r {
        Ok(o) => {
            c.count("runs", 1);
            c.count("iterations", o.state.iter);
            Ok(Some(o))
        }
        Err(e) => {
            if s.clu == 1 && s.reg == 0 {
                return fail("run-failed", e);
            }
            c.count("runs ended by an error", 1);
            c.key = 0;
            Ok(None)
        }
    }
}

/// Largest absolute value of a linear constraint over the space.
fn max_abs(s: &Spec, l: &Lin) -> f64 {
    let (mut lo, mut hi) = (-l.b, -l.b);
    for (t, a) in s.xt.iter().zip(&l.a) {
        let (u, v) = match t {
            egobox_ego::XType::Float(u, v) => (*u, *v),
            egobox_ego::XType::Int(u, v) => (*u as f64, *v as f64),
            egobox_ego::XType::Ord(l) => (
                l.iter().cloned().fold(f64::INFINITY, f64::min),
                l.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
            ),
            egobox_ego::XType::Enum(n) => (0., *n as f64 - 1.),
        };
        lo += (a * u).min(a * v);
        hi += (a * u).max(a * v);
    }
    lo.abs().max(hi.abs())
}

/// History checks common to observed and unobserved runs.
fn check_history(c: &mut Case, s: &Spec, o: &Out) -> Res {
    let (xd, yd, cd) = data(&o.state);
    let (ax, ay) = (o.all_x(), o.all_y());
    ensure!(
        o.batches[0].0.nrows() == s.doe.as_ref().map(|d| d.nrows()).unwrap_or(s.n_doe),
        "initial-size",
        "{} points evaluated first, {} requested",
        o.batches[0].0.nrows(),
        s.n_doe
    );
    ensure!(
        same(&fold(s, &xd), &ax),
        "history-x",
        "history of points {:?} differs from evaluated points {:?}",
        fold(s, &xd),
        ax
    );
    ensure!(same(&yd, &ay), "history-y", "history of values {yd:?} differs from {ay:?}");
    ensure!(
        same(&o.x_doe, &ax) && same(&o.y_doe, &ay),
        "result-history",
        "returned history differs from evaluations"
    );
    ensure!(
        cd.nrows() == ax.nrows() && cd.ncols() == s.lin.len(),
        "history-c-shape",
        "constraint history {:?}",
        cd.dim()
    );
    let n0 = o.batches[0].0.nrows();
    for (i, (x, cv)) in ax.rows().into_iter().zip(cd.rows()).enumerate() {
        let e = s.cvals(&x.to_vec());
        for (j, (e, r)) in e.iter().zip(cv).enumerate() {
            if e.to_bits() == r.to_bits() {
                continue;
            }
            // known: values of added points are recorded divided by the scaling factor used by the
            // internal optimizer, a maximum of absolute values over a sample of the space
            let m = max_abs(s, &s.lin[j]);
            let sc = e / r;
            ensure!(
                i >= n0 && sc >= 0.2 * m && sc <= m * (1. + 1e-9),
                "history-c",
                "recorded value {r} of constraint {j} at point {i} {x}, function value {e} (scale {sc}, largest value {m})"
            );
            c.soft(fail(
                "fcstr-recorded-scaled",
                format!("recorded value {r} of constraint {j} at point {i}, function value {e}"),
            ));
        }
    }
    for (i, b) in o.batches.iter().enumerate().skip(1) {
        ensure!(
            b.0.nrows() >= 1 && b.0.nrows() <= s.q_points,
            "batch-size",
            "batch {i} of {} points, {} allowed",
            b.0.nrows(),
            s.q_points
        );
        c.count("added points", b.0.nrows() as u64);
    }
    ensure!(
        o.batches.len() <= 1 + s.max_iters,
        "batches",
        "{} batches for {} iterations",
        o.batches.len(),
        s.max_iters
    );
    for i in n0..xd.nrows() {
        for j in 0..i {
            let d: f64 = xd.row(i).iter().zip(xd.row(j)).map(|(a, b)| (a - b).abs()).sum();
            ensure!(
                d >= 100. * f64::EPSILON,
                "duplicate",
                "point {i} {} added at distance {d:e} of point {j}",
                xd.row(i)
            );
        }
    }
    ensure!(
        o.state.counts.get("cost_count").copied() == Some(o.batches.len() as u64),
        "cost-count",
        "{:?} evaluations reported, {} performed",
        o.state.counts,
        o.batches.len()
    );
    ensure!(
        o.state.added == xd.nrows() && o.state.doe_size == n0,
        "added-count",
        "added {} doe_size {} with {} points of which {n0} initial",
        o.state.added,
        o.state.doe_size,
        xd.nrows()
    );
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("Histories of optimisations compared with what the recording functions saw.");
    let f = |observed: bool| {
        move |c: &mut Case| -> Res {
            let mut o = opts_any(c);
            o.plain_gp = c.b(0.85);
            let mut s = rand_spec(c, o);
            if c.b(0.3) {
                s.max_iters = c.i(0, 9);
            }
            c.describe(s.short());
            let r = if observed { run_observed(&s) } else { run(&s) };
            let Some(o) = ran(c, &s, r)? else {
                return Ok(());
            };
            check_history(c, &s, &o)?;
            // every state holds the history so far
            let (xd, yd, cd) = data(&o.state);
            let mut prev = 0;
            for (k, st) in o.snaps.iter().enumerate() {
                let (x, y, cc) = data(st);
                let n = x.nrows();
                ensure!(n >= prev && n <= xd.nrows(), "snap-size", "state {k}: {n} points after {prev}");
                ensure!(
                    same(&x, &xd.slice(s![..n, ..]).to_owned())
                        && same(&y, &yd.slice(s![..n, ..]).to_owned())
                        && same(&cc, &cd.slice(s![..n, ..]).to_owned()),
                    "snap-prefix",
                    "history of state {k} is not a prefix of the final one"
                );
                let nb: usize = o.batches.iter().take(if s.trego { usize::MAX } else { k + 1 }).map(|b| b.0.nrows()).sum();
                ensure!(
                    s.trego || n == nb,
                    "snap-batch",
                    "state {k} has {n} points, {nb} evaluated"
                );
                prev = n;
                c.count("states", 1);
            }
            Ok(())
        }
    };
    ctx.cases("result", ctx.n(150, 4000), ctx.n(22, 900) as f64, nthreads(), f(false));
    ctx.cases("observed", ctx.n(150, 4000), ctx.n(22, 900) as f64, nthreads(), f(true));
}

/// Is `idx` a best row of the history?
fn check_best(
    s: &Spec,
    x: &Array2<f64>,
    y: &Array2<f64>,
    cd: &Array2<f64>,
    idx: usize,
    what: &str,
) -> Result<(bool, f64), Fail> {
    let tols = s.tols();
    let key = |i: usize| {
        let mut v: Vec<f64> = y.row(i).iter().skip(1).cloned().collect();
        v.extend(cd.row(i).iter());
        best_key(y[[i, 0]], violation(&v, &tols))
    };
    ensure!(idx < x.nrows(), "best-index", "{what}: best index {idx} of {}", x.nrows());
    let k = key(idx);
    for i in 0..x.nrows() {
        let ki = key(i);
        let worse = match (k.0, ki.0) {
            (true, false) => true,
            (false, true) => false,
            (false, false) => ki.1 < k.1,
            (true, true) => ki.1 < k.1 * (1. - 1e-12),
        };
        ensure!(
            !worse,
            "not-best",
            "{what}: point {idx} (infeasible, value or violation) = {k:?} reported but point {i} has {ki:?}; tolerances {tols:?}, values {} vs {}, constraints {} vs {}",
            y.row(idx),
            y.row(i),
            cd.row(idx),
            cd.row(i)
        );
    }
    Ok(k)
}

/// Is one of these rows a best one?
fn any_best(s: &Spec, x: &Array2<f64>, y: &Array2<f64>, cd: &Array2<f64>, is: &[usize], what: &str) -> Res {
    let mut r = Ok(());
    for i in is {
        match check_best(s, x, y, cd, *i, what) {
            Ok(_) => return Ok(()),
            Err(e) => r = Err(e),
        }
    }
    r
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("Incumbents of every state and reported optima compared with the definition over the history.");
    let gen = |c: &mut Case| -> Spec {
        let mut o = opts_any(c);
        o.plain_gp = c.b(0.8);
        let mut s = rand_spec(c, o);
        if c.b(0.3) {
            s.max_iters = c.i(0, 9);
        }
        // ties and plateaus
        if c.b(0.2) {
            s.fun.kind = Kind::Steps;
        }
        s
    };
    let obs = move |c: &mut Case| -> Res {
        let s = gen(c);
        c.describe(s.short());
        let r = run_observed(&s);
        let Some(o) = ran(c, &s, r)? else {
            return Ok(());
        };
        let mut last: Option<(bool, f64)> = None;
        let mut improvements = 0;
        for (k, st) in o.snaps.iter().enumerate() {
            let (x, y, cd) = data(st);
            let bi = st.best_index.unwrap();
            let key = check_best(&s, &x, &y, &cd, bi, &format!("state {k}"))?;
            ensure!(
                bits(&st.best_param.clone().unwrap().to_vec()) == bits(&x.row(bi).to_vec())
                    && bits(&st.best_cost.clone().unwrap().to_vec()) == bits(&y.row(bi).to_vec()),
                "incumbent",
                "state {k}: incumbent {:?} {:?} is not point {bi}",
                st.best_param,
                st.best_cost
            );
            if let Some(l) = last {
                let worse = match (l.0, key.0) {
                    (false, true) => true,
                    (true, false) => false,
                    _ => key.1 > l.1,
                };
                ensure!(!worse, "incumbent-worse", "state {k}: {key:?} after {l:?}");
                if key != l {
                    improvements += 1;
                }
            }
            if key.0 {
                c.count("infeasible incumbents", 1);
            }
            last = Some(key);
            c.count("states", 1);
        }
        c.count("improvements", improvements);
        let (x, y, _) = data(&o.state);
        let bi = o.state.best_index.unwrap();
        ensure!(
            bits(&o.x_opt) == bits(&fold(&s, &x).row(bi).to_vec()) && bits(&o.y_opt) == bits(&y.row(bi).to_vec()),
            "result",
            "result {:?} {:?}",
            o.x_opt,
            o.y_opt
        );
        Ok(())
    };
    ctx.cases("observed", ctx.n(150, 4000), ctx.n(25, 900) as f64, nthreads(), obs);
    let tmp = Scratch::new("c19");
    let dir = tmp.0.clone();
    let res = move |c: &mut Case| -> Res {
        let mut s = gen(c);
        c.describe(s.short());
        let d = dir.join(format!("{}", c.idx));
        s.outdir = Some(d.to_string_lossy().to_string());
        let r = run(&s);
        let Some(o) = ran(c, &s, r)? else {
            return Ok(());
        };
        let (x, y, cd) = data(&o.state);
        // the result is a best point of the history
        let xf = o.all_x();
        // (a discrete point may have been evaluated several times)
        let idx: Vec<usize> = (0..xf.nrows())
            .filter(|i| {
                bits(&xf.row(*i).to_vec()) == bits(&o.x_opt) && bits(&o.all_y().row(*i).to_vec()) == bits(&o.y_opt)
            })
            .collect();
        if idx.is_empty() {
            return fail("result", format!("result {:?} {:?} was never evaluated", o.x_opt, o.y_opt));
        };
        any_best(&s, &x, &y, &cd, &idx, "result")?;
        // history of incumbents
        let hf = d.join("egor_history.npy");
        if s.max_iters > 0 {
            let h: Array2<f64> = match ndarray_npy::read_npy(&hf) {
                Ok(h) => h,
                Err(e) => return fail("history-file", format!("{e}")),
            };
            let ny = 1 + s.n_cstr();
            ensure!(
                h.nrows() == o.state.iter as usize && h.ncols() == ny + x.ncols(),
                "history-file-shape",
                "history of incumbents {:?} for {} iterations",
                h.dim(),
                o.state.iter
            );
            // row k: best of the points evaluated at the end of iteration k
            let mut n = o.batches[0].0.nrows();
            for k in 0..h.nrows() {
                if s.trego {
                    // some iterations may add nothing
                    n = 0;
                } else if k + 1 < o.batches.len() {
                    n += o.batches[k + 1].0.nrows();
                }
                let hy = h.row(k).iter().take(ny).cloned().collect::<Vec<_>>();
                let hx = h.row(k).iter().skip(ny).cloned().collect::<Vec<_>>();
                let m = if n > 0 { n } else { x.nrows() };
                let is: Vec<usize> = (0..m)
                    .filter(|i| {
                        bits(&x.row(*i).to_vec()) == bits(&hx) && bits(&y.row(*i).to_vec()) == bits(&hy)
                    })
                    .collect();
                if is.is_empty() {
                    return fail("history-file-row", format!("row {k} {:?} is not an evaluated point", h.row(k)));
                };
                if n > 0 {
                    any_best(
                        &s,
                        &x.slice(s![..n, ..]).to_owned(),
                        &y.slice(s![..n, ..]).to_owned(),
                        &cd.slice(s![..n, ..]).to_owned(),
                        &is,
                        &format!("history row {k}"),
                    )?;
                }
                if k + 1 == h.nrows() {
                    ensure!(is.contains(&o.state.best_index.unwrap()), "history-file-last", "last row is one of points {is:?}");
                }
            }
        }
        let _ = std::fs::remove_dir_all(&d);
        Ok(())
    };
    ctx.cases("saved", ctx.n(120, 3000), ctx.n(20, 600) as f64, nthreads(), res);
}

/// Scratch directory removed at the end.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        let p = std::env::temp_dir().join(format!("vp-{name}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
