//! C20, C27, C28: reproducibility, termination and local search of optimisation runs.
use super::egor::*;
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use argmin::core::TerminationStatus;
use egobox_ego::XType;
use ndarray::Array2;
use std::sync::atomic::Ordering;
use std::sync::Arc;

type Batches = Vec<(Array2<f64>, Array2<f64>)>;

/// First difference between two evaluation traces.
pub fn diff(a: &Batches, b: &Batches) -> Option<String> {
    for (i, (u, v)) in a.iter().zip(b).enumerate() {
        if !same(&u.0, &v.0) {
            return Some(format!("batch {i}: {} and {}", u.0, v.0));
        }
        if !same(&u.1, &v.1) {
            return Some(format!("values of batch {i}: {} and {}", u.1, v.1));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} and {} batches", a.len(), b.len()));
    }
    None
}

fn reason(o: &Out) -> String {
    match &o.state.termination_status {
        TerminationStatus::Terminated(r) => format!("{r:?}"),
        TerminationStatus::NotTerminated => "none".into(),
    }
}

fn pooled<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .build()
        .unwrap()
        .install(f)
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("Twin runs of seeded optimisations on other thread counts, with delays, observers and saved files.");
    let tmp = Scratch::new("c20");
    let dir = tmp.0.clone();
    let f = |clustered: bool| { let dir = dir.clone(); move |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = !clustered && c.b(0.8);
        if clustered {
            o.maxdim = 2;
            o.hostile = false;
            o.cstr = c.b(0.2);
        }
        let mut s = rand_spec(c, o);
        if clustered && s.clu == 1 {
            s.clu = c.i(0, 1) as i32 * 2;
            s.n_doe = s.n_doe.max(20);
        }
        c.describe(s.short());
        let r = pooled(*c.pick(&[1, 2, 3]), || run(&s));
        let Some(a) = ran(c, &s, r)? else {
            return Ok(());
        };
        // twins: 0 same, 1 other thread count, 2 delays, 3 observed, 4 files and checkpoints
        let first = c.i(0, 4);
        for k in [first, (first + 2) % 5] {
            let mut s2 = s.clone();
            let rec = Arc::new(Rec::default());
            let what = ["same options", "other thread count", "slow objective", "observed", "files and checkpoints"][k];
            let r = match k {
                0 => run_rec(&s2, &rec),
                1 => pooled(*c.pick(&[1, 2, 4, 8]), || run_rec(&s2, &rec)),
                2 => {
                    rec.delay.store(c.i(500, 3000) as u64, Ordering::Relaxed);
                    run_rec(&s2, &rec)
                }
                3 => run_observed_rec(&s2, &rec),
                _ => {
                    let d = dir.join(format!("{}-{k}", c.idx));
                    s2.outdir = Some(d.to_string_lossy().to_string());
                    s2.hot = Some(0);
                    let r = run_rec(&s2, &rec);
                    let _ = std::fs::remove_dir_all(&d);
                    r
                }
            };
            let b = match r {
                Ok(b) => b,
                Err(e) => return fail("twin-failed", format!("{what}: {e}")),
            };
            if let Some(d) = diff(&a.batches, &b.batches) {
                return fail("twin-evaluations", format!("{what}: {d}"));
            }
            ensure!(
                bits(&a.x_opt) == bits(&b.x_opt)
                    && bits(&a.y_opt) == bits(&b.y_opt)
                    && same(&a.x_doe, &b.x_doe)
                    && same(&a.y_doe, &b.y_doe)
                    && a.state.iter == b.state.iter
                    && reason(&a) == reason(&b),
                "twin-result",
                "{what}: results {:?} {:?} and {:?} {:?}",
                a.x_opt,
                a.y_opt,
                b.x_opt,
                b.y_opt
            );
            ensure!(
                serde_json::to_string(&a.state.rng).unwrap() == serde_json::to_string(&b.state.rng).unwrap(),
                "twin-generator",
                "{what}: generators differ at the end"
            );
            c.count(["same", "threads", "delay", "observed", "files"][k], 1);
        }
        // another seed explores elsewhere
        if s.xt.iter().any(|t| matches!(t, XType::Float(_, _))) {
            let mut s2 = s.clone();
            s2.seed = Some(s.seed.unwrap() + 1 + c.i(0, 1000) as u64);
            s2.max_iters = 0;
            if let Ok(b) = run(&s2) {
                ensure!(
                    !same(&a.batches[0].0, &b.batches[0].0),
                    "other-seed",
                    "seeds {:?} and {:?} give the same initial design",
                    s.seed,
                    s2.seed
                );
                c.count("other seeds", 1);
            }
        }
        Ok(())
    }};
    ctx.cases("twins", ctx.n(120, 3000), ctx.n(25, 900) as f64, nthreads(), f(false));
    ctx.cases("clusters", ctx.n(30, 1000), ctx.n(15, 400) as f64, nthreads(), f(true));
    // the search after the initial design depends on the seed too
    let f = |c: &mut Case| -> Res {
        let mut s = rand_spec(
            c,
            Opts {
                space: 0,
                maxdim: 3,
                plain_gp: true,
                ..Default::default()
            },
        );
        s.n_doe = c.i(5, 8);
        let doe: Vec<f64> = (0..s.n_doe)
            .flat_map(|_| {
                s.xt.iter()
                    .map(|t| {
                        if let XType::Float(a, b) = t {
                            c.u(*a, *b)
                        } else {
                            unreachable!()
                        }
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
        s.doe = Some(Array2::from_shape_vec((s.n_doe, s.xt.len()), doe).unwrap());
        s.max_iters = 4;
        c.describe(s.short());
        let a = run(&s).map_err(|e| Fail { sig: "run-failed".into(), msg: e })?;
        let mut diffs = 0;
        for k in 0..4 {
            let mut s2 = s.clone();
            s2.seed = Some(s.seed.unwrap() + 1 + k);
            let b = run(&s2).map_err(|e| Fail { sig: "run-failed".into(), msg: e })?;
            if diff(&a.batches, &b.batches).is_some() {
                diffs += 1;
            }
        }
        ensure!(diffs > 0, "seed-ignored", "5 seeds added the same points to a given design");
        c.count("seeds compared", 5);
        Ok(())
    };
    ctx.cases("seeds", ctx.n(12, 200), ctx.n(8, 200) as f64, nthreads(), f);
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("Reference runs without target, then runs of the same seed with smaller budgets and targets chosen around the incumbents.");
    let f = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = c.b(0.9);
        if c.b(0.25) {
            o.space = 1;
            o.maxdim = 1;
        }
        let mut s = rand_spec(c, o);
        s.max_iters = c.i(0, 8);
        if c.b(0.15) {
            s.fun.kind = Kind::Steps;
        }
        c.describe(s.short());
        let r = run_observed(&s);
        let Some(a) = ran(c, &s, r)? else {
            return Ok(());
        };
        let n = a.snaps.len() - 1; // iterations performed
        let converged = reason(&a) == "SolverConverged";
        ensure!(
            a.state.iter as usize == n,
            "iteration-count",
            "{} iterations reported, {n} observed",
            a.state.iter
        );
        for (k, st) in a.snaps.iter().enumerate() {
            ensure!(
                st.iter as usize == k.saturating_sub(1),
                "iteration-number",
                "state {k} says iteration {}",
                st.iter
            );
        }
        if converged {
            let na = |k: usize| data(&a.snaps[k]).0.nrows();
            ensure!(
                n >= 1 && na(n) == na(n - 1),
                "converged-added",
                "converged at an iteration which added points"
            );
            c.count("converged", 1);
        } else {
            ensure!(
                n == s.max_iters && reason(&a) == "MaxItersReached",
                "budget",
                "{n} iterations performed of {}, reason {}",
                s.max_iters,
                reason(&a)
            );
            c.count("budget exhausted", 1);
        }
        // only the last iteration may say it is over
        for (k, st) in a.snaps.iter().enumerate() {
            ensure!(
                st.termination_status == TerminationStatus::NotTerminated || (k == n && converged),
                "early-termination",
                "state {k} of {n} has status {:?}",
                st.termination_status
            );
        }
        let costs: Vec<f64> = a.snaps.iter().map(|st| st.best_cost.as_ref().unwrap()[0]).collect();
        // last iteration with a new incumbent
        let idx: Vec<usize> = a.snaps.iter().map(|st| st.best_index.unwrap()).collect();
        let mut last = 0;
        for k in 1..=n {
            if idx[k] != idx[k - 1] {
                last = k;
            }
            ensure!(
                a.snaps[k].last_best_iter as usize == last,
                "last-best",
                "state {k}: last improving iteration {} instead of {last} (incumbents {idx:?})",
                a.snaps[k].last_best_iter
            );
        }
        // variants
        for _ in 0..2 {
            let mut t = s.clone();
            t.max_iters = if c.b(0.3) { c.i(0, s.max_iters + 1) } else { s.max_iters };
            if !converged && t.max_iters > s.max_iters {
                t.max_iters = s.max_iters;
            }
            if c.b(0.8) {
                let k = c.i(0, n);
                let b = costs[k];
                t.target = Some(match c.i(0, 4) {
                    0 | 1 => b,
                    2 => b + b.abs() * 1e-6 + 1e-12,
                    3 => b - b.abs() * 1e-6 - 1e-12,
                    _ => f64::NEG_INFINITY,
                });
            }
            let target = t.target.unwrap_or(f64::NEG_INFINITY);
            let mut k = 0;
            let why = loop {
                if converged && k == n {
                    break "SolverConverged";
                }
                if k >= t.max_iters {
                    break "MaxItersReached";
                }
                if costs[k] <= target {
                    break "TargetCostReached";
                }
                k += 1;
            };
            let b = if c.b(0.5) { run(&t) } else { run_observed(&t) };
            let b = match b {
                Ok(b) => b,
                Err(e) => return fail("variant-failed", format!("max_iters {} target {target}: {e}", t.max_iters)),
            };
            ensure!(
                b.state.iter as usize == k && reason(&b) == why,
                "stop",
                "max_iters {} target {target}: stopped after {} iterations ({}) instead of {k} ({why}); incumbents {costs:?}",
                t.max_iters,
                b.state.iter,
                reason(&b)
            );
            c.count(
                match why {
                    "SolverConverged" => "stopped: converged",
                    "MaxItersReached" => "stopped: budget",
                    _ => "stopped: target",
                },
                1,
            );
            // it did the same as the reference run until then
            let (x, y, _) = data(&a.snaps[k]);
            ensure!(
                same(&fold(&s, &x), &b.x_doe) && same(&y, &b.y_doe),
                "prefix",
                "history after {k} iterations is {:?} instead of {:?}",
                b.x_doe,
                fold(&s, &x)
            );
            let st = &a.snaps[k];
            ensure!(
                bits(&st.best_cost.as_ref().unwrap().to_vec()) == bits(&b.y_opt),
                "stopped-result",
                "result {:?} instead of the incumbent {:?}",
                b.y_opt,
                st.best_cost
            );
            if why == "TargetCostReached" {
                ensure!(b.y_opt[0] <= target, "target-result", "result {:?} above target {target}", b.y_opt);
            }
            let evals: usize = b.batches.iter().map(|b| b.0.nrows()).sum();
            let nd = b.batches[0].0.nrows();
            ensure!(
                evals <= nd + s.q_points * t.max_iters,
                "evaluations",
                "{evals} evaluations with {nd} initial points and {} iterations of {}",
                t.max_iters,
                s.q_points
            );
        }
        Ok(())
    };
    ctx.cases("stop", ctx.n(200, 5000), ctx.n(45, 1200) as f64, nthreads(), f);
}

/// Expected trust-region step from the state before iteration `k`.
fn trego_model(st: &egobox_ego::EgorState<f64>, it: usize) -> (f64, bool) {
    let (_, y, _) = data(st);
    let yb = y[[st.best_index.unwrap(), 0]];
    let yp = y[[st.prev_best_index.unwrap(), 0]];
    let success = yb < yp - st.sigma * st.sigma;
    let sigma = if it == 0 {
        st.sigma
    } else if success {
        st.sigma * (10. / 9.)
    } else if st.prev_step_ego {
        st.sigma
    } else {
        st.sigma * 0.9
    };
    (sigma, (success && st.prev_step_ego) || it % 5 == 0)
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("State traces of trust-region and cooperative runs compared with a model of the phases, sizes and groups.");
    let f = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = c.b(0.9);
        o.trego = false;
        let mut s = rand_spec(c, o);
        s.trego = true;
        s.max_iters = c.i(6, 14);
        s.n_start = c.i(1, 4);
        c.describe(s.short());
        let r = run_observed(&s);
        let Some(a) = ran(c, &s, r)? else {
            return Ok(());
        };
        ensure!(
            a.snaps[0].sigma == 0.1,
            "sigma0",
            "initial size {}",
            a.snaps[0].sigma
        );
        let mut bi = 1; // next batch
        for k in 1..a.snaps.len() {
            let (prev, st) = (&a.snaps[k - 1], &a.snaps[k]);
            let (sigma, global) = trego_model(prev, k - 1);
            ensure!(
                (st.sigma - sigma).abs() <= 1e-12 * sigma,
                "sigma",
                "iteration {}: size {} -> {} instead of {sigma} (after global step: {})",
                k - 1,
                prev.sigma,
                st.sigma,
                prev.prev_step_ego
            );
            ensure!(
                st.prev_step_ego == global,
                "phase",
                "iteration {}: {} step instead of {}",
                k - 1,
                if st.prev_step_ego { "global" } else { "local" },
                if global { "global" } else { "local" }
            );
            let (n0, n1) = (data(prev).0.nrows(), data(st).0.nrows());
            let lim = if global { s.q_points } else { 1 };
            ensure!(
                n1 - n0 <= lim,
                "step-size",
                "iteration {}: {} points added by a {} step",
                k - 1,
                n1 - n0,
                if global { "global" } else { "local" }
            );
            if n1 > n0 {
                ensure!(
                    a.batches.get(bi).map(|b| b.0.nrows()) == Some(n1 - n0),
                    "step-batch",
                    "iteration {}: {} points added, batch {:?}",
                    k - 1,
                    n1 - n0,
                    a.batches.get(bi).map(|b| b.0.nrows())
                );
                bi += 1;
                ensure!(
                    st.prev_best_index == prev.best_index,
                    "previous-incumbent",
                    "iteration {}: previous incumbent {:?} instead of {:?}",
                    k - 1,
                    st.prev_best_index,
                    prev.best_index
                );
            }
            // a local step works around the incumbent
            if !global && n1 > n0 && !is_discrete(&s.xt) {
                let (x, _, _) = data(st);
                let xb = x.row(prev.best_index.unwrap());
                let far = x
                    .row(n1 - 1)
                    .iter()
                    .zip(xb)
                    .map(|(a, b)| (a - b).abs())
                    .fold(0., f64::max);
                if far > 1. + 1e-6 {
                    c.soft(fail(
                        "trego-local-scope",
                        format!("local step evaluated a point at distance {far} of the incumbent"),
                    ));
                } else {
                    c.count("local points near the incumbent", 1);
                }
            }
            c.count(if global { "global steps" } else { "local steps" }, 1);
            if st.sigma > prev.sigma {
                c.count("size grew", 1);
            }
            if st.sigma < prev.sigma {
                c.count("size shrank", 1);
            }
        }
        ensure!(bi == a.batches.len(), "step-batches", "{} batches for {bi} steps with points", a.batches.len());
        Ok(())
    };
    ctx.cases("trego", ctx.n(80, 2000), ctx.n(20, 500) as f64, nthreads(), f);

    // where local searches start
    let f = |c: &mut Case| -> Res {
        let mut s = rand_spec(
            c,
            Opts {
                space: 0,
                maxdim: 3,
                plain_gp: true,
                ..Default::default()
            },
        );
        s.trego = true;
        s.coego = None;
        s.slsqp = true;
        s.n_start = 1;
        s.max_iters = c.i(4, 7);
        s.q_points = 1;
        let w = *c.pick(&[3., 25., 200.]);
        let d = s.xt.len();
        s.xt = (0..d).map(|_| XType::Float(-w, w)).collect();
        s.lin = vec![Lin {
            a: (0..d).map(|_| c.u(-1., 1.)).collect(),
            b: 10. * w,
        }];
        c.describe(s.short());
        let rec = Arc::new(Rec::default());
        *rec.grad_log.lock().unwrap() = Some(vec![]);
        // length of the log when each batch is about to be evaluated
        let marks = Arc::new(std::sync::Mutex::new(vec![]));
        {
            let (r2, m2) = (Arc::downgrade(&rec), marks.clone());
            *rec.on_batch.lock().unwrap() = Some(Box::new(move |_, _| {
                let n = r2
                    .upgrade()
                    .map(|r| r.grad_log.lock().unwrap().as_ref().unwrap().len())
                    .unwrap_or(0);
                m2.lock().unwrap().push(n);
            }));
        }
        let a = run_observed_rec(&s, &rec).map_err(|e| Fail { sig: "run-failed".into(), msg: e })?;
        let log = rec.grad_log.lock().unwrap().take().unwrap();
        let marks = marks.lock().unwrap().clone();
        if a.batches.len() != a.snaps.len() {
            // an iteration without evaluation: batches cannot be attributed
            c.count("skipped", 1);
            return Ok(());
        }
        for k in 1..a.snaps.len() {
            let (prev, st) = (&a.snaps[k - 1], &a.snaps[k]);
            let calls = &log[marks[k - 1]..marks[k]];
            if st.prev_step_ego || calls.is_empty() {
                continue;
            }
            let xb = prev.best_param.as_ref().unwrap();
            let far = calls[0].iter().zip(xb).map(|(a, b)| (a - b).abs()).fold(0., f64::max);
            ensure!(
                far <= 1. + 1e-9,
                "local-start",
                "iteration {}: local search started from {:?} at distance {far} of the incumbent {xb}",
                k - 1,
                calls[0]
            );
            ensure!(
                calls[0].iter().all(|v| v.abs() <= w * (1. + 1e-12)),
                "local-start-bounds",
                "local search started from {:?} outside of [-{w}, {w}]",
                calls[0]
            );
            c.count("local searches", 1);
        }
        Ok(())
    };
    ctx.cases("local", ctx.n(40, 800), ctx.n(10, 300) as f64, nthreads(), f);

    let f = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = true;
        o.maxdim = 6;
        let mut s = rand_spec(c, o);
        s.coego = Some(c.i(1, s.xt.len() + 2));
        s.max_iters = c.i(2, 5);
        c.describe(s.short());
        let r = run_observed(&s);
        let Some(a) = ran(c, &s, r)? else {
            return Ok(());
        };
        let nx = data(&a.state).0.ncols();
        let g = s.coego.unwrap().min(nx);
        let mut seen = std::collections::BTreeSet::new();
        for (k, st) in a.snaps.iter().enumerate() {
            let Some(act) = st.activity.as_ref() else {
                return fail("no-activity", format!("state {k} has no groups"));
            };
            ensure!(act.nrows() == g, "group-count", "{} groups instead of {g}: {act}", act.nrows());
            let mut all = vec![];
            let mut sizes = vec![];
            for r in act.rows() {
                let v: Vec<usize> = r.iter().cloned().filter(|i| *i < nx).collect();
                ensure!(
                    r.iter().all(|i| *i <= nx),
                    "group-index",
                    "index above {nx} in {act}"
                );
                sizes.push(v.len());
                all.extend(v);
            }
            let mut so = all.clone();
            so.sort();
            ensure!(
                so == (0..nx).collect::<Vec<_>>(),
                "group-partition",
                "groups {act} are no partition of {nx} variables"
            );
            let (lo, hi) = (*sizes.iter().min().unwrap(), *sizes.iter().max().unwrap());
            ensure!(hi - lo <= 1, "group-sizes", "sizes {sizes:?}");
            seen.insert(format!("{act}"));
            c.count("groupings", 1);
        }
        if g > 1 && nx >= 4 && a.snaps.len() >= 4 {
            ensure!(
                seen.len() > 1,
                "group-constant",
                "the same grouping {seen:?} was drawn {} times",
                a.snaps.len()
            );
        }
        Ok(())
    };
    ctx.cases("coego", ctx.n(60, 1500), ctx.n(12, 300) as f64, nthreads(), f);

    // searches of a group leave the other variables alone
    let f = |c: &mut Case| -> Res {
        let mut s = rand_spec(
            c,
            Opts {
                space: 0,
                maxdim: 5,
                plain_gp: true,
                ..Default::default()
            },
        );
        while s.xt.len() < 2 {
            let t = s.xt[0].clone();
            s.xt.push(t);
            s.fun = rand_fun(c, &s.xt, Kind::Bowl, 0);
        }
        let d = s.xt.len();
        s.n_doe = d + 4;
        s.trego = false;
        s.slsqp = true;
        s.q_points = 1;
        s.coego = Some(c.i(2, d));
        s.max_iters = 3;
        s.lin = vec![Lin {
            a: (0..d).map(|_| c.u(-1., 1.)).collect(),
            b: 1e5,
        }];
        c.describe(s.short());
        let rec = Arc::new(Rec::default());
        *rec.grad_log.lock().unwrap() = Some(vec![]);
        let marks = Arc::new(std::sync::Mutex::new(vec![]));
        {
            let (r2, m2) = (Arc::downgrade(&rec), marks.clone());
            *rec.on_batch.lock().unwrap() = Some(Box::new(move |_, _| {
                let n = r2
                    .upgrade()
                    .map(|r| r.grad_log.lock().unwrap().as_ref().unwrap().len())
                    .unwrap_or(0);
                m2.lock().unwrap().push(n);
            }));
        }
        let a = run_observed_rec(&s, &rec).map_err(|e| Fail { sig: "run-failed".into(), msg: e })?;
        let log = rec.grad_log.lock().unwrap().take().unwrap();
        let marks = marks.lock().unwrap().clone();
        for k in 1..a.snaps.len().min(a.batches.len()) {
            let prev = &a.snaps[k - 1];
            let act = prev.activity.as_ref().unwrap();
            let groups: Vec<Vec<usize>> = act
                .rows()
                .into_iter()
                .map(|r| r.iter().cloned().filter(|i| *i < d).collect())
                .collect();
            if data(&a.snaps[k]).0.nrows() == data(prev).0.nrows() {
                break;
            }
            let mut centre = prev.best_param.as_ref().unwrap().to_vec();
            let mut gi = 0;
            for x in &log[marks[k - 1]..marks[k]] {
                let outside = |x: &[f64], g: &[&Vec<usize>]| {
                    (0..d).all(|i| g.iter().any(|g| g.contains(&i)) || x[i].to_bits() == centre[i].to_bits())
                };
                if outside(x, &[&groups[gi]]) {
                    continue;
                }
                ensure!(
                    gi + 1 < groups.len() && outside(x, &[&groups[gi], &groups[gi + 1]]),
                    "group-others",
                    "iteration {}: search of group {gi} of {groups:?} at {x:?} moved other variables of {centre:?}",
                    k - 1
                );
                // the next group starts from the optimum of this one
                for i in &groups[gi] {
                    centre[*i] = x[*i];
                }
                gi += 1;
                c.count("group changes", 1);
            }
            c.count("partial searches", log[marks[k - 1]..marks[k]].len() as u64);
        }
        Ok(())
    };
    ctx.cases("group", ctx.n(40, 800), ctx.n(10, 300) as f64, nthreads(), f);
}
