//! C22: initial designs, saved files and warm starts.
use super::egor::*;
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use crate::props::mixint::unf_dim;
use egobox_ego::XType;
use ndarray::{concatenate, s, Array2, Axis};
use std::path::Path;
use std::result::Result;
use std::sync::{Arc, Mutex};

fn read(d: &Path, f: &str) -> Result<Array2<f64>, Fail> {
    match ndarray_npy::read_npy(d.join(f)) {
        Ok(a) => Ok(a),
        Err(e) => fail("file-missing", format!("{f}: {e}")),
    }
}
fn cat(a: &[&Array2<f64>]) -> Array2<f64> {
    let v: Vec<_> = a.iter().map(|a| a.view()).collect();
    concatenate(Axis(1), &v).unwrap()
}
pub fn vals(s: &Spec, x: &Array2<f64>) -> Array2<f64> {
    let mut y = Array2::zeros((x.nrows(), 1 + s.n_cstr()));
    for (i, r) in x.rows().into_iter().enumerate() {
        for (j, v) in s.fvals(&r.to_vec()).into_iter().enumerate() {
            y[[i, j]] = v;
        }
    }
    y
}
fn cvals(s: &Spec, x: &Array2<f64>) -> Array2<f64> {
    let mut y = Array2::zeros((x.nrows(), s.lin.len()));
    for (i, r) in x.rows().into_iter().enumerate() {
        for (j, v) in s.cvals(&r.to_vec()).into_iter().enumerate() {
            y[[i, j]] = v;
        }
    }
    y
}
fn n_enum(xt: &[XType]) -> usize {
    xt.iter().filter(|t| matches!(t, XType::Enum(_))).count()
}
/// Unfolded form, written here independently.
pub fn unfold(xt: &[XType], x: &Array2<f64>) -> Array2<f64> {
    let mut o = Array2::zeros((x.nrows(), unf_dim(xt)));
    for (i, r) in x.rows().into_iter().enumerate() {
        let mut k = 0;
        for (t, v) in xt.iter().zip(r) {
            if let XType::Enum(n) = t {
                o[[i, k + *v as usize]] = 1.;
                k += n;
            } else {
                o[[i, k]] = *v;
                k += 1;
            }
        }
    }
    o
}
/// Admissible points as a user writes them.
pub fn rand_points(c: &mut Case, xt: &[XType], n: usize) -> Array2<f64> {
    let mut x = Array2::zeros((n, xt.len()));
    let mut seen: Vec<Vec<u64>> = vec![];
    let mut i = 0;
    let mut tries = 0;
    while i < n {
        for (j, t) in xt.iter().enumerate() {
            x[[i, j]] = match t {
                XType::Float(a, b) => match c.i(0, 12) {
                    0 => *a,
                    1 => *b,
                    _ => c.u(*a, *b),
                },
                XType::Int(a, b) => (*a as i64 + c.i(0, (*b as i64 - *a as i64) as usize) as i64) as f64,
                XType::Ord(l) => *c.pick(l),
                XType::Enum(k) => c.i(0, k - 1) as f64,
            };
        }
        let b = bits(&x.row(i).to_vec());
        tries += 1;
        if seen.contains(&b) && tries < 200 {
            continue;
        }
        seen.push(b);
        i += 1;
    }
    x
}
fn gen(c: &mut Case) -> Spec {
    let mut o = opts_any(c);
    o.plain_gp = c.b(0.85);
    o.maxdim = 3;
    let mut s = rand_spec(c, o);
    s.max_iters = c.i(0, 3);
    s
}

/// The history of a run is (head, evaluated batches), constraints included.
fn check_head(s: &Spec, o: &Out, hx: &Array2<f64>, hy: &Array2<f64>, evaluated: bool, what: &str) -> Res {
    let (xd, yd, cd) = data(&o.state);
    let n = hx.nrows();
    let fx = fold(s, &xd);
    ensure!(
        fx.nrows() >= n && same(&fx.slice(s![..n, ..]).to_owned(), hx) && same(&yd.slice(s![..n, ..]).to_owned(), hy),
        "design-altered",
        "{what}: history begins with {:?} {:?} instead of {:?} {:?}",
        fx.slice(s![..n.min(fx.nrows()), ..]),
        yd.slice(s![..n.min(yd.nrows()), ..]),
        hx,
        hy
    );
    // when the first points have been evaluated here, they are the first batch
    let n = if evaluated { 0 } else { n };
    let mut rows = vec![];
    let mut yrows = vec![];
    for (x, y) in &o.batches {
        rows.extend(x.rows().into_iter().map(|r| r.to_vec()));
        yrows.extend(y.rows().into_iter().map(|r| r.to_vec()));
    }
    ensure!(
        fx.nrows() == n + rows.len()
            && (0..rows.len()).all(|i| bits(&rows[i]) == bits(&fx.row(n + i).to_vec())
                && bits(&yrows[i]) == bits(&yd.row(n + i).to_vec())),
        "history-not-evaluations",
        "{what}: {} initial points, {} evaluated, history of {}",
        n,
        rows.len(),
        fx.nrows()
    );
    // (those of the points added later: C18)
    let n0 = hx.nrows();
    ensure!(
        cd.dim() == (fx.nrows(), s.lin.len()) && same(&cd.slice(s![..n0, ..]).to_owned(), &cvals(s, hx)),
        "constraints-not-evaluated",
        "{what}: values of the function constraints {cd:?} instead of {:?}",
        cvals(s, hx)
    );
    ensure!(
        same(&o.x_doe, &fx) && same(&o.y_doe, &yd),
        "result-history",
        "{what}: returned history differs from the one of the state"
    );
    Ok(())
}

fn same_run(a: &Out, b: &Out, what: &str) -> Res {
    ensure!(
        same(&a.x_doe, &b.x_doe) && same(&a.y_doe, &b.y_doe) && bits(&a.x_opt) == bits(&b.x_opt) && bits(&a.y_opt) == bits(&b.y_opt),
        "designs-differ",
        "{what}: {:?} -> {:?} {:?} and {:?} -> {:?} {:?}",
        a.x_doe,
        a.x_opt,
        a.y_opt,
        b.x_doe,
        b.x_opt,
        b.y_opt
    );
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("Optimisations from designs given with and without values, drawn designs, warm starts chained over the same directory; files read back at every evaluation.");
    // designs given by the user
    let user = |c: &mut Case| -> Res {
        let mut s = gen(c);
        let n = s.n_doe;
        let x = rand_points(c, &s.xt, n);
        let enums = n_enum(&s.xt) > 0;
        // variables with categories: masks, the form of the saved files
        let ux = unfold(&s.xt, &x);
        let y = vals(&s, &x);
        let mut given = if enums { ux.clone() } else { x.clone() };
        // another order in memory
        if c.b(0.3) {
            given = given.reversed_axes().as_standard_layout().to_owned().reversed_axes();
        }
        s.doe = Some(given.clone());
        s.n_doe = *c.pick(&[0, 3, 50]);
        c.describe(format!("{n} points {}", s.short()));
        let r = run(&s);
        let Some(o) = ran(c, &s, r)? else {
            return Ok(());
        };
        ensure!(
            !o.batches.is_empty() && same(&o.batches[0].0, &x),
            "design-not-evaluated",
            "first evaluated points {:?} instead of the given {:?}",
            o.batches.first().map(|b| &b.0),
            x
        );
        check_head(&s, &o, &x, &y, true, "design of points")?;
        c.count("points given", n as u64);
        // with values
        s.doe = Some(cat(&[&given, &y]));
        let r = run(&s);
        let Some(o2) = ran(c, &s, r)? else {
            return fail("designs-differ", "training fails only when values are given");
        };
        check_head(&s, &o2, &x, &y, false, "design of points and values")?;
        ensure!(
            o2.batches.len() + 1 == o.batches.len(),
            "design-reevaluated",
            "{} evaluations with values, {} without",
            o2.batches.len(),
            o.batches.len()
        );
        same_run(&o, &o2, "design without and with values")?;
        c.count("points given with values", n as u64);
        // values which are not those of the function are used as well
        let mut y3 = y.clone();
        let k = c.i(0, n - 1);
        y3[[k, 0]] = y.column(0).iter().cloned().fold(f64::INFINITY, f64::min) - 1.5;
        s.doe = Some(cat(&[&given, &y3]));
        let r = run(&s);
        if let Some(o3) = ran(c, &s, r)? {
            check_head(&s, &o3, &x, &y3, false, "design of points and other values")?;
        }
        // values of function constraints may follow, as in the saved files
        if !s.lin.is_empty() {
            s.doe = Some(cat(&[&given, &y, &cvals(&s, &x)]));
            let r = run(&s);
            if let Some(o4) = ran(c, &s, r)? {
                check_head(&s, &o4, &x, &y, false, "design of points, values and constraints")?;
                same_run(&o, &o4, "design without and with values and constraints")?;
            }
        }
        Ok(())
    };
    ctx.cases("user", ctx.n(160, 3000), ctx.n(20, 900) as f64, nthreads(), user);

    // categories written as the functions receive them
    let folded = |c: &mut Case| -> Res {
        let mut o = opts_any(c);
        o.plain_gp = true;
        o.maxdim = 3;
        o.space = 1;
        let mut s = loop {
            let s = rand_spec(c, o);
            if n_enum(&s.xt) > 0 {
                break s;
            }
        };
        s.max_iters = 1;
        let n = s.n_doe;
        let x = rand_points(c, &s.xt, n);
        let y = vals(&s, &x);
        let values = c.b(0.5);
        s.doe = Some(if values { cat(&[&x, &y]) } else { x.clone() });
        c.describe(format!("values: {values} {}", s.short()));
        let bad = match run(&s) {
            Err(e) => Some(e),
            Ok(o) => check_head(&s, &o, &x.slice(s![..if values { n } else { 0 }, ..]).to_owned(), &y.slice(s![..if values { n } else { 0 }, ..]).to_owned(), false, "design")
                .err()
                .map(|f| f.msg)
                .or_else(|| (!values && !same(&o.batches[0].0, &x)).then(|| format!("evaluated {:?} instead of {:?}", o.batches[0].0, x))),
        };
        c.count("designs with category indices", 1);
        if let Some(b) = bad {
            c.soft(fail("folded-design-misread", b));
        }
        Ok(())
    };
    ctx.cases("folded", ctx.n(40, 400), ctx.n(5, 120) as f64, nthreads(), folded);

    // drawn designs
    let drawn = |c: &mut Case| -> Res {
        let mut s = gen(c);
        s.max_iters = 0;
        let d = unf_dim(&s.xt);
        s.n_doe = if c.b(0.4) { 0 } else { c.i(1, 30) };
        if c.b(0.15) {
            s.seed = None;
        }
        c.describe(s.short());
        let r = run(&s);
        let Some(o) = ran(c, &s, r)? else {
            return Ok(());
        };
        ensure!(o.batches.len() == 1, "drawn-batches", "{} evaluations without iteration", o.batches.len());
        let x = &o.batches[0].0;
        let ok = if s.n_doe > 0 {
            x.nrows() == s.n_doe
        } else {
            x.nrows() == 5.max(d + 1) || x.nrows() == 5.max(s.xt.len() + 1)
        };
        ensure!(ok, "drawn-size", "{} points drawn, {} requested", x.nrows(), s.n_doe);
        for r in x.rows() {
            pt_ok(&s.xt, &r.to_vec())?;
        }
        let n = x.nrows();
        for (j, t) in s.xt.iter().enumerate() {
            if let XType::Float(a, b) = t {
                // one point in each of n slices
                let mut hit = vec![0; n];
                for v in x.column(j) {
                    let k = ((v - a) / (b - a) * n as f64).floor().clamp(0., n as f64 - 1.) as usize;
                    let near = ((v - a) / (b - a) * n as f64).fract();
                    if (1e-6..1. - 1e-6).contains(&near) {
                        hit[k] += 1;
                    }
                }
                ensure!(
                    hit.iter().all(|h| *h <= 1),
                    "drawn-not-lhs",
                    "variable {j}: {:?} has several points in one of {n} slices",
                    x.column(j)
                );
                c.count("sampled coordinates", n as u64);
            }
        }
        let e: Array2<f64> = Array2::zeros((0, s.xt.len()));
        check_head(&s, &o, &e, &Array2::zeros((0, 1 + s.n_cstr())), false, "drawn design")
    };
    ctx.cases("drawn", ctx.n(500, 8000), ctx.n(5, 200) as f64, nthreads(), drawn);

    // files
    let tmp = Scratch::new("c22");
    let root = tmp.0.clone();
    let files = |c: &mut Case| -> Res {
        let mut s = gen(c);
        s.max_iters = c.i(0, 5);
        let d = root.join(format!("f{}/deep/er", c.idx));
        s.outdir = Some(d.to_string_lossy().to_string());
        c.describe(s.short());
        let rec = Arc::new(Rec::default());
        // (batch, initial design, design) as found on disk at each evaluation
        type Seen = Vec<(usize, Option<Array2<f64>>, Option<Array2<f64>>)>;
        let seen: Arc<Mutex<Seen>> = Default::default();
        let (sn, dd) = (seen.clone(), d.clone());
        *rec.on_batch.lock().unwrap() = Some(Box::new(move |b, _| {
            let f = |n: &str| ndarray_npy::read_npy::<_, Array2<f64>>(dd.join(n)).ok();
            sn.lock().unwrap().push((b, f("egor_initial_doe.npy"), f("egor_doe.npy")));
        }));
        let r = run_rec(&s, &rec);
        *rec.on_batch.lock().unwrap() = None;
        let Some(o) = ran(c, &s, r)? else {
            return Ok(());
        };
        let (x, y, cd) = data(&o.state);
        let n0 = o.batches[0].0.nrows();
        let ini = read(&d, "egor_initial_doe.npy")?;
        let want = cat(&[&x.slice(s![..n0, ..]).to_owned(), &y.slice(s![..n0, ..]).to_owned()]);
        ensure!(same(&ini, &want), "initial-file", "{ini:?} instead of {want:?}");
        let all = cat(&[&x, &y, &cd]);
        if s.max_iters > 0 {
            let doe = read(&d, "egor_doe.npy")?;
            ensure!(same(&doe, &all), "doe-file", "{doe:?} instead of {all:?}");
        }
        let mut n = 0;
        for (b, i, e) in seen.lock().unwrap().iter() {
            if *b > 0 {
                ensure!(
                    i.as_ref().is_some_and(|i| same(i, &ini)),
                    "initial-file-late",
                    "initial design is not on disk at evaluation {b}: {i:?}"
                );
            }
            if *b > 1 {
                let done: usize = o.batches.iter().take(*b).map(|b| b.0.nrows()).sum();
                ensure!(
                    e.as_ref().is_some_and(|e| e.nrows() == done && same(e, &all.slice(s![..done, ..]).to_owned())),
                    "doe-file-late",
                    "design on disk at evaluation {b} is {e:?}, {done} points were evaluated: {all:?}"
                );
                n += 1;
            }
        }
        c.count("files read during runs", n);
        c.count("rows read back", all.nrows() as u64);
        let _ = std::fs::remove_dir_all(root.join(format!("f{}", c.idx)));
        Ok(())
    };
    ctx.cases("files", ctx.n(160, 3000), ctx.n(15, 900) as f64, nthreads(), files);

    // warm starts
    let warm = |c: &mut Case| -> Res {
        let mut s = gen(c);
        let d = root.join(format!("w{}", c.idx));
        s.outdir = Some(d.to_string_lossy().to_string());
        s.warm = c.b(0.5);
        if c.b(0.25) {
            let x = rand_points(c, &s.xt, s.n_doe);
            s.doe = Some(unfold(&s.xt, &x));
        }
        c.describe(s.short());
        let r = run(&s);
        let Some(mut prev) = ran(c, &s, r)? else {
            return Ok(());
        };
        // without a file there is nothing to start from
        ensure!(!prev.batches.is_empty(), "warm-nothing", "no initial evaluation");
        for k in 0..c.i(1, 3) {
            s.warm = true;
            s.max_iters = c.i(0, 3);
            s.n_doe = *c.pick(&[0, 7, 20]);
            if c.b(0.3) {
                // saved points come first
                let x = rand_points(c, &s.xt, 8);
                s.doe = Some(unfold(&s.xt, &x));
            }
            let r = run(&s);
            let Some(o) = ran(c, &s, r)? else {
                return Ok(());
            };
            let what = format!("warm start {k}");
            check_head(&s, &o, &prev.x_doe, &prev.y_doe, false, &what)?;
            let (px, _, _) = data(&prev.state);
            let (x, y, cd) = data(&o.state);
            let n = px.nrows();
            ensure!(
                same(&px, &x.slice(s![..n, ..]).to_owned()),
                "warm-altered",
                "{what}: {px:?} became {:?}",
                x.slice(s![..n, ..])
            );
            let ini = read(&d, "egor_initial_doe.npy")?;
            let want = cat(&[&px, &prev.y_doe]);
            ensure!(same(&ini, &want), "initial-file", "{what}: {ini:?} instead of {want:?}");
            if s.max_iters > 0 {
                let doe = read(&d, "egor_doe.npy")?;
                let want = cat(&[&x, &y, &cd]);
                ensure!(same(&doe, &want), "doe-file", "{what}: {doe:?} instead of {want:?}");
            }
            // the same as a run given these points and values
            let mut s2 = s.clone();
            s2.warm = false;
            s2.outdir = None;
            s2.doe = Some(want);
            let r = run(&s2);
            if let Some(o2) = ran(c, &s2, r)? {
                same_run(&o, &o2, &format!("{what} and run given the same design"))?;
            }
            c.count("warm starts", 1);
            c.count("points reused", n as u64);
            prev = o;
        }
        let _ = std::fs::remove_dir_all(&d);
        Ok(())
    };
    ctx.cases("warm", ctx.n(120, 2500), ctx.n(20, 900) as f64, nthreads(), warm);
}
