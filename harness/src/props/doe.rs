//! C01, C02: designs of experiments.
use crate::ensure;
use crate::fw::*;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use ndarray::{Array2, Axis};
use ndarray_rand::rand::{Rng, SeedableRng};

pub const KINDS: [&str; 5] = [
    "classic",
    "centered",
    "maximin",
    "centered_maximin",
    "optimized",
];
pub fn lhs_kind(k: &str) -> LhsKind {
    match k {
        "classic" => LhsKind::Classic,
        "centered" => LhsKind::Centered,
        "maximin" => LhsKind::Maximin,
        "centered_maximin" => LhsKind::CenteredMaximin,
        _ => LhsKind::Optimized,
    }
}

pub fn rand_limits(c: &mut Case, nx: usize) -> Array2<f64> {
    let style = c.i(0, 5);
    let mut l = Array2::zeros((nx, 2));
    for i in 0..nx {
        let (a, b) = match style {
            0 => (0., 1.),
            1 => (-5., 10.),
            2 => {
                let a = c.u(-1e6, 1e6);
                (a, a + c.u(1e-3, 1e6))
            }
            3 => {
                let a = c.u(-1., 1.);
                let e = c.u(-9., 2.);
                (a, a + 10f64.powf(e))
            }
            4 => {
                let a = c.u(-1e3, 0.);
                (a, 0.)
            }
            _ => {
                let e = c.u(-3., 8.);
                let s = 10f64.powf(e);
                (-s, s * c.u(0.5, 2.))
            }
        };
        l[[i, 0]] = a;
        l[[i, 1]] = b;
    }
    l
}

fn phip(x: &Array2<f64>) -> (f64, f64) {
    let mut s = 0.;
    let mut dmin = f64::INFINITY;
    for i in 0..x.nrows() {
        for j in 0..i {
            let d: f64 = (0..x.ncols())
                .map(|k| (x[[i, k]] - x[[j, k]]).powi(2))
                .sum::<f64>()
                .sqrt();
            s += d.powi(-10);
            dmin = dmin.min(d);
        }
    }
    (s.powf(0.1), dmin)
}

/// sqrt(n) * Kolmogorov-Smirnov distance to U(0,1)
fn ks(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len() as f64;
    let mut d: f64 = 0.;
    for (i, x) in v.iter().enumerate() {
        d = d.max((x - i as f64 / n).abs());
        d = d.max(((i as f64 + 1.) / n - x).abs());
    }
    d * n.sqrt()
}
// KS threshold: 2 exp(-2 t^2) < 1e-12
const KS_T: f64 = 3.8;

fn check_lhs_norm(x: &Array2<f64>, ns: usize, nx: usize, centered: bool, eps: f64) -> Res {
    ensure!(
        x.dim() == (ns, nx),
        "lhs-shape",
        "shape {:?} expected {:?}",
        x.dim(),
        (ns, nx)
    );
    for (j, col) in x.axis_iter(Axis(1)).enumerate() {
        let mut v = col.to_vec();
        ensure!(
            v.iter().all(|a| a.is_finite()),
            "lhs-finite",
            "non finite in column {j}: {v:?}"
        );
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (i, a) in v.iter().enumerate() {
            let (lo, hi) = (i as f64 / ns as f64, (i as f64 + 1.) / ns as f64);
            ensure!(
                *a >= lo - eps && *a <= hi + eps,
                "lhs-stratum",
                "column {j}: sorted value #{i}={a} outside slice [{lo},{hi}]"
            );
            if centered {
                ensure!(
                    (*a - 0.5 * (lo + hi)).abs() <= eps,
                    "lhs-center",
                    "column {j}: value {a} is not the centre of [{lo},{hi}]"
                );
            }
        }
    }
    Ok(())
}

fn check_bounds(x: &Array2<f64>, l: &Array2<f64>, rel: f64) -> Res {
    for r in x.rows() {
        for (i, v) in r.iter().enumerate() {
            let s = rel * (l[[i, 0]].abs() + l[[i, 1]].abs() + 1e-300);
            ensure!(
                *v >= l[[i, 0]] - s && *v <= l[[i, 1]] + s,
                "bounds",
                "x[{i}]={v} outside [{},{}]",
                l[[i, 0]],
                l[[i, 1]]
            );
        }
    }
    Ok(())
}

fn check_affine(norm: &Array2<f64>, x: &Array2<f64>, l: &Array2<f64>, rel: f64) -> Res {
    for (rn, rx) in norm.rows().into_iter().zip(x.rows()) {
        for i in 0..l.nrows() {
            let (a, b) = (l[[i, 0]], l[[i, 1]]);
            let e = a + rn[i] * (b - a);
            let s = rel * (a.abs() + b.abs() + 1e-300);
            ensure!(
                (rx[i] - e).abs() <= s,
                "affine",
                "x[{i}]={} but affine image of {} in [{a},{b}] is {e}",
                rx[i],
                rn[i]
            );
        }
    }
    Ok(())
}

fn check_ff(x: &Array2<f64>, ns: usize, nx: usize, l: &Array2<f64>, eps: f64) -> Res {
    ensure!(
        x.dim() == (ns, nx),
        "ff-shape",
        "shape {:?} expected {:?}",
        x.dim(),
        (ns, nx)
    );
    // normalised levels
    let u = Array2::from_shape_fn((ns, nx), |(i, j)| {
        (x[[i, j]] - l[[j, 0]]) / (l[[j, 1]] - l[[j, 0]])
    });
    for v in u.iter() {
        ensure!(
            v.is_finite() && *v >= -eps && *v <= 1. + eps,
            "ff-bounds",
            "normalised level {v}"
        );
    }
    // expected numbers of levels: as even as possible with product >= ns
    // (each dimension m or m+1 levels, the smallest such product reaching ns)
    if ns == 0 {
        return Ok(());
    }
    let mut rows: Vec<Vec<i64>> = u
        .rows()
        .into_iter()
        .map(|r| r.iter().map(|v| (v * 1e6).round() as i64).collect())
        .collect();
    rows.sort();
    rows.dedup();
    ensure!(
        rows.len() == ns,
        "ff-distinct",
        "only {} distinct points of {ns}",
        rows.len()
    );
    // smallest even allocation
    let mut k = 0usize;
    let levels = loop {
        let (m, r) = (1 + k / nx, k % nx);
        let p: f64 = (m as f64).powi((nx - r) as i32) * (m as f64 + 1.).powi(r as i32);
        if p >= ns as f64 - 0.5 {
            break (m, r);
        }
        k += 1;
    };
    let (m, r) = levels;
    let full = (m as f64).powi((nx - r) as i32) * (m as f64 + 1.).powi(r as i32);
    let mut nlev = vec![];
    for j in 0..nx {
        let mut lv: Vec<f64> = u.column(j).to_vec();
        lv.sort_by(|a, b| a.partial_cmp(b).unwrap());
        lv.dedup_by(|a, b| (*a - *b).abs() < 1e-4 / (ns as f64));
        // every level lies on the regular grid with m or m+1 levels
        let on_grid = |n: usize| {
            lv.iter().all(|v| {
                if n == 1 {
                    v.abs() < eps
                } else {
                    let t = v * (n - 1) as f64;
                    (t - t.round()).abs() < eps * n as f64
                }
            })
        };
        ensure!(
            (on_grid(m) && lv.len() <= m) || (on_grid(m + 1) && lv.len() <= m + 1),
            "ff-grid",
            "dimension {j}: levels {lv:?} are not on a regular grid of {m} or {} levels",
            m + 1
        );
        nlev.push(lv.len());
    }
    if (full - ns as f64).abs() < 0.5 {
        // the whole grid is listed: exact level counts and both bounds
        let mut s = nlev.clone();
        s.sort();
        let mut e = vec![m; nx - r];
        e.extend(vec![m + 1; r]);
        ensure!(
            s == e,
            "ff-even",
            "levels per dimension {nlev:?}, expected a permutation of {e:?}"
        );
        for j in 0..nx {
            if nlev[j] > 1 {
                let mx = u.column(j).fold(f64::MIN, |a, b| a.max(*b));
                let mn = u.column(j).fold(f64::MAX, |a, b| a.min(*b));
                ensure!(
                    mn.abs() < eps && (mx - 1.).abs() < eps,
                    "ff-ends",
                    "dimension {j} spans [{mn},{mx}]"
                );
            }
        }
    }
    Ok(())
}

/// Terminates: the design call is watched; 60 s against a normal time of milliseconds.
fn call<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    match watched(60, f) {
        None => fail("hang", format!("{what} did not return within 60 s")),
        Some(Err(m)) => fail("panic", format!("{what}: {m}")),
        Some(Ok(v)) => Ok(v),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("LHS of 5 kinds, full-factorial and random designs in f64 and f32 over random dimensions, sizes (0,1,2 and small sizes enumerated, larger drawn), bounds and seeds; non-trivial when at least one point is drawn.");
    // enumerated small sizes
    let small: Vec<(usize, usize, usize)> = (0..5)
        .flat_map(|k| (0..=4).flat_map(move |ns| (1..=4).map(move |nx| (k, ns, nx))))
        .collect();
    ctx.cases("lhs-small", small.len() as u64, 1e9, nthreads(), |c| {
        let (k, ns, nx) = small[c.idx as usize];
        lhs_case(c, KINDS[k], ns, nx)
    });
    ctx.cases("lhs", ctx.n(3000, 30000), ctx.n(20, 300) as f64, nthreads(), |c| {
        let k = *c.pick(&KINDS);
        let nx = if c.b(0.8) { c.i(1, 6) } else { c.i(7, 40) };
        let ns = match c.i(0, 3) {
            0 => c.i(0, 6),
            1 => c.i(5, 30),
            2 => c.i(10, 60),
            _ => c.i(30, 200),
        };
        // the ESE algorithm is cubic-ish: keep it affordable
        let (ns, nx) = if k == "optimized" {
            (ns.min(60), nx.min(8))
        } else {
            (ns, nx)
        };
        lhs_case(c, k, ns, nx)
    });
    ctx.cases("ff", ctx.n(3000, 30000), 60., nthreads(), |c| {
        let nx = c.i(1, 6);
        let ns = match c.i(0, 3) {
            0 => c.i(0, 10),
            1 => c.i(1, 100),
            2 => {
                // whole grids
                let m = c.i(1, 4);
                let r = c.i(0, nx - 1);
                m.pow((nx - r) as u32) * (m + 1).pow(r as u32)
            }
            _ => c.i(100, 3000),
        };
        let l = rand_limits(c, nx);
        let f32_ = c.b(0.25);
        c.describe(format!("ff nx={nx} ns={ns} f32={f32_} limits={l}"));
        c.count("points", ns as u64);
        if f32_ {
            let l = Array2::from_shape_fn((nx, 2), |(_, j)| if j == 0 { -3.0f64 } else { 5.0 });
            let lf = l.mapv(|v| v as f32);
            let x = call("full factorial f32", move || FullFactorial::new(&lf).sample(ns))?;
            return check_ff(&x.mapv(|v| v as f64), ns, nx, &l, 1e-4);
        }
        let l2 = l.clone();
        let (x, n) = call("full factorial", move || {
            let s = FullFactorial::new(&l2);
            (s.sample(ns), s.normalized_sample(ns))
        })?;
        check_bounds(&x, &l, 1e-14)?;
        check_affine(&n, &x, &l, 1e-13)?;
        let unit = Array2::from_shape_fn((nx, 2), |(_, j)| j as f64);
        check_ff(&n, ns, nx, &unit, 1e-9)
    });
    // distribution of plain random designs and of positions within slices
    ctx.cases("distribution", ctx.n(40, 400), 60., nthreads(), |c| {
        let nx = c.i(1, 5);
        let which = c.i(0, 1);
        let l = rand_limits(c, nx);
        let seed: u64 = c.rng.gen();
        let total = 3000usize;
        let mut pts: Vec<Vec<f64>> = vec![];
        let mut within: Vec<f64> = vec![];
        c.describe(format!("distribution which={which} nx={nx} seed={seed}"));
        if which == 0 {
            let x = Random::new(&l)
                .with_rng(R64::seed_from_u64(seed))
                .sample(total);
            ensure!(x.dim() == (total, nx), "random-shape", "{:?}", x.dim());
            check_bounds(&x, &l, 1e-14)?;
            for r in x.rows() {
                pts.push(
                    (0..nx)
                        .map(|i| (r[i] - l[[i, 0]]) / (l[[i, 1]] - l[[i, 0]]))
                        .collect(),
                );
            }
        } else {
            let s = Lhs::new(&l)
                .kind(LhsKind::Classic)
                .with_rng(R64::seed_from_u64(seed));
            let ns = 10;
            for _ in 0..total / ns {
                let x = s.normalized_sample(ns);
                for r in x.rows() {
                    pts.push(r.to_vec());
                    for v in r.iter() {
                        within.push((v * ns as f64).fract());
                    }
                }
            }
        }
        for j in 0..nx {
            let k = ks(pts.iter().map(|p| p[j]).collect());
            ensure!(k < KS_T, "uniformity", "dimension {j}: KS sqrt(n)D={k}");
            for j2 in 0..j {
                let n = pts.len() as f64;
                let r = pts
                    .iter()
                    .map(|p| (p[j] - 0.5) * (p[j2] - 0.5))
                    .sum::<f64>()
                    / n
                    * 12.
                    * n.sqrt();
                // for n rows of LHS 10, correlations have a similar scale
                ensure!(
                    r.abs() < 7.5,
                    "independence",
                    "dimensions {j},{j2}: normalised correlation {r}"
                );
            }
        }
        if which == 1 {
            let k = ks(within);
            ensure!(k < KS_T, "slice-uniformity", "KS within slices {k}");
            // order of the points: rows are not sorted (each row's rank is uniform)
            let first: Vec<f64> = pts.iter().step_by(10).map(|p| p[0]).collect();
            let m = first.iter().sum::<f64>() / first.len() as f64;
            let z = (m - 0.5) * (12. * first.len() as f64).sqrt();
            ensure!(z.abs() < 7., "shuffled", "first rows have mean {m} (z={z})");
        }
        c.count("points", pts.len() as u64);
        Ok(())
    });
}

fn lhs_case(c: &mut Case, k: &'static str, ns: usize, nx: usize) -> Res {
    let l = rand_limits(c, nx);
    let seed: u64 = c.rng.gen();
    let f32_ = c.b(0.3);
    let tag = format!("lhs {k} nx={nx} ns={ns} seed={seed} f32={f32_}");
    c.describe(format!("{tag} limits={l}"));
    if ns == 0 {
        c.key = 0;
    }
    c.count("points", ns as u64);
    let centered = k.starts_with("centered");
    if f32_ {
        let lf = l.mapv(|v| v as f32);
        let lf2 = lf.clone();
        let (n, x) = call(&tag, move || {
            let mk = || {
                Lhs::new(&lf2)
                    .kind(lhs_kind(k))
                    .with_rng(R64::seed_from_u64(seed))
            };
            (mk().normalized_sample(ns), mk().sample(ns))
        })?;
        let ld = lf.mapv(|v| v as f64);
        check_lhs_norm(&n.mapv(|v| v as f64), ns, nx, centered, 3e-7)?;
        check_bounds(&x.mapv(|v| v as f64), &ld, 3e-7)?;
        ensure!(x.dim() == (ns, nx), "lhs-shape", "{:?}", x.dim());
        return Ok(());
    }
    let l2 = l.clone();
    let (n, x) = call(&tag, move || {
        let mk = || {
            Lhs::new(&l2)
                .kind(lhs_kind(k))
                .with_rng(R64::seed_from_u64(seed))
        };
        (mk().normalized_sample(ns), mk().sample(ns))
    })?;
    check_lhs_norm(&n, ns, nx, centered, 4e-16)?;
    ensure!(x.dim() == (ns, nx), "lhs-shape", "{:?}", x.dim());
    check_bounds(&x, &l, 1e-15)?;
    // the sampled design keeps the one-per-slice structure in its own space
    let u = Array2::from_shape_fn((ns, nx), |(i, j)| {
        (x[[i, j]] - l[[j, 0]]) / (l[[j, 1]] - l[[j, 0]])
    });
    let cond = (0..nx)
        .map(|j| (l[[j, 0]].abs() + l[[j, 1]].abs()) / (l[[j, 1]] - l[[j, 0]]))
        .fold(1., f64::max);
    check_lhs_norm(&u, ns, nx, centered, 1e-15 * (1. + cond) * 4.)
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("Twin samplers per kind, f64/f32, random dimension, size, bounds and seed (bitwise comparison, affine relation, successive draws), one shared sampler drawn from several threads, and populations of designs for the spread comparison.");
    ctx.cases("twins", ctx.n(1500, 20000), ctx.n(15, 200) as f64, nthreads(), |c| {
        let which = c.i(0, 6);
        let nx = c.i(1, 6);
        let ns = c.i(2, 40);
        let l = rand_limits(c, nx);
        let seed: u64 = c.rng.gen();
        c.describe(format!("twins which={which} nx={nx} ns={ns} seed={seed} limits={l}"));
        let mk = |ns: usize| -> Vec<Array2<f64>> {
            let rng = R64::seed_from_u64(seed);
            match which {
                0..=4 => {
                    let s = Lhs::new(&l).kind(lhs_kind(KINDS[which])).with_rng(rng.clone());
                    let a = s.sample(ns);
                    let b = s.sample(ns);
                    let n = Lhs::new_with_rng(&l, rng)
                        .kind(lhs_kind(KINDS[which]))
                        .normalized_sample(ns);
                    vec![a, b, n]
                }
                5 => {
                    let s = Random::new(&l).with_rng(rng.clone());
                    let a = s.sample(ns);
                    let b = s.sample(ns);
                    let n = Random::new_with_rng(&l, rng).normalized_sample(ns);
                    vec![a, b, n]
                }
                _ => {
                    let s = FullFactorial::new(&l);
                    vec![s.sample(ns), s.sample(ns), s.normalized_sample(ns)]
                }
            }
        };
        let a = must("sample", "twin sampling", || mk(ns))?;
        let b = must("sample", "twin sampling", || mk(ns))?;
        for (x, y) in a.iter().zip(b.iter()) {
            ensure!(
                x.iter()
                    .zip(y.iter())
                    .all(|(p, q)| p.to_bits() == q.to_bits())
                    && x.dim() == y.dim(),
                "twin-differs",
                "same state, different designs"
            );
        }
        check_affine(&a[2], &a[0], &l, 1e-14)?;
        if which < 6 && !(nx == 1 && which % 2 == 1) {
            // 1-D centred designs have few permutations: allow equality there only
            let lim = if which == 1 || which == 3 { ns * nx > 12 } else { true };
            if lim {
                ensure!(a[0] != a[1], "successive-equal", "two successive draws are identical");
            }
        } else if which == 6 {
            ensure!(a[0] == a[1], "ff-changes", "full factorial draws differ");
        }
        // another seed
        if which < 6 && which != 1 && which != 3 {
            let o = Lhs::new(&l)
                .kind(lhs_kind(KINDS[which.min(4)]))
                .with_rng(R64::seed_from_u64(seed ^ 0x5555))
                .sample(ns);
            ensure!(o != a[0], "seed-ignored", "another seed gives the same design");
        }
        Ok(())
    });
    ctx.cases("shared", ctx.n(40, 400), 60., 2, |c| {
        let k = *c.pick(&KINDS);
        let nx = c.i(1, 4);
        let ns = c.i(2, 15);
        let seed: u64 = c.rng.gen();
        c.describe(format!("shared sampler {k} nx={nx} ns={ns} seed={seed}"));
        let l = rand_limits(c, nx);
        let s = Lhs::new(&l)
            .kind(lhs_kind(k))
            .with_rng(R64::seed_from_u64(seed));
        let all: Vec<Array2<f64>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..6)
                .map(|_| sc.spawn(|| (0..5).map(|_| s.normalized_sample(ns)).collect::<Vec<_>>()))
                .collect();
            hs.into_iter()
                .map(|h| h.join().map_err(|_| ()))
                .collect::<Result<Vec<_>, _>>()
                .map(|v| v.into_iter().flatten().collect())
                .unwrap_or_default()
        });
        ensure!(all.len() == 30, "shared-panic", "a thread panicked");
        for x in &all {
            check_lhs_norm(x, ns, nx, k.starts_with("centered"), 4e-16)?;
        }
        c.count("concurrent draws", 30);
        if !k.starts_with("centered") {
            for i in 0..all.len() {
                for j in 0..i {
                    ensure!(all[i] != all[j], "shared-dup", "two concurrent draws are identical");
                }
            }
        }
        Ok(())
    });
    let combos: Vec<(usize, usize)> = vec![(5, 2), (10, 2), (20, 2), (8, 3), (15, 3), (10, 4), (20, 5)];
    let reps = ctx.n(1, 4);
    ctx.cases("spread", combos.len() as u64 * reps, 1e9, nthreads(), |c| {
        let (ns, nx) = combos[(c.idx as usize) % combos.len()];
        let seed: u64 = c.rng.gen();
        c.describe(format!("spread ns={ns} nx={nx} seed={seed}"));
        let l = Array2::from_shape_fn((nx, 2), |(_, j)| j as f64);
        let m = 60;
        // a population of m designs per kind: mean potential and mean minimal distance
        let stat = |k: &str, f32_: bool| -> (f64, f64) {
            let (mut p, mut d) = (0., 0.);
            for i in 0..m {
                let rng = R64::seed_from_u64(seed.wrapping_add(i));
                let x = if f32_ {
                    Lhs::new(&l.mapv(|v| v as f32))
                        .kind(lhs_kind(k))
                        .with_rng(rng)
                        .sample(ns)
                        .mapv(|v| v as f64)
                } else {
                    Lhs::new(&l).kind(lhs_kind(k)).with_rng(rng).sample(ns)
                };
                let (a, b) = phip(&x);
                p += a;
                d += b;
            }
            (p / m as f64, d / m as f64)
        };
        let cl = stat("classic", false);
        let ce = stat("centered", false);
        let mm = stat("maximin", false);
        let cm = stat("centered_maximin", false);
        let op = stat("optimized", false);
        c.count("designs", 5 * m);
        ensure!(mm.1 > 1.15 * cl.1, "maximin-spread", "mean minimal distance: maximin {} vs classic {}", mm.1, cl.1);
        ensure!(cm.1 > 1.05 * ce.1, "cmaximin-spread", "mean minimal distance: centered maximin {} vs centered {}", cm.1, ce.1);
        ensure!(op.0 < 0.8 * cl.0, "optimized-spread", "mean potential: optimized {} vs classic {}", op.0, cl.0);
        ensure!(op.1 > 1.3 * cl.1, "optimized-dist", "mean minimal distance: optimized {} vs classic {}", op.1, cl.1);
        ensure!(op.0 < mm.0 * 1.02, "optimized-maximin", "mean potential: optimized {} vs maximin {}", op.0, mm.0);
        if std::env::var_os("VP_STAT").is_some() {
            eprintln!("{ns} {nx} classic {cl:?} maximin {mm:?} centered {ce:?} cm {cm:?} opt {op:?}");
        }
        Ok(())
    });
}
