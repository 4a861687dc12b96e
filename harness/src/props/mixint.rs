//! C03, C04: mixed-integer spaces.
use crate::ensure;
use crate::fw::*;
use crate::props::doe::{lhs_kind, KINDS};
use egobox_doe::{FullFactorial, Lhs, Random, SamplingMethod};
use egobox_ego::gpmix::mixint::*;
use egobox_ego::XType;
use ndarray::Array2;
use ndarray_rand::rand::{Rng, SeedableRng};

pub fn rand_xtypes(c: &mut Case, maxn: usize) -> Vec<XType> {
    let n = c.i(1, maxn);
    (0..n).map(|_| rand_xtype(c)).collect()
}
pub fn rand_xtype(c: &mut Case) -> XType {
    match c.i(0, 3) {
        0 => {
            let a = c.u(-10., 10.);
            XType::Float(a, a + c.u(0.01, 20.))
        }
        1 => {
            let a = c.i(0, 20) as i32 - 12;
            let w = c.i(0, 15) as i32;
            XType::Int(a, a + w)
        }
        2 => {
            let n = c.i(1, 6);
            let style = c.i(0, 2);
            let mut v: Vec<f64> = (0..n)
                .map(|k| match style {
                    0 => k as f64 * 2. - 3.,
                    1 => c.u(-50., 50.),
                    _ => (c.u(-2., 3.)).exp(),
                })
                .collect();
            if c.b(0.4) {
                v.reverse();
            }
            XType::Ord(v)
        }
        _ => XType::Enum(c.i(1, 5)),
    }
}

pub fn unf_dim(xt: &[XType]) -> usize {
    xt.iter()
        .map(|t| if let XType::Enum(v) = t { *v } else { 1 })
        .sum()
}

/// Is the folded point admissible? eps: tolerance on float bounds (relative).
pub fn admissible_folded(xt: &[XType], x: &[f64], eps: f64) -> Res {
    ensure!(
        x.len() == xt.len(),
        "dim",
        "point of {} variables, expected {}",
        x.len(),
        xt.len()
    );
    for (i, (t, v)) in xt.iter().zip(x.iter()).enumerate() {
        let ok = match t {
            XType::Float(a, b) => {
                let s = eps * (a.abs() + b.abs() + (b - a).abs());
                v.is_finite() && *v >= a - s && *v <= b + s
            }
            XType::Int(a, b) => v.fract() == 0. && *v >= *a as f64 && *v <= *b as f64,
            XType::Ord(l) => l.iter().any(|w| w == v),
            XType::Enum(n) => v.fract() == 0. && *v >= 0. && *v < *n as f64,
        };
        ensure!(
            ok,
            "inadmissible",
            "variable {i} of type {t:?} has value {v} in {x:?}"
        );
    }
    Ok(())
}
/// Is the unfolded point admissible (one-hot masks)?
pub fn admissible_unfolded(xt: &[XType], x: &[f64], eps: f64) -> Result<Vec<f64>, Fail> {
    ensure!(
        x.len() == unf_dim(xt),
        "dim",
        "unfolded point of {} columns, expected {}",
        x.len(),
        unf_dim(xt)
    );
    let mut k = 0;
    let mut f = vec![];
    for t in xt {
        if let XType::Enum(n) = t {
            let m = &x[k..k + n];
            ensure!(
                m.iter().all(|v| *v == 0. || *v == 1.)
                    && m.iter().filter(|v| **v == 1.).count() == 1,
                "mask",
                "categorical mask {m:?} is not one-hot"
            );
            f.push(m.iter().position(|v| *v == 1.).unwrap() as f64);
            k += n;
        } else {
            f.push(x[k]);
            k += 1;
        }
    }
    admissible_folded(xt, &f, eps)?;
    Ok(f)
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("Random type lists (1..6 variables; floats, integers incl. degenerate ranges, unsorted ordered lists, 0..6 categorical variables anywhere), LHS of 5 kinds, random and full-factorial designs, folded, unfolded and f32; non-trivial when the list has a discrete variable.");
    ctx.cases("sampling", ctx.n(6000, 60000), ctx.n(25, 300) as f64, nthreads(), |c| {
        let xt = rand_xtypes(c, 6);
        let d = unf_dim(&xt);
        let which = c.i(0, 6);
        let mut ns = if c.b(0.2) { c.i(0, 3) } else { c.i(1, 40) };
        if which == 4 {
            ns = ns.min(20);
        }
        let seed: u64 = c.rng.gen();
        c.describe(format!("sampling method={which} ns={ns} seed={seed} xtypes={xt:?}"));
        if !xt.iter().any(|t| !matches!(t, XType::Float(_, _))) {
            c.key = 0;
        }
        c.count("points", ns as u64);
        let ctxm = MixintContext::new(&xt);
        ensure!(ctxm.get_unfolded_dim() == d, "dim", "unfolded dimension {} expected {d}", ctxm.get_unfolded_dim());
        let (fold, unf): (Array2<f64>, Array2<f64>) = must("mixint-sample", "mixed-integer sampling", || match which {
            0..=4 => {
                let f = ctxm.create_lhs_sampling(lhs_kind(KINDS[which]), Some(seed)).sample(ns);
                let lhs = Lhs::new(&as_continuous_limits::<f64>(&xt))
                    .with_rng(R64::seed_from_u64(seed))
                    .kind(lhs_kind(KINDS[which]));
                (f, MixintSampling::new(lhs, xt.clone()).sample(ns))
            }
            5 => {
                let f = ctxm.create_rand_sampling(Some(seed)).sample(ns);
                let r = Random::new(&as_continuous_limits::<f64>(&xt)).with_rng(R64::seed_from_u64(seed));
                (f, MixintSampling::new(r, xt.clone()).sample(ns))
            }
            _ => {
                let f = ctxm.create_ffact_sampling().sample(ns);
                let r = FullFactorial::new(&as_continuous_limits::<f64>(&xt));
                let mut m = MixintSampling::new(r, xt.clone());
                m.work_in_folded_space(false);
                (f, m.sample(ns))
            }
        })?;
        ensure!(fold.dim() == (ns, xt.len()), "shape", "folded design {:?}", fold.dim());
        ensure!(unf.dim() == (ns, d), "shape", "unfolded design {:?}", unf.dim());
        for (rf, ru) in fold.rows().into_iter().zip(unf.rows()) {
            admissible_folded(&xt, &rf.to_vec(), 1e-15)?;
            let f = admissible_unfolded(&xt, &ru.to_vec(), 1e-15)?;
            // listed finding: categories of a later categorical variable are picked in the
            // columns j..j+n of the unfolded point instead of its own ones
            let mut g = f.clone();
            let mut first = true;
            for (j, t) in xt.iter().enumerate() {
                if let XType::Enum(n) = t {
                    if !first {
                        let w: Vec<f64> = ru.to_vec()[j..j + n].to_vec();
                        let mx = w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                        g[j] = w.iter().position(|v| *v == mx).unwrap() as f64;
                    }
                    first = false;
                }
            }
            let r = rf.to_vec();
            if f != r && g == r {
                c.soft(fail("sampled-later-category", format!("folded {rf} vs unfolded {ru}")));
            } else {
                ensure!(f == r, "fold-unfold", "folded {rf} vs unfolded {ru}");
            }
        }
        // single precision
        if c.b(0.2) {
            let xf: Array2<f32> = must("mixint-f32", "f32 sampling", || {
                ctxm.create_lhs_sampling::<f32>(lhs_kind(KINDS[which % 4]), Some(seed)).sample(ns)
            })?;
            for r in xf.rows() {
                for (t, v) in xt.iter().zip(r.iter()) {
                    let v = *v as f64;
                    let ok = match t {
                        XType::Float(a, b) => v >= a - 1e-5 * (1. + a.abs()) && v <= b + 1e-5 * (1. + b.abs()),
                        XType::Int(a, b) => v.fract() == 0. && v >= *a as f64 && v <= *b as f64,
                        XType::Ord(l) => l.iter().any(|w| *w as f32 as f64 == v),
                        XType::Enum(n) => v.fract() == 0. && v >= 0. && v < *n as f64,
                    };
                    ensure!(ok, "inadmissible-f32", "type {t:?} value {v}");
                }
            }
        }
        Ok(())
    });
    ctx.cases("coverage", ctx.n(600, 6000), ctx.n(20, 200) as f64, nthreads(), |c| {
        let xt = rand_xtypes(c, 5);
        let which = c.i(0, 3);
        let seed: u64 = c.rng.gen();
        let ns = 500;
        c.describe(format!("coverage method={which} seed={seed} xtypes={xt:?}"));
        let m = MixintContext::new(&xt);
        let x: Array2<f64> = must("mixint-sample", "sampling", || match which {
            0 | 1 | 2 => m.create_lhs_sampling(lhs_kind(KINDS[[0, 1, 3][which]]), Some(seed)).sample(ns),
            _ => m.create_rand_sampling(Some(seed)).sample(ns),
        })?;
        let mut later = false;
        for (i, t) in xt.iter().enumerate() {
            let col = x.column(i);
            if matches!(t, XType::Enum(_)) {
                if later {
                    // listed finding sampled-later-category biases the levels
                    continue;
                }
                later = true;
            }
            let seen = |v: f64| col.iter().any(|w| *w == v);
            match t {
                XType::Float(..) => {}
                XType::Int(a, b) => {
                    // a level's cell spans at least 1/(2*15) of the range: 500 points
                    for k in *a..=*b {
                        ensure!(seen(k as f64), "level-missed", "variable {i} {t:?}: level {k} never drawn in {ns} points");
                        c.count("levels", 1);
                    }
                }
                XType::Ord(l) => {
                    let mut s = l.clone();
                    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    let range = s[s.len() - 1] - s[0];
                    for k in 0..s.len() {
                        let lo = if k == 0 { s[0] } else { 0.5 * (s[k - 1] + s[k]) };
                        let hi = if k + 1 == s.len() { s[k] } else { 0.5 * (s[k] + s[k + 1]) };
                        if s.len() == 1 || (hi - lo) / range > 0.06 {
                            ensure!(seen(s[k]), "level-missed", "variable {i} {t:?}: level {} never drawn", s[k]);
                            c.count("levels", 1);
                        }
                    }
                }
                XType::Enum(n) => {
                    for k in 0..*n {
                        let cnt = col.iter().filter(|w| **w == k as f64).count() as f64;
                        ensure!(cnt > 0., "level-missed", "variable {i} {t:?}: level {k} never drawn");
                        let p = 1. / *n as f64;
                        let z = (cnt - ns as f64 * p) / (ns as f64 * p * (1. - p)).sqrt().max(1.);
                        // centred LHS has ties in the masks; the first index is favoured a little
                        ensure!(z.abs() < 8., "level-frequency", "variable {i} {t:?}: level {k} drawn {cnt} times of {ns}");
                        c.count("levels", 1);
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn rand_admissible(c: &mut Case, xt: &[XType]) -> Vec<f64> {
    xt.iter()
        .map(|t| match t {
            XType::Float(a, b) => match c.i(0, 4) {
                0 => *a,
                1 => *b,
                _ => c.u(*a, *b),
            },
            XType::Int(a, b) => c.rng.gen_range(*a..=*b) as f64,
            XType::Ord(l) => *c.pick(l),
            XType::Enum(n) => c.i(0, n - 1) as f64,
        })
        .collect()
}

fn to_arr(v: &[Vec<f64>]) -> Array2<f64> {
    let m = v.first().map(|r| r.len()).unwrap_or(0);
    Array2::from_shape_fn((v.len(), m), |(i, j)| v[i][j])
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("Random type lists (as C03); admissible points (bounds, every level) for the round trip, relaxed points (uniform, at bounds, on ties and level boundaries, masks with ties) for the projection; non-trivial when the list has a discrete variable.");
    ctx.cases("relax", ctx.n(40000, 400000), ctx.n(25, 300) as f64, nthreads(), |c| {
        let xt = rand_xtypes(c, 7);
        let d = unf_dim(&xt);
        let seedtag = c.idx;
        c.describe(format!("relax {seedtag} xtypes={xt:?}"));
        if !xt.iter().any(|t| !matches!(t, XType::Float(_, _))) {
            c.key = 0;
        }
        // bounds
        let lim = as_continuous_limits::<f64>(&xt);
        let lim32 = as_continuous_limits::<f32>(&xt);
        ensure!(lim.dim() == (d, 2), "limits-dim", "{:?} expected ({d},2)", lim.dim());
        let mut k = 0;
        for t in &xt {
            let (n, a, b) = match t {
                XType::Float(a, b) => (1, *a, *b),
                XType::Int(a, b) => (1, *a as f64, *b as f64),
                XType::Ord(l) => (
                    1,
                    l.iter().cloned().fold(f64::INFINITY, f64::min),
                    l.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
                ),
                XType::Enum(n) => (*n, 0., 1.),
            };
            for _ in 0..n {
                ensure!(lim[[k, 0]] == a && lim[[k, 1]] == b, "limits", "type {t:?}: limits {}", lim.row(k));
                ensure!(lim32[[k, 0]] == a as f32 && lim32[[k, 1]] == b as f32, "limits32", "type {t:?}: limits {}", lim32.row(k));
                k += 1;
            }
        }
        // round trip
        let n = c.i(1, 6);
        let pts: Vec<Vec<f64>> = (0..n).map(|_| rand_admissible(c, &xt)).collect();
        let x = to_arr(&pts);
        let u = must("unfold", &format!("relaxing {x}"), || to_continuous_space(&xt, &x))?;
        ensure!(u.dim() == (n, d), "unfold-shape", "{:?}", u.dim());
        for (i, r) in u.rows().into_iter().enumerate() {
            let f = admissible_unfolded(&xt, &r.to_vec(), 0.)?;
            ensure!(f == pts[i], "unfold-value", "{:?} relaxed to {r}", pts[i]);
            for (j, v) in r.iter().enumerate() {
                ensure!(*v >= lim[[j, 0]] && *v <= lim[[j, 1]], "unfold-bounds", "{v} outside limits of column {j}");
            }
        }
        let back = must("fold", &format!("discretising {u}"), || to_discrete_space(&xt, &u))?;
        ensure!(back == x, "round-trip", "{x} -> {u} -> {back}");
        c.count("round trips", n as u64);
        // projection of relaxed points
        let rel = Array2::from_shape_fn((n, d), |(_, j)| {
            let (a, b) = (lim[[j, 0]], lim[[j, 1]]);
            match c.i(0, 9) {
                0 => a,
                1 => b,
                2 => {
                    // half-way between integers
                    let h = (c.u(a, b)).floor() + 0.5;
                    h.clamp(a, b)
                }
                3 => 0.5 * (a + b),
                _ => c.u(a, b),
            }
        });
        let p = must("project", &format!("discretising {rel}"), || to_discrete_space(&xt, &rel))?;
        ensure!(p.dim() == (n, xt.len()), "project-shape", "{:?}", p.dim());
        for i in 0..n {
            let pv = p.row(i).to_vec();
            admissible_folded(&xt, &pv, 0.)?;
            let mut k = 0;
            for (j, t) in xt.iter().enumerate() {
                match t {
                    XType::Float(..) => {
                        ensure!(pv[j] == rel[[i, k]], "project-float", "float {} became {}", rel[[i, k]], pv[j]);
                        k += 1
                    }
                    XType::Int(..) => {
                        ensure!((pv[j] - rel[[i, k]]).abs() <= 0.5, "project-int", "{} -> {}", rel[[i, k]], pv[j]);
                        k += 1
                    }
                    XType::Ord(l) => {
                        let best = l.iter().map(|v| (v - rel[[i, k]]).abs()).fold(f64::INFINITY, f64::min);
                        ensure!((pv[j] - rel[[i, k]]).abs() <= best, "project-ord", "{} -> {} in {l:?}", rel[[i, k]], pv[j]);
                        k += 1
                    }
                    XType::Enum(m) => {
                        let mask: Vec<f64> = (k..k + m).map(|q| rel[[i, q]]).collect();
                        let mx = mask.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                        ensure!(mask[pv[j] as usize] == mx, "project-enum", "mask {mask:?} -> level {}", pv[j]);
                        k += m
                    }
                }
            }
        }
        c.count("projections", n as u64);
        // idempotence
        let u2 = to_continuous_space(&xt, &p);
        let p2 = to_discrete_space(&xt, &u2);
        ensure!(p2 == p, "idempotent", "{p} -> {u2} -> {p2}");
        Ok(())
    });
}
