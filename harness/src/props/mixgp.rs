//! C30: mixed-integer surrogates are the continuous surrogates of discretised points.
use crate::ensure;
use crate::fw::*;
use crate::props::mixint::*;
use crate::props::moe::*;
use egobox_ego::gpmix::mixint::*;
use egobox_ego::XType;
use egobox_moe::*;
use linfa::prelude::*;
use linfa::ParamGuard;
use ndarray::{Array1, Array2};
use ndarray_rand::rand::{Rng, SeedableRng};
use std::result::Result;

fn arr(v: &[Vec<f64>]) -> Array2<f64> {
    Array2::from_shape_fn((v.len(), v[0].len()), |(i, j)| v[i][j])
}

/// one-hot encoding of categorical values
pub fn unfold(xt: &[XType], x: &[f64]) -> Vec<f64> {
    let mut r = vec![];
    for (t, v) in xt.iter().zip(x) {
        match t {
            XType::Enum(n) => r.extend((0..*n).map(|k| (k == *v as usize) as u8 as f64)),
            _ => r.push(*v),
        }
    }
    r
}

/// a relaxed point (no tie) and the admissible unfolded point closest to it
fn relaxed(c: &mut Case, xt: &[XType]) -> (Vec<f64>, Vec<f64>) {
    let (mut r, mut s) = (vec![], vec![]);
    for t in xt {
        match t {
            XType::Float(a, b) => {
                let v = c.u(*a, *b);
                r.push(v);
                s.push(v);
            }
            XType::Int(a, b) => {
                let k = c.rng.gen_range(*a..=*b);
                let mut v = k as f64 + c.u(-0.49, 0.49);
                if v < *a as f64 || v > *b as f64 {
                    v = k as f64;
                }
                r.push(v);
                s.push(k as f64);
            }
            XType::Ord(l) => {
                let k = *c.pick(l);
                let gap = l.iter().filter(|v| **v != k).map(|v| (v - k).abs()).fold(f64::MAX, f64::min);
                let gap = if gap == f64::MAX { 0. } else { gap };
                let (lo, hi) = (l.iter().cloned().fold(f64::MAX, f64::min), l.iter().cloned().fold(f64::MIN, f64::max));
                let v = (k + 0.45 * gap * c.u(-1., 1.)).clamp(lo, hi);
                r.push(v);
                s.push(k);
            }
            XType::Enum(n) => {
                let k = c.i(0, n - 1);
                for j in 0..*n {
                    r.push(if j == k { c.u(0.6, 1.) } else { c.u(0., 0.59) });
                    s.push((j == k) as u8 as f64);
                }
            }
        }
    }
    (r, s)
}

type Out = (Array1<f64>, Array1<f64>, (Array1<f64>, Array1<f64>), Array2<f64>, Array2<f64>, (Array2<f64>, Array2<f64>));
fn outs<S: GpSurrogate + GpSurrogateExt>(m: &S, q: &Array2<f64>) -> Result<Out, MoeError> {
    let v = q.view();
    Ok((m.predict(&v)?, m.predict_var(&v)?, m.predict_valvar(&v)?, m.predict_gradients(&v)?, m.predict_var_gradients(&v)?, m.predict_valvar_gradients(&v)?))
}
fn eq1(a: &Array1<f64>, b: &Array1<f64>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= 1e-7 * (x.abs() + y.abs()) || (x.is_nan() && y.is_nan()))
}
fn eq2(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.dim() == b.dim() && {
        let m = a.iter().chain(b.iter()).fold(0f64, |m, v| m.max(v.abs()));
        a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= 1e-6 * m || (x.is_nan() && y.is_nan()))
    }
}
/// `smooth`: the correlation has derivatives at training coordinates
fn same(what: &str, a: &Out, b: &Out, smooth: bool) -> Res {
    ensure!(eq1(&a.0, &b.0), "predict", "{what}: predictions {} expected {}", a.0, b.0);
    ensure!(eq1(&a.1, &b.1), "variance", "{what}: variances {} expected {}", a.1, b.1);
    ensure!(eq1(&a.2 .0, &b.0) && eq1(&a.2 .1, &b.1), "valvar", "{what}: values and variances {} {} expected {} {}", a.2 .0, a.2 .1, b.0, b.1);
    if !smooth {
        return Ok(());
    }
    ensure!(eq2(&a.3, &b.3), "gradients", "{what}: gradients {} expected {}", a.3, b.3);
    ensure!(eq2(&a.4, &b.4), "var-gradients", "{what}: variance gradients {} expected {}", a.4, b.4);
    ensure!(eq2(&a.5 .0, &b.3) && eq2(&a.5 .1, &b.4), "valvar-gradients", "{what}: combined gradients differ");
    Ok(())
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("Random lists of float, integer, ordered and categorical variables, mixtures trained through the mixed-integer layer in folded and unfolded spaces; predictions, variances, gradients, samples and linfa predictions at relaxed and discrete points compared with a continuous mixture trained (same seed) on the one-hot discretised data; saved and loaded in both formats. Non-trivial: list with a discrete variable and trained model.");
    let dir = scratch(ctx, "mixgp");
    let dir = &dir;
    ctx.cases("surrogate", ctx.n(2500, 40000), ctx.n(30, 300) as f64, nthreads(), |c| {
        let xt = rand_xtypes(c, 4);
        let d = unf_dim(&xt);
        let k = if c.b(0.25) { 2 } else { 1 };
        let n = c.i(8, 18) * k + d;
        let mut rows: Vec<Vec<f64>> = vec![];
        for _ in 0..6 * n {
            let r = rand_admissible(c, &xt);
            if rows.len() < n && !rows.contains(&r) {
                rows.push(r);
            }
        }
        if rows.len() < 4 * k {
            c.key = 0;
            return Ok(());
        }
        let a: Vec<f64> = xt.iter().map(|_| c.normal()).collect();
        let y = Array1::from_vec(
            rows.iter()
                .map(|r| r.iter().zip(&xt).zip(&a).map(|((v, t), a)| match t {
                    XType::Enum(n) => a * ((*v + 1.) * 2.1 * *n as f64).sin(),
                    _ => (a * v).sin() + 0.1 * a * v,
                }).sum::<f64>() + 0.01 * c.normal())
                .collect(),
        );
        let xf = arr(&rows);
        let xu = arr(&rows.iter().map(|r| unfold(&xt, r)).collect::<Vec<_>>());
        let seed: u64 = c.rng.gen();
        let recomb = rand_recomb(c, false);
        let (rs, cs) = (
            *c.pick(&[RegressionSpec::CONSTANT, RegressionSpec::CONSTANT, RegressionSpec::LINEAR]),
            *c.pick(&[CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::ABSOLUTEEXPONENTIAL, CorrelationSpec::MATERN32, CorrelationSpec::MATERN52]),
        );
        // linfa's PLS itself panics with more components than the rank of the data
        let rank: usize = (0..xf.ncols()).filter(|j| (0..xf.nrows()).any(|i| xf[[i, *j]] != xf[[0, *j]])).count();
        let kpls = if d > 2 && rank >= 2 && c.b(0.15) { Some(2) } else { None };
        c.describe(format!("xtypes={xt:?} n={} k={k} {rs:?} {cs:?} {recomb:?} kpls={kpls:?} seed={seed}", rows.len()));
        let b: MoeBuilder = GpMixtureParams::new().n_clusters(NbClusters::fixed(k)).recombination(recomb).regression_spec(rs).correlation_spec(cs).kpls_dim(kpls).n_start(2).max_eval(25).with_rng(R64::seed_from_u64(seed));
        if kpls.is_some() && guard(|| b.clone().fit(&Dataset::new(xu.clone(), y.clone()))).is_err() {
            // the same may happen in one of the clusters
            c.key = 0;
            return Ok(());
        }
        let r = must("reference", "training the continuous mixture", || b.clone().fit(&Dataset::new(xu.clone(), y.clone())))?;
        // folded, unfolded, and unfolded from relaxed training points
        let fold = MixintContext::new(&xt);
        let mf = must("train-folded", "training in the folded space", || fold.create_surrogate(&b, &Dataset::new(xf.clone(), y.clone())))?;
        let mut pu = MixintGpMixtureParams::new(&xt, &b);
        pu.work_in_folded_space(false);
        let mu = must("train-unfolded", "training in the unfolded space", || pu.clone().check().unwrap().fit(&Dataset::new(xu.clone(), y.clone())))?;
        let (r, mf, mu) = match (r, mf, mu) {
            (Ok(r), Ok(f), Ok(u)) => (r, f, u),
            (Err(_), Err(_), Err(_)) => {
                c.key = 0;
                c.count("refused", 1);
                return Ok(());
            }
            (r, f, u) => return fail("refusal", format!("continuous trained: {} folded: {} unfolded: {}", r.is_ok(), f.is_ok(), u.is_ok())),
        };
        if xt.iter().all(|t| matches!(t, XType::Float(_, _))) {
            c.key = 0;
        }
        ensure!(mf.to_string().starts_with("MixInt") == xt.iter().any(|t| !matches!(t, XType::Float(_, _))), "display", "{mf}");
        let nq = c.i(1, 6);
        let (mut rel, mut dis) = (vec![], vec![]);
        for _ in 0..nq {
            let (a, b) = relaxed(c, &xt);
            rel.push(a);
            dis.push(b);
        }
        let (rel, dis) = (arr(&rel), arr(&dis));
        let e = outs(&r, &dis).map_err(|e| Fail { sig: "reference".into(), msg: e.to_string() })?;
        let o = must_ok("predict-unfolded", "predicting at relaxed points", || outs(&mu, &rel))?;
        same("relaxed points", &o, &e, cs != CorrelationSpec::ABSOLUTEEXPONENTIAL)?;
        let o = must_ok("predict-unfolded", "predicting at discrete points", || outs(&mu, &dis))?;
        same("discrete points", &o, &e, cs != CorrelationSpec::ABSOLUTEEXPONENTIAL)?;
        let lp: Array1<f64> = must("linfa", "linfa prediction", || linfa::traits::Predict::predict(&mu, &rel))?;
        ensure!(eq1(&lp, &e.0), "linfa", "linfa predictions {lp} expected {}", e.0);
        // folded queries
        let fq: Vec<Vec<f64>> = (0..nq).map(|_| rand_admissible(c, &xt)).collect();
        let uq = arr(&fq.iter().map(|r| unfold(&xt, r)).collect::<Vec<_>>());
        let fq = arr(&fq);
        let e = outs(&r, &uq).map_err(|e| Fail { sig: "reference".into(), msg: e.to_string() })?;
        let o = must_ok("predict-folded", "predicting in the folded space", || outs(&mf, &fq))?;
        same("folded points", &o, &e, cs != CorrelationSpec::ABSOLUTEEXPONENTIAL)?;
        let lp: Array1<f64> = must("linfa", "linfa prediction", || linfa::traits::Predict::predict(&mf, &fq))?;
        ensure!(eq1(&lp, &e.0), "linfa", "linfa predictions {lp} expected {}", e.0);
        ensure!(mf.n_clusters() == k && mf.experts().len() == k, "clusters", "{} clusters", mf.n_clusters());
        // samples
        let s = must("sample", "sampling", || mf.sample(&fq.view(), 3).map(|s| s.dim()))?;
        ensure!(if k == 1 { s.as_ref().ok() == Some(&(nq, 3)) } else { s.is_err() }, "sample", "sampling gives {s:?} with {k} clusters");
        // training data in the caller's space, metrics
        let (tx, ty) = GpQualityAssurance::training_data(&mf);
        ensure!(tx == xf && ty == y, "training-data", "training data is not the given one");
        if c.b(0.2) {
            let kf = c.i(2, 4);
            if let Ok(q2) = guard(|| r.q2_k(kf)) {
                let a = must("q2", "Q2 in the folded space", || mf.q2_k(kf))?;
                let b = must("q2", "Q2 in the unfolded space", || mu.q2_k(kf))?;
                // optimisers may amplify the different order of sums
                ensure!((a - q2).abs() <= 0.05 * (1. + (1. - q2).abs()) && (b - q2).abs() <= 0.05 * (1. + (1. - q2).abs()), "q2", "Q2 {a} {b} expected {q2}");
                c.count("metrics", 1);
            }
        }
        // persistence
        if c.b(0.3) {
            for (fmt, exact) in [(GpFileFormat::Json, false), (GpFileFormat::Binary, true)] {
                let again = || if exact { GpFileFormat::Binary } else { GpFileFormat::Json };
                let _ = fmt;
                let path = dir.join(format!("s{}-{exact}", c.idx));
                let ps = path.to_str().unwrap();
                must_ok("save", "saving", || mf.save(ps, again()))?;
                let l = must_ok("load", "loading", || MixintGpMixture::load(ps, again()))?;
                same_value(&serde_json::to_value(&mf).unwrap(), &serde_json::to_value(l.as_ref()).unwrap(), exact, "")?;
                let o = must_ok("predict-loaded", "predicting with the loaded model", || outs(l.as_ref(), &fq))?;
                if exact {
                    ensure!(eq1(&o.0, &e.0), "loaded", "loaded model predicts {} instead of {}", o.0, e.0);
                }
                let bytes = std::fs::read(&path).unwrap();
                for cut in [0, bytes.len() / 2, bytes.len() - 1, c.i(0, bytes.len() - 1)] {
                    std::fs::write(&path, &bytes[..cut]).unwrap();
                    let r = must("load-truncated", "loading a truncated file", || MixintGpMixture::load(ps, again()).is_ok())?;
                    ensure!(!r, "truncated", "file truncated at {cut} of {} was loaded", bytes.len());
                }
                std::fs::remove_file(&path).unwrap();
                let r = must("load-missing", "loading a missing file", || MixintGpMixture::load(ps, again()).is_ok())?;
                ensure!(!r, "missing", "missing file loaded");
                let nodir = dir.join("absent").join("m");
                let r = must("save-nodir", "saving in a missing directory", || mf.save(nodir.to_str().unwrap(), again()).is_ok())?;
                ensure!(!r, "save-nodir", "saved in a missing directory");
            }
            c.count("saved", 1);
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(dir);
}
