//! C32: surrogates are trained as configured. A recording builder around the real one.
use crate::ensure;
use crate::fw::*;
use argmin::core::Executor;
use egobox_ego::{CoegoStatus, CorrelationSpec, Cstr, EgorConfig, EgorSolver, InfillOptimizer, ObjFunc, QEiStrategy, RegressionSpec, SurrogateBuilder, XType};
use egobox_moe::{Clustering, GpMixtureParams, MixtureGpSurrogate, NbClusters, Recombination, ThetaTuning};
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use ndarray_rand::rand::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Mutex;

type Thetas = Vec<Vec<f64>>;
#[derive(Clone, Debug)]
struct Training {
    regr: Option<u8>,
    corr: Option<u8>,
    kpls: Option<Option<usize>>,
    clusters: Option<NbClusters>,
    recomb: Option<Recombination<f64>>,
    optim: Option<(usize, usize)>,
    tunings: Option<Vec<ThetaTuning<f64>>>,
    /// serialised clustering received, when trained on given clusters
    given: Option<String>,
    n: usize,
    y0: Vec<f64>,
    // outcome
    thetas: Thetas,
    clustering: String,
}
enum Event {
    Eval(usize),
    Train(Training),
}
static LOG: Mutex<BTreeMap<u64, Vec<Event>>> = Mutex::new(BTreeMap::new());

#[derive(Clone, Serialize, Deserialize)]
pub struct RecBuilder {
    key: u64,
    inner: GpMixtureParams<f64>,
    #[serde(skip)]
    regr: Option<u8>,
    #[serde(skip)]
    corr: Option<u8>,
    #[serde(skip)]
    kpls: Option<Option<usize>>,
    #[serde(skip)]
    clusters: Option<NbClusters>,
    #[serde(skip)]
    recomb: Option<Recombination<f64>>,
    #[serde(skip)]
    optim: Option<(usize, usize)>,
    #[serde(skip)]
    tunings: Option<Vec<ThetaTuning<f64>>>,
}
fn print(c: &Clustering) -> String {
    serde_json::to_string(c).unwrap()
}
impl RecBuilder {
    fn note(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>, given: Option<&Clustering>, m: &dyn MixtureGpSurrogate) {
        let t = Training {
            regr: self.regr,
            corr: self.corr,
            kpls: self.kpls,
            clusters: self.clusters.clone(),
            recomb: self.recomb,
            optim: self.optim,
            tunings: self.tunings.clone(),
            given: given.map(print),
            n: xt.nrows(),
            y0: yt.iter().take(3).cloned().collect(),
            thetas: m.experts().iter().map(|e| e.theta().to_vec()).collect(),
            clustering: print(&m.to_clustering()),
        };
        LOG.lock().unwrap().get_mut(&self.key).expect("registered").push(Event::Train(t));
    }
}
impl SurrogateBuilder for RecBuilder {
    fn new_with_xtypes(xt: &[XType]) -> Self {
        let key = match xt[0] {
            XType::Float(a, _) => a.to_bits(),
            _ => unreachable!(),
        };
        RecBuilder { key, inner: GpMixtureParams::<f64>::new_with_xtypes(xt), regr: None, corr: None, kpls: None, clusters: None, recomb: None, optim: None, tunings: None }
    }
    fn set_regression_spec(&mut self, v: RegressionSpec) {
        self.regr = Some(v.bits());
        self.inner.set_regression_spec(v);
    }
    fn set_correlation_spec(&mut self, v: CorrelationSpec) {
        self.corr = Some(v.bits());
        self.inner.set_correlation_spec(v);
    }
    fn set_kpls_dim(&mut self, v: Option<usize>) {
        self.kpls = Some(v);
        self.inner.set_kpls_dim(v);
    }
    fn set_n_clusters(&mut self, v: NbClusters) {
        self.clusters = Some(v.clone());
        self.inner.set_n_clusters(v);
    }
    fn set_recombination(&mut self, v: Recombination<f64>) {
        self.recomb = Some(v);
        self.inner.set_recombination(v);
    }
    fn set_theta_tunings(&mut self, v: &[ThetaTuning<f64>]) {
        self.tunings = Some(v.to_vec());
        self.inner.set_theta_tunings(v);
    }
    fn set_optim_params(&mut self, a: usize, b: usize) {
        self.optim = Some((a, b));
        self.inner.set_optim_params(a, b);
    }
    fn train(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        let m = self.inner.train(xt, yt)?;
        self.note(xt, yt, None, &*m);
        Ok(m)
    }
    fn train_on_clusters(&self, xt: ArrayView2<f64>, yt: ArrayView1<f64>, c: &Clustering) -> egobox_ego::Result<Box<dyn MixtureGpSurrogate>> {
        let m = self.inner.train_on_clusters(xt, yt, c)?;
        self.note(xt, yt, Some(c), &*m);
        Ok(m)
    }
}

/// What a tuning asks for n thetas: initial guess and, per theta, the bounds within which it is optimised
fn meaning(t: &ThetaTuning<f64>, n: usize) -> (Vec<f64>, Vec<Option<(f64, f64)>>) {
    let spread = |v: &Array1<f64>| if v.len() == 1 { vec![v[0]; n] } else { v.to_vec() };
    let init = spread(t.init());
    let opt = match (t, t.bounds()) {
        (ThetaTuning::Partial { active, .. }, Some(b)) => (0..n).map(|i| active.contains(&i).then(|| if b.len() == 1 { b[0] } else { b[i] })).collect(),
        (_, Some(b)) => (0..n).map(|i| Some(if b.len() == 1 { b[0] } else { b[i] })).collect(),
        (_, None) => vec![None; n],
    };
    (init, opt)
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("Optimisations whose surrogate builder is a recorder around the real one: for each training, the specifications, optimiser parameters, initial thetas, bounds, active components and clusters received against the configuration and the previous surrogate of the same output. Non-trivial: at least three trainings.");
    ctx.cases("trainings", ctx.n(700, 8000), ctx.n(35, 400) as f64, nthreads(), |c| one(c));
}

fn one(c: &mut Case) -> Res {
    let auto = c.b(0.06);
    let d = if auto { 1 } else { *c.pick(&[1, 2, 3, 4, 12]) };
    let nc = if auto { 0 } else { c.i(0, 2) };
    let mut q = c.i(1, 3);
    let mut iters = c.i(1, 4);
    if auto {
        q = *c.pick(&[1, 2, 5]);
        iters = 20 / q + 2;
    }
    let optmod = c.i(1, 4);
    let coego = if d > 1 && c.b(0.3) { c.i(1, d.min(4)) } else { 0 };
    let lo: Vec<f64> = (0..d).map(|_| c.u(-5., -4.5)).collect();
    let hi: Vec<f64> = (0..d).map(|_| c.u(-1., 5.)).collect();
    let key = lo[0];
    let kpls = if d > 2 && coego == 0 && c.b(0.25) { Some(c.i(1, d - 1)) } else { None };
    let regr = if c.b(0.7) { RegressionSpec::CONSTANT } else { RegressionSpec::LINEAR };
    let corr = CorrelationSpec::from_bits(*c.pick(&[1u8, 2, 4, 8, 8])).unwrap();
    let fixed = if coego == 0 && d <= 2 && c.b(0.2) { 2 } else { 1 };
    let clusters = if auto { NbClusters::automax(2) } else { NbClusters::fixed(fixed) };
    let recomb = *c.pick(&[Recombination::Hard, Recombination::Smooth(Some(1.)), Recombination::Smooth(None)]);
    let nt = kpls.unwrap_or(d);
    let init: Vec<f64> = (0..if c.b(0.3) { 1 } else { nt }).map(|_| 10f64.powf(c.u(-1., 0.3))).collect();
    let bounds: Vec<(f64, f64)> = (0..if c.b(0.3) { 1 } else { nt }).map(|_| (10f64.powf(c.u(-4., -2.)), 10f64.powf(c.u(0.5, 2.)))).collect();
    let (ia, ba) = (Array1::from_vec(init.clone()), Array1::from_vec(bounds.clone()));
    let kind = c.i(0, 9);
    let tuning = match kind {
        0..=2 => ThetaTuning::default(),
        3..=6 => ThetaTuning::Full { init: ia, bounds: ba },
        7 if coego == 0 => ThetaTuning::Partial { init: ia, bounds: ba, active: (0..nt).filter(|_| c.b(0.6)).collect() },
        8 => ThetaTuning::Fixed(ia),
        _ => ThetaTuning::Full { init: ia, bounds: ndarray::array![ThetaTuning::<f64>::DEFAULT_BOUNDS] },
    };
    let user_bounds = matches!(&tuning, ThetaTuning::Full { bounds, .. } | ThetaTuning::Partial { bounds, .. } if bounds.len() > 1 || bounds[0] != ThetaTuning::<f64>::DEFAULT_BOUNDS);
    let (n_start, max_eval) = (c.i(0, 3), *c.pick(&[25usize, 30, 60]));
    let nd = if fixed == 2 || auto { 16 } else { c.i(5, 9).max(d + 3) };
    let doe = Array2::from_shape_fn((nd, d), |(i, j)| {
        // two groups of points when clusters are asked
        let u = c.u(0., 1.);
        let u = if fixed == 2 { if i % 2 == 0 { 0.35 * u } else { 0.65 + 0.35 * u } } else { u };
        lo[j] + (hi[j] - lo[j]) * u
    });
    let fr = c.u(0.3, 1.5);
    let ph: Vec<f64> = (0..=nc).map(|_| c.u(0., 6.)).collect();
    let val = move |x: &[f64], k: usize| -> f64 { x.iter().enumerate().map(|(i, v)| (fr * v + ph[k] + i as f64).sin() + 0.05 * v * v).sum::<f64>() - k as f64 };
    let seed = c.rng.gen::<u64>();
    c.describe(format!("d={d} cstr={nc} q={q} iters={iters} optmod={optmod} coego={coego} kpls={kpls:?} regr={regr:?} corr={corr:?} clusters={clusters:?} recomb={recomb:?} tuning={tuning:?} n_start={n_start} max_eval={max_eval} doe={nd} seed={seed} {lo:?} {hi:?}"));
    LOG.lock().unwrap().insert(key.to_bits(), vec![]);
    let y0: Vec<Vec<f64>> = (0..=nc).map(|k| (0..3).map(|i| val(&doe.row(i).to_vec(), k)).collect()).collect();
    let obj = {
        let val = val.clone();
        move |x: &ArrayView2<f64>| -> Array2<f64> {
            LOG.lock().unwrap().get_mut(&key.to_bits()).unwrap().push(Event::Eval(x.nrows()));
            Array2::from_shape_fn((x.nrows(), nc + 1), |(i, k)| val(&x.row(i).to_vec(), k))
        }
    };
    let xt: Vec<XType> = lo.iter().zip(&hi).map(|(a, b)| XType::Float(*a, *b)).collect();
    let mut cfg = EgorConfig::default()
        .xtypes(&xt)
        .doe(&doe)
        .n_cstr(nc)
        .max_iters(iters)
        .q_points(q)
        .qei_strategy(QEiStrategy::KrigingBeliever)
        .q_optmod(optmod)
        .infill_optimizer(InfillOptimizer::Cobyla)
        .n_start(2)
        .seed(seed)
        .configure_gp(|g| g.regression_spec(regr).correlation_spec(corr).kpls_dim(kpls).n_clusters(clusters.clone()).recombination(recomb).theta_tuning(tuning.clone()).n_start(n_start).max_eval(max_eval));
    if coego > 0 {
        cfg = cfg.coego(CoegoStatus::Enabled(coego));
    }
    let cfg = must_ok("config", "checking the configuration", || cfg.check())?;
    let r = guard(|| {
        let solver: EgorSolver<RecBuilder, Cstr> = EgorSolver::new(cfg);
        Executor::new(ObjFunc::<_, Cstr>::new(obj), solver).ctrlc(false).run().map(|_| ()).map_err(|e| e.to_string())
    });
    let log = LOG.lock().unwrap().remove(&key.to_bits()).unwrap_or_default();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("run-error", e),
        // surrogates of small clusters, or of points on a plane, may be impossible
        Err(e) if e.contains("GP training failure") => {
            c.count("surrogates impossible", 1);
        }
        Err(e) => return fail("run-panic", e),
    }
    // per output: previous surrogate
    let mut prev: BTreeMap<usize, Training> = BTreeMap::new();
    let mut all: BTreeMap<usize, Vec<Thetas>> = BTreeMap::new();
    let (mut iter, mut points, mut before, mut total) = (0usize, 0usize, 0usize, 0);
    // per output: trainings since the last evaluation
    let mut within: BTreeMap<usize, usize> = BTreeMap::new();
    let mut groups: BTreeMap<usize, Vec<Vec<usize>>> = BTreeMap::new();
    let mut first = true;
    for ev in &log {
        let t = match ev {
            Event::Eval(n) => {
                before = points;
                points += n;
                if !first {
                    iter += 1;
                    for (k, g) in &groups {
                        ensure!(coego == 0 || g.len() == q.min(g.len()) * coego || g.len() % coego == 0, "coego-trainings", "output {k} is trained {} times in an iteration with {coego} groups", g.len());
                    }
                }
                within.clear();
                groups.clear();
                continue;
            }
            Event::Train(t) => t,
        };
        // the given design is evaluated before any training
        first = false;
        total += 1;
        let k = match y0.iter().position(|y| *y == t.y0) {
            Some(k) => k,
            None => return fail("training-outputs", format!("a surrogate is trained with outputs {:?}.. of no output {y0:?}", t.y0)),
        };
        let what = format!("output {k} iteration {iter} training {:?}", within.get(&k));
        ensure!(t.regr == Some(regr.bits()) && t.corr == Some(corr.bits()), "specs", "{what}: regression {:?} correlation {:?}", t.regr, t.corr);
        ensure!(t.kpls == Some(kpls), "kpls", "{what}: {:?} PLS components", t.kpls);
        ensure!(t.clusters.as_ref() == Some(&clusters), "clusters", "{what}: {:?} clusters", t.clusters);
        ensure!(t.recomb == Some(recomb), "recombination", "{what}: {:?}", t.recomb);
        ensure!(t.optim == Some((n_start, max_eval)), "optimiser", "{what}: (starts, evaluations) {:?} instead of {:?}", t.optim, (n_start, max_eval));
        let pos = within.entry(k).or_default();
        let per = if coego > 0 { coego } else { 1 };
        let (i, a) = ((*pos / per) % q, *pos % per);
        *pos += 1;
        // the total number of points passed a multiple of ten with the last batch
        let recluster = auto && before > 0 && points / 10 > before / 10;
        let make = (iter == 0 && i == 0) || recluster;
        ensure!(t.given.is_none() == make, "clustering", "{what}: clusters are {} with {points} points, {before} before", if make { "not computed again" } else { "computed again" });
        c.count(if make { "clusterings" } else { "clusters kept" }, 1);
        if let (Some(g), Some(p)) = (&t.given, prev.get(&k)) {
            ensure!(*g == p.clustering, "clusters-changed", "{what}: trained on other clusters than those of the previous surrogate\n{g}\n{}", p.clustering);
        }
        let optimise = if make { true } else { (iter * q + i) % optmod == 0 };
        let tun = match &t.tunings {
            Some(t) => t.clone(),
            None => vec![ThetaTuning::default()],
        };
        let (ci, cb) = meaning(&tuning, nt);
        // automatic clustering starts from the configuration, several experts have as many initial guesses
        let known: Vec<Vec<f64>> = match prev.get(&k) {
            Some(p) if !(auto && make) => p.thetas.clone(),
            _ => vec![ci.clone(); tun.len()],
        };
        ensure!(tun.len() == known.len(), "tunings", "{what}: {} tunings for {} experts", tun.len(), known.len());
        for (e, (tn, kn)) in tun.iter().zip(&known).enumerate() {
            let (init, opt) = meaning(tn, nt);
            if coego > 0 {
                let ok = init == ci || init == *kn || all.get(&k).map_or(false, |l| l.iter().any(|t| t.len() == 1 && t[0] == init));
                ensure!(ok, "theta-init", "{what}: initial thetas {init:?} were never those of a surrogate of this output");
            } else {
                ensure!(init == *kn, "theta-init", "{what}: initial thetas of expert {e} are {init:?} instead of {kn:?}");
            }
            let act: Vec<usize> = (0..nt).filter(|j| opt[*j].is_some()).collect();
            let want: Vec<usize> = if optimise || coego > 0 { (0..nt).filter(|j| cb[*j].is_some()).collect() } else { vec![] };
            if matches!(tuning, ThetaTuning::Fixed(_)) {
                ensure!(act.is_empty(), "fixed-theta-optimised", "{what}: thetas {act:?} are optimised, the configuration fixes them");
            } else if coego == 0 {
                ensure!(act == want, "theta-optimised", "{what}: thetas {act:?} are optimised instead of {want:?} (one training out of {optmod})");
            } else if optimise {
                ensure!(act.iter().all(|j| want.contains(j)), "theta-optimised", "{what}: thetas {act:?} are optimised");
                let g = groups.entry(k).or_default();
                g.push(act.clone());
                if a + 1 == per {
                    let mut u: Vec<usize> = g[g.len().saturating_sub(per)..].concat();
                    u.sort();
                    ensure!(g.len() % per != 0 || u == want, "coego-groups", "{what}: thetas optimised by group {g:?}, instead of a partition of {want:?}");
                }
            } else {
                ensure!(act.is_empty(), "theta-optimised", "{what}: thetas {act:?} are optimised (one training out of {optmod})");
            }
            for j in act {
                if user_bounds {
                    ensure!(opt[j] == cb[j], "theta-bounds", "{what}: theta {j} is optimised within {:?} instead of {:?}", opt[j], cb[j]);
                } else if nt < 10 {
                    ensure!(opt[j] == Some(ThetaTuning::<f64>::DEFAULT_BOUNDS), "theta-bounds", "{what}: theta {j} is optimised within {:?}", opt[j]);
                } else {
                    let b = opt[j].unwrap();
                    ensure!(0. < b.0 && b.0 < b.1 && b.1.is_finite(), "theta-bounds", "{what}: theta {j} is optimised within {b:?}");
                }
                // what is obtained obeys
                let l = opt[j].unwrap();
                if t.thetas.len() == known.len() {
                    ensure!(t.thetas[e][j] >= l.0 * (1. - 1e-9) && t.thetas[e][j] <= l.1 * (1. + 1e-9), "theta-out-of-bounds", "{what}: theta {j} of expert {e} is {} out of {l:?}", t.thetas[e][j]);
                }
            }
            if t.thetas.len() == known.len() {
                for j in 0..nt {
                    if opt[j].is_none() {
                        ensure!((t.thetas[e][j] / init[j] - 1.).abs() < 1e-9, "theta-changed", "{what}: theta {j} of expert {e} is not optimised and changes from {} to {}", init[j], t.thetas[e][j]);
                    }
                }
            }
        }
        if !auto {
            ensure!(t.thetas.len() == fixed, "experts", "{what}: {} experts, {fixed} clusters", t.thetas.len());
        }
        c.count(if optimise { "thetas optimised" } else { "thetas kept" }, 1);
        all.entry(k).or_default().push(t.thetas.clone());
        prev.insert(k, t.clone());
        c.sub.push(hash64(&t.thetas.concat().iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        let _ = t.n;
    }
    c.count("trainings", total);
    if auto {
        c.count("automatic clusters", 1);
    }
    if total < 3 {
        c.key = 0;
    }
    Ok(())
}
