//! Instrumented optimisation runs: problem generator, recording functions, state snapshots.
use crate::ensure;
use crate::fw::*;
use crate::props::mixint::{admissible_folded, rand_xtypes, unf_dim};
use argmin::core::observers::{Observe, ObserverMode};
use argmin::core::{Error, Executor, State, KV};
use egobox_ego::gpmix::mixint::MixintGpMixtureParams;
use egobox_ego::{
    CoegoStatus, ConstraintStrategy, CorrelationSpec, CstrFn, EgorConfig, EgorFactory, EgorSolver,
    EgorState, HotStartMode, InfillObjData, InfillOptimizer, InfillStrategy, ObjFunc, QEiStrategy,
    RegressionSpec, XType,
};
use egobox_moe::{GpMixtureParams, NbClusters, Recombination};
use ndarray::{Array1, Array2, ArrayView2};
use std::result::Result;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bowl,
    Ripple,
    Steps,
    Const,
    Huge,
    Tiny,
    Noise,
    Jump,
    // known problems of C26
    Branin,
    Xsinx,
    Rosen,
}
pub const KINDS: [Kind; 8] = [
    Kind::Bowl,
    Kind::Ripple,
    Kind::Steps,
    Kind::Const,
    Kind::Huge,
    Kind::Tiny,
    Kind::Noise,
    Kind::Jump,
];

/// Objective and modelled constraints in normalised coordinates.
#[derive(Clone, Debug)]
pub struct Fun {
    pub kind: Kind,
    pub c: Vec<f64>,
    pub w: Vec<f64>,
    pub off: Vec<Vec<f64>>,
    /// modelled constraints: sum a u - t (scaled)
    pub cs: Vec<(Vec<f64>, f64, f64)>,
}

pub fn norm_coords(xt: &[XType], off: &[Vec<f64>], x: &[f64]) -> Vec<f64> {
    xt.iter()
        .enumerate()
        .map(|(i, t)| match t {
            XType::Float(a, b) => (x[i] - a) / (b - a),
            XType::Int(a, b) => (x[i] - *a as f64) / ((*b as f64 - *a as f64).max(1.)),
            XType::Ord(v) => {
                let lo = v.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                (x[i] - lo) / (hi - lo).max(1e-9)
            }
            XType::Enum(n) => {
                let k = (x[i].max(0.) as usize).min(n - 1);
                off[i][k]
            }
        })
        .collect()
}

impl Fun {
    pub fn eval(&self, xt: &[XType], x: &[f64]) -> Vec<f64> {
        let u = norm_coords(xt, &self.off, x);
        let bowl: f64 = u
            .iter()
            .zip(&self.c)
            .zip(&self.w)
            .map(|((u, c), w)| w * (u - c) * (u - c))
            .sum();
        let y = match self.kind {
            Kind::Bowl => bowl,
            Kind::Ripple => {
                let s: f64 = u.iter().zip(&self.w).map(|(u, w)| u * w).sum();
                bowl + 0.3 * (8. * s).sin()
            }
            Kind::Steps => (6. * bowl).floor(),
            Kind::Const => 3.,
            Kind::Huge => 1e12 * bowl - 3e11,
            Kind::Tiny => 1e-9 * bowl,
            Kind::Noise => {
                let h = hash64(&u.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                (h >> 11) as f64 / (1u64 << 53) as f64
            }
            Kind::Branin => {
                let (a, b) = (15. * u[0] - 5., 15. * u[1]);
                let pi = std::f64::consts::PI;
                (b - 5.1 / (4. * pi * pi) * a * a + 5. / pi * a - 6.).powi(2) + 10. * (1. - 1. / (8. * pi)) * a.cos() + 10.
            }
            Kind::Xsinx => {
                let x = 25. * u[0];
                (x - 3.5) * ((x - 3.5) / std::f64::consts::PI).sin()
            }
            Kind::Rosen => {
                let (a, b) = (4. * u[0] - 2., 4. * u[1] - 1.);
                (1. + 20. * (b - a * a).powi(2) + (1. - a).powi(2)).ln()
            }
            Kind::Jump => {
                if u[0] > self.c[0] {
                    bowl + 1e6
                } else {
                    bowl
                }
            }
        };
        let mut r = vec![y];
        for (a, t, s) in &self.cs {
            let v: f64 = a.iter().zip(&u).map(|(a, u)| a * u).sum::<f64>() - t;
            r.push(v * s);
        }
        r
    }
}

/// Function constraint a.x - b <= 0 in the terms of the user.
#[derive(Clone, Debug)]
pub struct Lin {
    pub a: Vec<f64>,
    pub b: f64,
}
impl Lin {
    pub fn eval(&self, x: &[f64]) -> f64 {
        self.a.iter().zip(x).map(|(a, x)| a * x).sum::<f64>() - self.b
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub xt: Vec<XType>,
    pub mixint: bool,
    pub fun: Fun,
    pub lin: Vec<Lin>,
    pub seed: Option<u64>,
    pub n_doe: usize,
    pub max_iters: usize,
    pub tol: Option<Vec<f64>>,
    pub qei: usize,
    pub q_optmod: usize,
    pub q_points: usize,
    pub strat: usize,
    pub slsqp: bool,
    pub n_start: usize,
    pub target: Option<f64>,
    pub trego: bool,
    pub coego: Option<usize>,
    pub cstr_infill: bool,
    pub utb: bool,
    pub doe: Option<Array2<f64>>,
    pub reg: usize,
    pub corr: usize,
    pub kpls: Option<usize>,
    pub clu: i32,
    pub smooth: bool,
    pub gp_start: usize,
    pub gp_eval: usize,
    pub outdir: Option<String>,
    pub warm: bool,
    pub hot: Option<u64>,
}

#[derive(Clone, Copy, Default)]
pub struct Opts {
    /// 0: continuous only, 1: at least one discrete variable, 2: any
    pub space: usize,
    pub maxdim: usize,
    pub hostile: bool,
    pub cstr: bool,
    pub fcstr: bool,
    pub plain_gp: bool,
    pub trego: bool,
    pub coego: bool,
}

pub fn is_discrete(xt: &[XType]) -> bool {
    xt.iter().any(|t| !matches!(t, XType::Float(_, _)))
}

pub fn card(xt: &[XType]) -> f64 {
    xt.iter()
        .map(|t| match t {
            XType::Float(_, _) => 1e9,
            XType::Int(a, b) => (*b as f64) - (*a as f64) + 1.,
            XType::Ord(v) => v.len() as f64,
            XType::Enum(n) => *n as f64,
        })
        .product()
}

pub fn rand_fun(c: &mut Case, xt: &[XType], kind: Kind, n_cstr: usize) -> Fun {
    let n = xt.len();
    let cc: Vec<f64> = (0..n).map(|_| c.u(0.1, 0.9)).collect();
    let w: Vec<f64> = (0..n).map(|_| c.u(0.3, 2.)).collect();
    let off = xt
        .iter()
        .map(|t| {
            if let XType::Enum(k) = t {
                (0..*k).map(|_| c.u(0., 1.)).collect()
            } else {
                vec![]
            }
        })
        .collect();
    let cs = (0..n_cstr)
        .map(|_| {
            let a: Vec<f64> = (0..n).map(|_| c.u(-1., 1.)).collect();
            let at: f64 = a.iter().zip(&cc).map(|(a, u)| a * u).sum();
            // feasible at the centre in most cases, else nowhere or everywhere
            let t = match c.i(0, 5) {
                0 => -3. * n as f64,
                1 => 3. * n as f64,
                _ => at + c.u(-0.1, 0.3),
            };
            let s = *c.pick(&[1., 1., 100., 0.01]);
            (a, t, s)
        })
        .collect();
    Fun {
        kind,
        c: cc,
        w,
        off,
        cs,
    }
}

pub fn rand_spec(c: &mut Case, o: Opts) -> Spec {
    let maxdim = o.maxdim.max(1);
    let xt = match o.space {
        0 => {
            let n = c.i(1, maxdim);
            (0..n)
                .map(|_| {
                    let a = *c.pick(&[0., -1., -5., 2., 1e-3, -1e3]);
                    let w = *c.pick(&[1., 2., 10., 0.5, 2e3]);
                    XType::Float(a, a + w)
                })
                .collect()
        }
        s => loop {
            let xt = rand_xtypes(c, maxdim);
            if (s == 2 || is_discrete(&xt)) && card(&xt) >= 12. {
                break xt;
            }
        },
    };
    let kind = if o.hostile {
        *c.pick(&KINDS)
    } else {
        *c.pick(&[Kind::Bowl, Kind::Ripple])
    };
    let n_cstr = if o.cstr && c.b(0.5) { c.i(1, 2) } else { 0 };
    let fun = rand_fun(c, &xt, kind, n_cstr);
    let n_lin = if o.fcstr && c.b(0.5) { c.i(1, 2) } else { 0 };
    let lin = (0..n_lin)
        .map(|_| {
            let a: Vec<f64> = xt.iter().map(|_| c.u(-1., 1.)).collect();
            let centre: Vec<f64> = xt
                .iter()
                .map(|t| match t {
                    XType::Float(a, b) => 0.5 * (a + b),
                    XType::Int(a, b) => 0.5 * (*a as f64 + *b as f64),
                    XType::Ord(v) => v.iter().sum::<f64>() / v.len() as f64,
                    XType::Enum(n) => 0.5 * (*n as f64 - 1.),
                })
                .collect();
            let s: f64 = a.iter().zip(&centre).map(|(a, x)| a * x).sum();
            Lin {
                b: s + c.u(-0.2, 0.5),
                a,
            }
        })
        .collect::<Vec<_>>();
    let n = xt.len();
    let nc = n_cstr + n_lin;
    let tol = if nc > 0 && n_lin == 0 && c.b(0.4) {
        Some((0..n_cstr).map(|_| *c.pick(&[1e-4, 0.05, 0.2])).collect())
    } else {
        None
    };
    let discrete = is_discrete(&xt);
    // a linear trend is collinear with the masks of categories
    let reg = if o.plain_gp || discrete { 0 } else { c.i(0, 2) };
    let clu = if o.plain_gp || c.b(0.7) {
        1
    } else {
        *c.pick(&[0, 2])
    };
    let unf = unf_dim(&xt);
    // automatic clustering trains hundreds of models
    let clu = match clu {
        0 if unf > 3 || n_cstr > 0 => 2,
        k => k,
    };
    let clu = if clu == 2 && unf > 6 { 1 } else { clu };
    let mut n_doe = c.i(n.max(4) + 1, n + 8);
    if reg > 0 {
        n_doe = n_doe.max(unf + 3);
    }
    if clu != 1 {
        n_doe = n_doe.max(4 * (unf + 3));
    }
    Spec {
        mixint: discrete,
        fun,
        lin,
        seed: Some(c.i(0, 1 << 20) as u64),
        n_doe,
        max_iters: c.i(2, 5),
        tol,
        qei: c.i(0, 3),
        q_optmod: c.i(1, 3),
        q_points: if c.b(0.4) { c.i(2, 3) } else { 1 },
        strat: c.i(0, 3),
        slsqp: c.b(0.5),
        n_start: c.i(1, 6),
        target: None,
        trego: o.trego && c.b(0.3),
        coego: if o.coego && c.b(0.3) {
            Some(c.i(1, n + 1))
        } else {
            None
        },
        cstr_infill: c.b(0.3),
        utb: c.b(0.4),
        doe: None,
        reg,
        corr: if o.plain_gp { 0 } else { c.i(0, 3) },
        kpls: None,
        clu,
        smooth: c.b(0.5),
        gp_start: c.i(2, 4),
        gp_eval: 25,
        outdir: None,
        warm: false,
        hot: None,
        xt,
    }
}

impl Spec {
    pub fn n_cstr(&self) -> usize {
        self.fun.cs.len()
    }
    pub fn short(&self) -> String {
        format!("{self:?}")
    }
    /// Tolerance of each constraint (modelled ones first).
    pub fn tols(&self) -> Vec<f64> {
        let mut t = self
            .tol
            .clone()
            .unwrap_or_else(|| vec![1e-4; self.n_cstr()]);
        while t.len() < self.n_cstr() + self.lin.len() {
            t.push(1e-4);
        }
        t
    }
    pub fn config(&self) -> EgorConfig {
        let mut cfg = EgorConfig::default()
            .max_iters(self.max_iters)
            .n_start(self.n_start)
            .n_doe(self.n_doe)
            .n_cstr(self.n_cstr())
            .qei_strategy(match self.qei {
                0 => QEiStrategy::KrigingBeliever,
                1 => QEiStrategy::KrigingBelieverLowerBound,
                2 => QEiStrategy::KrigingBelieverUpperBound,
                _ => QEiStrategy::ConstantLiarMinimum,
            })
            .q_optmod(self.q_optmod)
            .q_points(self.q_points)
            .infill_strategy(match self.strat {
                0 => InfillStrategy::EI,
                1 => InfillStrategy::LogEI,
                2 => InfillStrategy::WB2,
                _ => InfillStrategy::WB2S,
            })
            .infill_optimizer(if self.slsqp {
                InfillOptimizer::Slsqp
            } else {
                InfillOptimizer::Cobyla
            })
            .configure_gp(|g| {
                g.regression_spec(match self.reg {
                    0 => RegressionSpec::CONSTANT,
                    1 => RegressionSpec::LINEAR,
                    _ => RegressionSpec::CONSTANT | RegressionSpec::LINEAR,
                })
                .correlation_spec(match self.corr {
                    0 => CorrelationSpec::SQUAREDEXPONENTIAL,
                    1 => CorrelationSpec::MATERN52,
                    2 => CorrelationSpec::MATERN32,
                    _ => CorrelationSpec::SQUAREDEXPONENTIAL | CorrelationSpec::MATERN52,
                })
                .kpls_dim(self.kpls)
                .n_clusters(if self.clu == 0 {
                    NbClusters::auto()
                } else {
                    NbClusters::fixed(self.clu as usize)
                })
                .recombination(if self.smooth {
                    Recombination::Smooth(Some(1.))
                } else {
                    Recombination::Hard
                })
                .n_start(self.gp_start)
                .max_eval(self.gp_eval)
            })
            .trego(self.trego)
            .coego(match self.coego {
                Some(n) => CoegoStatus::Enabled(n),
                None => CoegoStatus::Disabled,
            })
            .cstr_infill(self.cstr_infill)
            .cstr_strategy(if self.utb {
                ConstraintStrategy::UpperTrustBound
            } else {
                ConstraintStrategy::MeanConstraint
            })
            .warm_start(self.warm)
            .hot_start(HotStartMode::from(self.hot))
            .xtypes(&self.xt);
        if let Some(t) = &self.tol {
            cfg = cfg.cstr_tol(Array1::from_vec(t.clone()));
        }
        if let Some(d) = &self.doe {
            cfg = cfg.doe(d);
        }
        if let Some(s) = self.seed {
            cfg = cfg.seed(s);
        }
        if let Some(t) = self.target {
            cfg = cfg.target(t);
        }
        if let Some(d) = &self.outdir {
            cfg = cfg.outdir(d.clone());
        }
        cfg
    }
    pub fn fvals(&self, x: &[f64]) -> Vec<f64> {
        self.fun.eval(&self.xt, x)
    }
    pub fn cvals(&self, x: &[f64]) -> Vec<f64> {
        self.lin.iter().map(|l| l.eval(x)).collect()
    }
}

/// What a run did, as seen from the user's functions.
#[derive(Default)]
pub struct Rec {
    pub batches: Mutex<Vec<(Array2<f64>, Array2<f64>)>>,
    pub fc_calls: AtomicU64,
    pub fc_grads: AtomicU64,
    pub fc_bad: Mutex<Option<(String, String)>>,
    /// points at which gradients of constraint functions were requested, when asked for
    pub grad_log: Mutex<Option<Vec<Vec<f64>>>>,
    /// evaluation time injected per call, in microseconds
    pub delay: AtomicU64,
    /// called with the number of the batch before it is evaluated
    pub on_batch: Mutex<Option<Box<dyn Fn(usize, &Array2<f64>) + Send>>>,
}

/// Function constraints see the declared variables with discrete values; the
/// internal optimiser may step outside of the bounds of numeric ones.
pub fn fc_point_ok(xt: &[XType], x: &[f64]) -> Res {
    ensure!(
        x.len() == xt.len(),
        "fcstr-dim",
        "function constraint called with {} variables instead of {}: {x:?}",
        x.len(),
        xt.len()
    );
    for (i, (t, v)) in xt.iter().zip(x).enumerate() {
        let ok = match t {
            XType::Float(_, _) => v.is_finite(),
            XType::Int(_, _) => v.fract() == 0.,
            XType::Ord(l) => l.contains(v),
            XType::Enum(n) => v.fract() == 0. && *v >= 0. && *v < *n as f64,
        };
        ensure!(
            ok,
            "fcstr-inadmissible",
            "function constraint called with variable {i} of type {t:?} equal to {v}: {x:?}"
        );
    }
    Ok(())
}

pub fn mk_fcstr(rec: Arc<Rec>, lin: Lin, xt: Arc<Vec<XType>>) -> impl CstrFn {
    move |x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>| -> f64 {
        rec.fc_calls.fetch_add(1, Ordering::Relaxed);
        if let Err(f) = fc_point_ok(&xt, x) {
            rec.fc_bad
                .lock()
                .unwrap()
                .get_or_insert((f.sig.clone(), f.msg.clone()));
        }
        if let Some(g) = g {
            rec.fc_grads.fetch_add(1, Ordering::Relaxed);
            if let Some(l) = rec.grad_log.lock().unwrap().as_mut() {
                l.push(x.to_vec());
            }
            if g.len() != lin.a.len() {
                rec.fc_bad.lock().unwrap().get_or_insert((
                    "fcstr-gradient-dim".into(),
                    format!(
                        "gradient of {} components requested for {} variables",
                        g.len(),
                        lin.a.len()
                    ),
                ));
            }
            g.iter_mut().zip(&lin.a).for_each(|(g, a)| *g = *a);
        }
        lin.eval(x)
    }
}

pub fn mk_obj(
    rec: Arc<Rec>,
    fun: Fun,
    xt: Arc<Vec<XType>>,
) -> impl Clone + Fn(&ArrayView2<f64>) -> Array2<f64> {
    move |x: &ArrayView2<f64>| -> Array2<f64> {
        let nb = rec.batches.lock().unwrap().len();
        if let Some(f) = rec.on_batch.lock().unwrap().as_ref() {
            f(nb, &x.to_owned());
        }
        let d = rec.delay.load(Ordering::Relaxed);
        if d > 0 {
            std::thread::sleep(std::time::Duration::from_micros(d));
        }
        let mut y = Array2::zeros((x.nrows(), 1 + fun.cs.len()));
        for (i, r) in x.rows().into_iter().enumerate() {
            let xi = r.to_vec();
            if xi.len() == xt.len() {
                for (j, v) in fun.eval(&xt, &xi).into_iter().enumerate() {
                    y[[i, j]] = v;
                }
            }
        }
        rec.batches
            .lock()
            .unwrap()
            .push((x.to_owned(), y.clone()));
        y
    }
}

#[derive(Clone, Default)]
pub struct Snaps(pub Arc<Mutex<Vec<EgorState<f64>>>>);
impl Observe<EgorState<f64>> for Snaps {
    fn observe_init(
        &mut self,
        _n: &str,
        s: &EgorState<f64>,
        _kv: &KV,
    ) -> std::result::Result<(), Error> {
        self.0.lock().unwrap().push(s.clone());
        Ok(())
    }
    fn observe_iter(
        &mut self,
        s: &EgorState<f64>,
        _kv: &KV,
    ) -> std::result::Result<(), Error> {
        self.0.lock().unwrap().push(s.clone());
        Ok(())
    }
}

pub struct Out {
    pub batches: Vec<(Array2<f64>, Array2<f64>)>,
    pub fc_calls: u64,
    pub fc_grads: u64,
    pub fc_bad: Option<(String, String)>,
    /// state after initialisation and after each iteration (observed runs only)
    pub snaps: Vec<EgorState<f64>>,
    pub state: EgorState<f64>,
    pub x_opt: Vec<f64>,
    pub y_opt: Vec<f64>,
    pub x_doe: Array2<f64>,
    pub y_doe: Array2<f64>,
}
impl Out {
    pub fn all_x(&self) -> Array2<f64> {
        let v: Vec<_> = self.batches.iter().map(|b| b.0.view()).collect();
        ndarray::concatenate(ndarray::Axis(0), &v).unwrap()
    }
    pub fn all_y(&self) -> Array2<f64> {
        let v: Vec<_> = self.batches.iter().map(|b| b.1.view()).collect();
        ndarray::concatenate(ndarray::Axis(0), &v).unwrap()
    }
}

/// Run through the builder interface.
pub fn run_rec(s: &Spec, rec: &Arc<Rec>) -> Result<Out, String> {
    let xt = Arc::new(s.xt.clone());
    let obj = mk_obj(rec.clone(), s.fun.clone(), xt.clone());
    let fcs: Vec<_> = s
        .lin
        .iter()
        .map(|l| mk_fcstr(rec.clone(), l.clone(), xt.clone()))
        .collect();
    let fac = EgorFactory::optimize(obj)
        .subject_to(fcs)
        .configure(|_| s.config());
    let res = guard(|| {
        if s.mixint {
            fac.min_within_mixint_space(&s.xt)
                .and_then(|e| e.run())
                .map_err(|e| e.to_string())
        } else {
            let mut lim = Array2::zeros((s.xt.len(), 2));
            for (i, t) in s.xt.iter().enumerate() {
                if let XType::Float(a, b) = t {
                    lim[[i, 0]] = *a;
                    lim[[i, 1]] = *b;
                }
            }
            fac.min_within(&lim)
                .and_then(|e| e.run())
                .map_err(|e| e.to_string())
        }
    })??;
    Ok(Out {
        batches: rec.batches.lock().unwrap().clone(),
        fc_calls: rec.fc_calls.load(Ordering::Relaxed),
        fc_grads: rec.fc_grads.load(Ordering::Relaxed),
        fc_bad: rec.fc_bad.lock().unwrap().clone(),
        snaps: vec![],
        x_opt: res.x_opt.to_vec(),
        y_opt: res.y_opt.to_vec(),
        x_doe: res.x_doe,
        y_doe: res.y_doe,
        state: res.state,
    })
}
pub fn run(s: &Spec) -> Result<Out, String> {
    run_rec(s, &Arc::new(Rec::default()))
}

/// Run through the argmin executor with an observer of every state.
pub fn run_observed_rec(s: &Spec, rec: &Arc<Rec>) -> Result<Out, String> {
    if s.mixint {
        run_obs_sb::<MixintGpMixtureParams>(s, rec)
    } else {
        run_obs_sb::<GpMixtureParams<f64>>(s, rec)
    }
}
pub fn run_observed(s: &Spec) -> Result<Out, String> {
    run_observed_rec(s, &Arc::new(Rec::default()))
}
fn run_obs_sb<SB: egobox_ego::SurrogateBuilder + serde::de::DeserializeOwned>(
    s: &Spec,
    rec: &Arc<Rec>,
) -> Result<Out, String> {
    let xt = Arc::new(s.xt.clone());
    let obj = mk_obj(rec.clone(), s.fun.clone(), xt.clone());
    let fcs: Vec<_> = s
        .lin
        .iter()
        .map(|l| mk_fcstr(rec.clone(), l.clone(), xt.clone()))
        .collect();
    let snaps = Snaps::default();
    let state = guard(|| go::<SB, _, _>(s, obj, fcs, snaps.clone()))??;
    let (x, y, _) = state.data.clone().unwrap();
    let disc = is_discrete(&s.xt);
    let fold = |x: &Array2<f64>| {
        if disc {
            egobox_ego::gpmix::mixint::to_discrete_space(&s.xt, x)
        } else {
            x.to_owned()
        }
    };
    let xo = state
        .get_best_param()
        .unwrap()
        .to_owned()
        .insert_axis(ndarray::Axis(0));
    let sn = snaps.0.lock().unwrap().clone();
    Ok(Out {
        batches: rec.batches.lock().unwrap().clone(),
        fc_calls: rec.fc_calls.load(Ordering::Relaxed),
        fc_grads: rec.fc_grads.load(Ordering::Relaxed),
        fc_bad: rec.fc_bad.lock().unwrap().clone(),
        snaps: sn,
        x_opt: fold(&xo).row(0).to_vec(),
        y_opt: state.get_full_best_cost().unwrap().to_vec(),
        x_doe: fold(&x),
        y_doe: y,
        state,
    })
}
fn go<SB, O, C>(s: &Spec, obj: O, fcs: Vec<C>, snaps: Snaps) -> Result<EgorState<f64>, String>
where
    SB: egobox_ego::SurrogateBuilder + serde::de::DeserializeOwned,
    O: egobox_ego::GroupFunc,
    C: CstrFn,
{
    let cfg = s.config().check().map_err(|e| e.to_string())?;
    let solver: EgorSolver<SB, C> = EgorSolver::new(cfg);
    let res = Executor::new(ObjFunc::new(obj).subject_to(fcs), solver)
        .ctrlc(false)
        .add_observer(snaps, ObserverMode::Always)
        .run()
        .map_err(|e| e.to_string())?;
    Ok(res.state)
}

/// Admissible in the user's terms, bounds of floats up to rounding.
pub fn pt_ok(xt: &[XType], x: &[f64]) -> Res {
    admissible_folded(xt, x, 1e-12)
}

/// Violation sum and feasibility by definition.
pub fn violation(vals: &[f64], tols: &[f64]) -> f64 {
    vals.iter()
        .zip(tols)
        .map(|(c, t)| if c > t { c - t } else { 0. })
        .sum()
}
/// Is (y, cs) of index i among the best of rows 0..n ?
pub fn best_key(y: f64, v: f64) -> (bool, f64) {
    if v > 0. {
        (true, v)
    } else {
        (false, y)
    }
}
