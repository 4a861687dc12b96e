//! C29: the Python module, driven by py/driver.py, against the library driven from here.
use super::designs::rand_points;
use super::egor::Scratch;
use crate::ego::{best_key, violation};
use crate::ensure;
use crate::fw::*;
use egobox_doe::{LhsKind, SamplingMethod};
use egobox_ego::gpmix::mixint::MixintContext;
use egobox_ego::{
    CoegoStatus, ConstraintStrategy, EgorConfig, EgorFactory, EgorServiceBuilder, InfillObjData, InfillOptimizer,
    InfillStrategy, QEiStrategy, RunInfo, XType,
};
use egobox_gp::{Inducings, SparseMethod, ThetaTuning};
use egobox_moe::{MixtureGpSurrogate, CorrelationSpec, GpFileFormat, GpMixture, GpMixtureParams, GpQualityAssurance, GpSurrogate, GpType, NbClusters, Recombination, RegressionSpec};
use linfa::{prelude::Fit, Dataset};
use ndarray::{array, Array1, Array2, ArrayView2};
use ndarray_rand::rand::{Rng, SeedableRng};
use rand_xoshiro::Xoshiro256Plus;
use serde_json::{json, Map, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::result::Result;
use std::sync::Mutex;

struct Worker {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
struct Pool {
    free: Mutex<Vec<Worker>>,
    dir: std::path::PathBuf,
}
impl Pool {
    fn spawn(&self) -> Worker {
        let verif = std::env::var("VP_VERIF").unwrap_or("/verif".into());
        let py = ["/opt/vp/pyenv/bin/python", "/usr/bin/python3-vt", "python3-vt"].iter().find(|p| !p.starts_with('/') || std::path::Path::new(p).exists()).unwrap();
        let mut child = Command::new(py)
            .arg(format!("{verif}/py/driver.py"))
            .current_dir(&self.dir)
            .env("PYTHONPATH", format!("{verif}/target-py/pkg"))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("RAYON_NUM_THREADS", "2")
            .env("OPENBLAS_NUM_THREADS", "1")
            .env("EGOBOX_LOG", "off")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python worker");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Worker { child, inp, out }
    }
    /// Err: the worker died
    fn ask(&self, q: &Value) -> Result<Value, String> {
        let mut w = self.free.lock().unwrap().pop().unwrap_or_else(|| self.spawn());
        let r = (|| {
            writeln!(w.inp, "{q}").map_err(|e| e.to_string())?;
            w.inp.flush().map_err(|e| e.to_string())?;
            let mut l = String::new();
            w.out.read_line(&mut l).map_err(|e| e.to_string())?;
            serde_json::from_str::<Value>(&l).map_err(|e| format!("{e}: {l:?}"))
        })();
        match r {
            Ok(v) => {
                self.free.lock().unwrap().push(w);
                Ok(v)
            }
            Err(e) => Err(format!("the interpreter died ({:?}): {e}", w.child.wait().ok())),
        }
    }
}

fn b(v: f64) -> Value {
    json!(v.to_bits())
}
fn bv(v: &[f64]) -> Value {
    json!(v.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
}
fn a1(v: &Array1<f64>) -> Value {
    json!([[v.len()], v.iter().map(|v| v.to_bits()).collect::<Vec<_>>()])
}
fn a2(v: &Array2<f64>) -> Value {
    json!([[v.nrows(), v.ncols()], v.iter().map(|v| v.to_bits()).collect::<Vec<_>>()])
}
fn floats(v: &Value) -> Vec<f64> {
    v[1].as_array().map(|a| a.iter().map(|b| f64::from_bits(b.as_u64().unwrap_or(0x7ff8dead))).collect()).unwrap_or_default()
}
/// Same arrays (NaN are NaN)
fn eq(py: &Value, rs: &Value) -> bool {
    py == rs || (py[0] == rs[0] && floats(py).len() == floats(rs).len() && floats(py).iter().zip(floats(rs)).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())))
}
fn show(v: &Value) -> String {
    format!("{} {:?}", v[0], floats(v)).chars().take(300).collect()
}

/// How a space is written in Python
fn domain(c: &mut Case, xt: &[XType]) -> Map<String, Value> {
    let mut m = Map::new();
    let all_float = xt.iter().all(|t| matches!(t, XType::Float(..)));
    let lim: Vec<(f64, f64)> = xt.iter().filter_map(|t| if let XType::Float(a, b) = t { Some((*a, *b)) } else { None }).collect();
    match if all_float { c.i(0, 2) } else { 2 } {
        0 => {
            m.insert("domain".into(), json!("lists"));
            m.insert("limits".into(), json!(lim.iter().map(|(x, y)| json!([b(*x), b(*y)])).collect::<Vec<_>>()));
        }
        1 => {
            m.insert("domain".into(), json!("array"));
            let a = Array2::from_shape_fn((lim.len(), 2), |(i, j)| if j == 0 { lim[i].0 } else { lim[i].1 });
            m.insert("limits_arr".into(), a2(&a));
            m.insert("flavour".into(), json!(c.i(0, 3)));
        }
        _ => {
            m.insert("domain".into(), json!("xspecs"));
            let l: Vec<Value> = xt
                .iter()
                .map(|t| match t {
                    XType::Float(x, y) => json!({"type": "FLOAT", "limits": [b(*x), b(*y)]}),
                    XType::Int(x, y) => json!({"type": "INT", "ints": [x, y]}),
                    XType::Ord(l) => json!({"type": "ORD", "limits": bv(l)}),
                    XType::Enum(n) if c.b(0.5) => json!({"type": "ENUM", "n": n}),
                    XType::Enum(n) => json!({"type": "ENUM", "tags": (0..*n).map(|i| format!("t{i}")).collect::<Vec<_>>()}),
                })
                .collect();
            m.insert("xspecs".into(), json!(l));
        }
    }
    m
}

fn space(c: &mut Case, maxdim: usize) -> Vec<XType> {
    let n = c.i(1, maxdim);
    if c.b(0.5) {
        return (0..n)
            .map(|_| {
                let a = *c.pick(&[0., -1., -5., 2.5]);
                XType::Float(a, a + *c.pick(&[1., 2., 10.]))
            })
            .collect();
    }
    loop {
        let xt = crate::props::mixint::rand_xtypes(c, maxdim);
        if crate::ego::card(&xt) >= 15. {
            return xt;
        }
    }
}

#[derive(Clone)]
struct Gp {
    kw: Map<String, Value>,
    regr: RegressionSpec,
    corr: CorrelationSpec,
    kpls: Option<usize>,
    clu: isize,
    smooth: bool,
    init: Option<Vec<f64>>,
    bounds: Option<Vec<(f64, f64)>>,
    n_start: isize,
    max_eval: usize,
}
impl Gp {
    /// A random set of keywords and their documented meaning
    fn rand(c: &mut Case, dim: usize, discrete: bool, clusters: bool, ego: bool) -> Gp {
        let mut g = Gp { kw: Map::new(), regr: RegressionSpec::CONSTANT, corr: CorrelationSpec::SQUAREDEXPONENTIAL, kpls: None, clu: 1, smooth: false, init: None, bounds: None, n_start: egobox_ego::EGO_GP_OPTIM_N_START as isize, max_eval: egobox_ego::EGO_GP_OPTIM_MAX_EVAL };
        if c.b(0.5) && !discrete {
            let v = *c.pick(&[1u8, 1, 2, 4, 3]);
            let v = if v == 4 && dim > 2 { 1 } else { v };
            g.kw.insert("regr_spec".into(), json!(v));
            g.regr = RegressionSpec::from_bits(v).unwrap();
        }
        if c.b(0.6) {
            let v = *c.pick(&[1u8, 2, 4, 8, 8, 5]);
            g.kw.insert("corr_spec".into(), json!(v));
            g.corr = CorrelationSpec::from_bits(v).unwrap();
        }
        if c.b(0.15) && dim > 1 && !discrete {
            let k = c.i(1, dim - 1);
            g.kw.insert("kpls_dim".into(), json!(k));
            g.kpls = Some(k);
        }
        if clusters && c.b(0.4) && dim <= 2 {
            let v = *c.pick(&[1isize, 2, -2, 2]);
            g.kw.insert("n_clusters".into(), json!(v));
            g.clu = v;
        }
        if c.b(0.4) {
            g.smooth = c.b(0.5);
            g.kw.insert("recombination".into(), json!(if g.smooth { "SMOOTH" } else { "HARD" }));
        }
        // thetas are those of the unfolded space: written in spaces without categories only
        if c.b(0.4) && !discrete {
            let nt = if c.b(0.3) { 1 } else { g.kpls.unwrap_or(dim) };
            let v: Vec<f64> = (0..nt).map(|_| 10f64.powf(c.u(-1.5, 0.5))).collect();
            g.kw.insert("theta_init".into(), bv(&v));
            g.init = Some(v);
        }
        if c.b(0.4) && !discrete {
            let nt = if c.b(0.3) { 1 } else { g.kpls.unwrap_or(dim) };
            let v: Vec<(f64, f64)> = (0..nt).map(|_| (10f64.powf(c.u(-4., -2.)), 10f64.powf(c.u(0.6, 1.8)))).collect();
            g.kw.insert("theta_bounds".into(), json!(v.iter().map(|(x, y)| json!([b(*x), b(*y)])).collect::<Vec<_>>()));
            g.bounds = Some(v);
        }
        if c.b(0.6) || ego {
            let v = c.i(0, 4) as isize - 1;
            g.kw.insert("n_start".into(), json!(v));
            g.n_start = v;
        }
        if c.b(0.5) {
            let v = *c.pick(&[25usize, 30, 100]);
            g.kw.insert("max_eval".into(), json!(v));
            g.max_eval = v;
        }
        g
    }
    fn tuning(&self) -> ThetaTuning<f64> {
        let mut t = ThetaTuning::<f64>::default();
        if let Some(i) = &self.init {
            t = ThetaTuning::Full { init: Array1::from_vec(i.clone()), bounds: array![ThetaTuning::<f64>::DEFAULT_BOUNDS] };
        }
        if let Some(l) = &self.bounds {
            t = ThetaTuning::Full { init: t.init().to_owned(), bounds: Array1::from_vec(l.clone()) };
        }
        // a negative number of starts: no optimisation, the initial guess is used
        if self.n_start < 0 {
            t = ThetaTuning::Fixed(t.init().to_owned());
        }
        t
    }
    fn clusters(&self) -> NbClusters {
        match self.clu {
            0 => NbClusters::auto(),
            k if k > 0 => NbClusters::fixed(k as usize),
            k => NbClusters::automax(-k as usize),
        }
    }
}

// ------------------------------------------------------------------------------------------------ optimiser

#[derive(Clone)]
struct Poly {
    a: Vec<f64>,
    p: Vec<f64>,
    b: Vec<f64>,
    q: Vec<f64>,
}
impl Poly {
    fn rand(c: &mut Case, xt: &[XType]) -> Poly {
        let pick = |c: &mut Case, t: &XType| match t {
            XType::Float(a, b) => c.u(*a, *b),
            XType::Int(a, b) => c.u(*a as f64, *b as f64),
            XType::Ord(v) => *c.pick(v) + c.u(-0.2, 0.2),
            XType::Enum(n) => c.u(0., *n as f64 - 1.),
        };
        let s = *c.pick(&[1., 1., 100., 1e-3]);
        Poly {
            a: xt.iter().map(|_| s * c.u(0., 1.)).collect(),
            p: xt.iter().map(|t| pick(c, t)).collect(),
            b: xt.iter().map(|_| s * c.u(-0.3, 0.6)).collect(),
            q: xt.iter().map(|t| pick(c, t)).collect(),
        }
    }
    fn val(&self, x: &[f64]) -> f64 {
        let mut y = 0.;
        for (j, x) in x.iter().enumerate() {
            let d = x - self.p[j];
            y += (d * d) * self.a[j];
            y += (x - self.q[j]).abs() * self.b[j];
        }
        y
    }
    fn json(&self) -> Value {
        json!({"a": bv(&self.a), "p": bv(&self.p), "b": bv(&self.b), "q": bv(&self.q)})
    }
}

struct Setup {
    xt: Vec<XType>,
    dom: Map<String, Value>,
    kw: Map<String, Value>,
    funs: Vec<Poly>,
    lin: Vec<(Vec<f64>, f64)>,
    n_cstr: usize,
    tol: Option<Vec<f64>>,
    /// the documented meaning of the keywords
    cfg: Box<dyn Fn(EgorConfig) -> EgorConfig + Send + Sync>,
    doe: Option<Array2<f64>>,
    outdir: bool,
    gp: Gp,
}

fn setup(c: &mut Case, minimise: bool) -> Setup {
    let xt = space(c, 3);
    let discrete = xt.iter().any(|t| matches!(t, XType::Enum(_)));
    let any_discrete = xt.iter().any(|t| !matches!(t, XType::Float(..)));
    let d = xt.len();
    let dom = domain(c, &xt);
    let mut kw = Map::new();
    let n_cstr = if c.b(0.5) { c.i(1, 2) } else { 0 };
    let nf = if minimise && c.b(0.3) && !any_discrete { c.i(1, 2) } else { 0 };
    let mut funs = vec![];
    for _ in 0..=n_cstr {
        funs.push(Poly::rand(c, &xt));
    }
    // constraints: shifted to be met by a part of the points
    let lin: Vec<(Vec<f64>, f64)> = (0..nf)
        .map(|_| {
            let a: Vec<f64> = xt.iter().map(|_| c.u(-1., 1.)).collect();
            let m: f64 = a.iter().zip(&xt).map(|(a, t)| if let XType::Float(l, u) = t { a * (l + u) / 2. } else { 0. }).sum();
            (a, m + c.u(-0.2, 0.5))
        })
        .collect();
    if n_cstr > 0 || c.b(0.2) {
        kw.insert("n_cstr".into(), json!(n_cstr));
    }
    let tol = if n_cstr + nf > 0 && c.b(0.5) {
        let t: Vec<f64> = (0..n_cstr + nf).map(|_| *c.pick(&[1e-4, 0.05, 0.5, 0.])).collect();
        kw.insert("cstr_tol".into(), bv(&t));
        Some(t)
    } else {
        None
    };
    let n_start = if c.b(0.9) { Some(c.i(1, 5)) } else { None };
    if let Some(v) = n_start {
        kw.insert("n_start".into(), json!(v));
    }
    let n_doe = if c.b(0.7) { Some(c.i(4, 9)) } else { None };
    if let Some(v) = n_doe {
        kw.insert("n_doe".into(), json!(v));
    }
    let doe = if minimise && !discrete && c.b(0.25) {
        let n = c.i(4, 8);
        let x = rand_points(c, &xt, n);
        let doe = if c.b(0.5) {
            x
        } else {
            Array2::from_shape_fn((x.nrows(), d + funs.len()), |(i, j)| if j < d { x[[i, j]] } else { funs[j - d].val(&x.row(i).to_vec()) })
        };
        kw.insert("doe".into(), a2(&doe));
        Some(doe)
    } else {
        None
    };
    let infill = if c.b(0.7) { Some(*c.pick(&["EI", "WB2", "WB2S", "LOG_EI"])) } else { None };
    if let Some(v) = infill {
        kw.insert("infill_strategy".into(), json!(v));
    }
    let cstr_infill = if c.b(0.3) { Some(c.b(0.7)) } else { None };
    if let Some(v) = cstr_infill {
        kw.insert("cstr_infill".into(), json!(v));
    }
    let cstr_strategy = if c.b(0.5) { Some(*c.pick(&["MC", "UTB"])) } else { None };
    if let Some(v) = cstr_strategy {
        kw.insert("cstr_strategy".into(), json!(v));
    }
    let q = if c.b(0.5) { Some(c.i(1, 3)) } else { None };
    if let Some(v) = q {
        kw.insert("q_points".into(), json!(v));
    }
    let qs = if c.b(0.6) { Some(*c.pick(&["KB", "KBLB", "KBUB", "CLMIN"])) } else { None };
    if let Some(v) = qs {
        kw.insert("q_infill_strategy".into(), json!(v));
    }
    let opt = if c.b(0.6) { Some(*c.pick(&["COBYLA", "SLSQP"])) } else { None };
    if let Some(v) = opt {
        kw.insert("infill_optimizer".into(), json!(v));
    }
    let trego = if minimise && c.b(0.2) { Some(c.b(0.8)) } else { None };
    if let Some(v) = trego {
        kw.insert("trego".into(), json!(v));
    }
    let coego = if c.b(0.2) { Some(c.i(0, d.min(2))) } else { None };
    if let Some(v) = coego {
        kw.insert("coego_n_coop".into(), json!(v));
    }
    let optmod = if c.b(0.3) { Some(c.i(1, 3)) } else { None };
    if let Some(v) = optmod {
        kw.insert("q_optmod".into(), json!(v));
    }
    let target = if c.b(0.2) { Some(funs[0].val(&rand_points(c, &xt, 1).row(0).to_vec())) } else { None };
    if let Some(v) = target {
        kw.insert("target".into(), b(v));
    }
    let outdir = minimise && c.b(0.3);
    let (mut warm, mut hot) = (None, None);
    if outdir {
        if c.b(0.5) {
            warm = Some(c.b(0.8));
            kw.insert("warm_start".into(), json!(warm.unwrap()));
        } else if c.b(0.6) {
            hot = Some(c.i(0, 2) as u64);
            kw.insert("hot_start".into(), json!(hot.unwrap()));
        }
    }
    let seed = c.rng.gen::<u64>() >> c.i(0, 60);
    kw.insert("seed".into(), json!(seed));
    let gp = Gp::rand(c, d, discrete, n_cstr == 0 && coego.unwrap_or(0) == 0, true);
    kw.insert("gp_config".into(), json!(gp.kw));
    let (g, tols, doe2) = (gp.clone(), tol.clone(), doe.clone());
    let cfg = move |cfg: EgorConfig| {
        let mut cfg = cfg
            .n_cstr(n_cstr)
            .cstr_tol(Array1::from_vec(tols.clone().unwrap_or(vec![1e-4; n_cstr + nf])))
            .n_start(n_start.unwrap_or(20))
            .n_doe(n_doe.unwrap_or(0))
            .infill_strategy(match infill.unwrap_or("LOG_EI") {
                "EI" => InfillStrategy::EI,
                "WB2" => InfillStrategy::WB2,
                "WB2S" => InfillStrategy::WB2S,
                _ => InfillStrategy::LogEI,
            })
            .cstr_infill(cstr_infill.unwrap_or(false))
            .cstr_strategy(if cstr_strategy == Some("UTB") { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .q_points(q.unwrap_or(1))
            .qei_strategy(match qs.unwrap_or("KB") {
                "KB" => QEiStrategy::KrigingBeliever,
                "KBLB" => QEiStrategy::KrigingBelieverLowerBound,
                "KBUB" => QEiStrategy::KrigingBelieverUpperBound,
                _ => QEiStrategy::ConstantLiarMinimum,
            })
            .infill_optimizer(if opt == Some("SLSQP") { InfillOptimizer::Slsqp } else { InfillOptimizer::Cobyla })
            .trego(trego.unwrap_or(false))
            .coego(match coego.unwrap_or(0) {
                0 => CoegoStatus::Disabled,
                k => CoegoStatus::Enabled(k),
            })
            .q_optmod(optmod.unwrap_or(1))
            .target(target.unwrap_or(f64::MIN))
            .warm_start(warm.unwrap_or(false))
            .hot_start(hot.into())
            .seed(seed)
            .configure_gp(|p| {
                p.regression_spec(g.regr)
                    .correlation_spec(g.corr)
                    .kpls_dim(g.kpls)
                    .n_clusters(g.clusters())
                    .recombination(if g.smooth { Recombination::Smooth(Some(1.)) } else { Recombination::Hard })
                    .theta_tuning(g.tuning())
                    .n_start(g.n_start.max(0) as usize)
                    .max_eval(g.max_eval)
            });
        if let Some(d) = &doe2 {
            cfg = cfg.doe(d);
        }
        cfg
    };
    Setup { xt, dom, kw, funs, lin, n_cstr, tol, cfg: Box::new(cfg), doe, outdir, gp }
}

fn request(op: &str, s: &Setup) -> Map<String, Value> {
    let mut m = s.dom.clone();
    m.insert("op".into(), json!(op));
    m.insert("kw".into(), json!(s.kw));
    m
}

fn describe(c: &mut Case, m: &Map<String, Value>) {
    c.describe(json!(m).to_string());
}

fn minimize(c: &mut Case, pool: &Pool, dir: &std::path::Path) -> Res {
    let mut s = setup(c, true);
    let iters = if c.b(0.9) { Some(c.i(0, 3)) } else { None };
    if iters.is_none() {
        s.kw.insert("q_points".into(), json!(1));
    }
    let again = s.outdir && c.b(0.6);
    let info = s.outdir && c.b(0.4);
    let num = if c.b(0.5) { Some(c.i(0, 9)) } else { None };
    let (pd, rd) = (dir.join(format!("p{}", c.idx)), dir.join(format!("r{}", c.idx)));
    if s.outdir {
        s.kw.insert("outdir".into(), json!(pd.to_str().unwrap()));
    }
    let mut m = request("minimize", &s);
    let mut opts = Map::new();
    if let Some(k) = iters {
        opts.insert("max_iters".into(), json!(k));
    }
    if info {
        opts.insert("run_info".into(), if let Some(n) = num { json!({"fname": "fun", "num": n}) } else { json!({"fname": "fun"}) });
    }
    m.insert("opts".into(), json!(opts));
    m.insert("funs".into(), json!(s.funs.iter().map(|f| f.json()).collect::<Vec<_>>()));
    m.insert("fcstrs".into(), json!(s.lin.iter().map(|(a, d)| json!({"c": bv(a), "d": b(*d)})).collect::<Vec<_>>()));
    m.insert("yflavour".into(), json!(c.i(0, 2)));
    describe(c, &m);
    let _clean = (Scratch(pd.clone()), Scratch(rd.clone()));
    for round in 0..1 + again as usize {
        let py = pool.ask(&json!(m)).or_else(|e| fail("worker-died", e))?;
        let evals = Mutex::new(vec![]);
        let n_unasked = if iters.is_none() { 1 } else { 0 };
        let rs = guard(|| {
            let obj = |x: &ArrayView2<f64>| -> Array2<f64> {
                evals.lock().unwrap().push(a2(&x.to_owned()));
                Array2::from_shape_fn((x.nrows(), s.funs.len()), |(i, k)| s.funs[k].val(&x.row(i).to_vec()))
            };
            let fc: Vec<_> = s
                .lin
                .iter()
                .map(|(a, d)| {
                    move |x: &[f64], g: Option<&mut [f64]>, _: &mut InfillObjData<f64>| -> f64 {
                        if let Some(g) = g {
                            g.copy_from_slice(a);
                        }
                        let mut v = -d;
                        for j in 0..a.len() {
                            v += a[j] * x[j];
                        }
                        v
                    }
                })
                .collect();
            let e = EgorFactory::optimize(obj)
                .subject_to(fc)
                .configure(|cfg| {
                    let cfg = (s.cfg)(cfg).max_iters(iters.unwrap_or(20));
                    let cfg = if n_unasked > 0 { cfg.q_points(1) } else { cfg };
                    if s.outdir { cfg.outdir(rd.to_str().unwrap()) } else { cfg }
                })
                .min_within_mixint_space(&s.xt)
                .map_err(|e| e.to_string())?;
            let e = if info { e.run_info(RunInfo { fname: "fun".into(), num: num.unwrap_or(0) }) } else { e };
            e.run().map_err(|e| e.to_string())
        });
        let rs = match rs {
            Ok(Ok(r)) => r,
            Ok(Err(e)) | Err(e) => {
                // what fails in the library fails in Python
                ensure!(py.get("error").is_some(), "python-succeeds", "the library fails with {e}, Python gives {}", show(&py["x_opt"]));
                c.count("runs failing on both sides", 1);
                c.key = 0;
                return Ok(());
            }
        };
        ensure!(py.get("error").is_none(), "python-error", "Python reports {} where the library runs", py["error"]);
        ensure!(py["bad"].as_array().unwrap().is_empty(), "bad-argument", "{}", py["bad"]);
        let ev = evals.into_inner().unwrap();
        let pe = py["evals"].as_array().unwrap();
        for (k, (p, r)) in pe.iter().zip(&ev).enumerate() {
            ensure!(eq(p, r), "evaluations", "call {k} of the objective is on {} in Python, {} in the library (round {round})", show(p), show(r));
        }
        ensure!(pe.len() == ev.len(), "number-of-evaluations", "{} calls of the objective from Python, {} in the library", pe.len(), ev.len());
        for (k, v) in [("x_opt", a1(&rs.x_opt)), ("y_opt", a1(&rs.y_opt)), ("x_doe", a2(&rs.x_doe)), ("y_doe", a2(&rs.y_doe))] {
            ensure!(eq(&py[k], &v), format!("result-{k}"), "{k} is {} in Python, {} in the library", show(&py[k]), show(&v));
        }
        if s.outdir {
            for f in ["egor_initial_doe.npy", "egor_doe.npy", "egor_history.npy"] {
                let (p, r) = (std::fs::read(pd.join(f)).ok(), std::fs::read(rd.join(f)).ok());
                ensure!(p == r, "files", "{f} differs (present: {} in Python, {} in the library)", p.is_some(), r.is_some());
                c.count("files compared", p.is_some() as u64);
            }
            let run = |d: &std::path::Path| std::fs::read(d.join("egor_run.json")).ok().and_then(|t| serde_json::from_slice::<Value>(&t).ok()).map(|v| v["run_info"].clone());
            ensure!(run(&pd) == run(&rd), "run-info", "run description {:?} in Python, {:?} in the library", run(&pd), run(&rd));
        }
        c.count("evaluations compared", ev.len() as u64);
        c.count("constraint probes", py["probes"][0].as_u64().unwrap_or(0));
        c.sub.push(hash_str(&py["x_doe"].to_string()));
    }
    c.count("runs compared", 1);
    if s.doe.is_some() {
        c.count("runs with a design", 1);
    }
    if s.gp.n_start < 0 {
        c.count("runs without optimisation of theta", 1);
    }
    Ok(())
}

fn suggest(c: &mut Case, pool: &Pool) -> Res {
    let s = setup(c, false);
    let n = c.i(4, 9);
    let x = rand_points(c, &s.xt, n);
    let y = Array2::from_shape_fn((x.nrows(), s.funs.len()), |(i, k)| s.funs[k].val(&x.row(i).to_vec()));
    let mut m = request("suggest", &s);
    m.insert("x".into(), a2(&x));
    m.insert("y".into(), a2(&y));
    m.insert("flavour".into(), json!(c.i(0, 3)));
    describe(c, &m);
    let py = pool.ask(&json!(m)).or_else(|e| fail("worker-died", e))?;
    let rs = guard(|| {
        let sv = EgorServiceBuilder::optimize()
            .configure(|cfg| (s.cfg)(cfg).max_iters(1).doe(&ndarray::concatenate![ndarray::Axis(1), x, y]))
            .min_within_mixint_space(&s.xt)
            .map_err(|e| e.to_string())?;
        Ok::<_, String>(sv.suggest(&x, &y))
    });
    match rs {
        Ok(Ok(r)) => {
            ensure!(py.get("error").is_none(), "python-error", "Python reports {} where the library answers", py["error"]);
            ensure!(eq(&py["suggested"], &a2(&r)), "suggestion", "suggested {} in Python, {} in the library", show(&py["suggested"]), show(&a2(&r)));
            ensure!(py["unchanged"] == json!(true), "arguments-changed", "suggest() changed the arrays it was given");
            c.count("suggestions compared", r.nrows() as u64);
        }
        Ok(Err(e)) | Err(e) => {
            ensure!(py.get("error").is_some(), "python-succeeds", "the library fails with {e}, Python gives {}", show(&py["suggested"]));
            c.count("suggestions failing on both sides", 1);
            c.key = 0;
        }
    }
    Ok(())
}

fn best(c: &mut Case, pool: &Pool) -> Res {
    let s = setup(c, false);
    let n = c.i(1, 12);
    let x = rand_points(c, &s.xt, n);
    let (ny, nc) = (s.funs.len(), s.n_cstr);
    let lvl = c.u(-1., 2.);
    let y = Array2::from_shape_fn((x.nrows(), ny), |(_, j)| if j == 0 { c.u(-5., 5.) } else if c.b(0.2) { *c.pick(&[0., 1e-4, 0.05, 0.5]) } else { c.u(-1., 1.) + lvl });
    // the list of tolerances may hold those of function constraints after those of the modelled ones
    let extra = if s.tol.is_some() || nc == 0 { 0 } else if c.b(0.3) { 1 } else { 0 };
    let mut m = request("best", &s);
    let tol = match &s.tol {
        Some(t) => t.clone(),
        None if extra > 0 => {
            let t: Vec<f64> = (0..nc + extra).map(|_| *c.pick(&[1e-4, 0.05, 0.5])).collect();
            let mut kw = s.kw.clone();
            kw.insert("cstr_tol".into(), bv(&t));
            m.insert("kw".into(), json!(kw));
            t
        }
        None => vec![1e-4; nc],
    };
    m.insert("x".into(), a2(&x));
    m.insert("y".into(), a2(&y));
    m.insert("flavour".into(), json!(c.i(0, 3)));
    describe(c, &m);
    let py = pool.ask(&json!(m)).or_else(|e| fail("worker-died", e))?;
    ensure!(py.get("error").is_none(), "best-error", "looking for the best of {} rows: {}", x.nrows(), py["error"]);
    let key = |i: usize| best_key(y[[i, 0]], violation(&y.row(i).to_vec()[1..], &tol));
    let i = py["index"].as_u64().unwrap() as usize;
    ensure!(i < x.nrows(), "best-index", "index {i} of {} rows", x.nrows());
    for k in 0..x.nrows() {
        ensure!(key(i) <= key(k), "best-index", "row {i} {:?} is given as the best, row {k} {:?} is better", key(i), key(k));
    }
    let (xr, yr) = (a1(&x.row(i).to_owned()), a1(&y.row(i).to_owned()));
    ensure!(eq(&py["x_opt"], &xr) && eq(&py["y_opt"], &yr), "best-row", "get_result gives {} {} where get_result_index gives row {i} {}", show(&py["x_opt"]), show(&py["y_opt"]), show(&xr));
    ensure!(eq(&py["x_doe"], &a2(&x)) && eq(&py["y_doe"], &a2(&y)), "best-doe", "get_result changes the history it was given");
    c.count("histories searched", 1);
    c.count("rows", x.nrows() as u64);
    Ok(())
}

fn sampling(c: &mut Case, pool: &Pool) -> Res {
    let xt = space(c, 4);
    let mut m = domain(c, &xt);
    let method = *c.pick(&["lhs()", "LHS", "FULL_FACTORIAL", "RANDOM", "LHS_CLASSIC", "LHS_CENTERED", "LHS_MAXIMIN", "LHS_CENTERED_MAXIMIN"]);
    let n = c.i(1, 30);
    let seed = if c.b(0.85) { Some(c.rng.gen::<u64>() >> c.i(0, 60)) } else { None };
    m.insert("op".into(), json!("sampling"));
    m.insert("method".into(), json!(method));
    m.insert("n".into(), json!(n));
    m.insert("seed".into(), json!(seed));
    describe(c, &m);
    let py = pool.ask(&json!(m)).or_else(|e| fail("worker-died", e))?;
    let rs = guard(|| {
        let ctx = MixintContext::new(&xt);
        match method {
            "lhs()" | "LHS" => ctx.create_lhs_sampling(LhsKind::default(), seed).sample(n),
            "LHS_CLASSIC" => ctx.create_lhs_sampling(LhsKind::Classic, seed).sample(n),
            "LHS_CENTERED" => ctx.create_lhs_sampling(LhsKind::Centered, seed).sample(n),
            "LHS_MAXIMIN" => ctx.create_lhs_sampling(LhsKind::Maximin, seed).sample(n),
            "LHS_CENTERED_MAXIMIN" => ctx.create_lhs_sampling(LhsKind::CenteredMaximin, seed).sample(n),
            "RANDOM" => ctx.create_rand_sampling(seed).sample(n),
            _ => ctx.create_ffact_sampling().sample(n),
        }
    });
    match rs {
        Ok(r) => {
            ensure!(py.get("error").is_none(), "python-error", "Python reports {} where the library samples", py["error"]);
            let r = a2(&r);
            ensure!(py["x"][0] == r[0], "sample-shape", "{method}: shape {} in Python, {} in the library", py["x"][0], r[0]);
            if seed.is_some() || method == "FULL_FACTORIAL" {
                ensure!(eq(&py["x"], &r), "sample", "{method}: {} in Python, {} in the library", show(&py["x"]), show(&r));
                c.count("designs compared", 1);
            } else {
                let x = Array2::from_shape_vec((n, xt.len()), floats(&py["x"])).unwrap();
                for p in x.rows() {
                    ensure!(crate::ego::pt_ok(&xt, &p.to_vec()).is_ok(), "sample-inadmissible", "{method}: {p}");
                }
                c.count("unseeded designs", 1);
            }
        }
        Err(e) => {
            ensure!(py.get("error").is_some(), "python-succeeds", "the library fails with {e}");
            c.count("samplings failing on both sides", 1);
            c.key = 0;
        }
    }
    Ok(())
}

fn obs(g: &GpMixture, xq: &Array2<f64>, sparse: bool) -> Result<Map<String, Value>, String> {
    let v = xq.view();
    let mut m = Map::new();
    let e = |e: egobox_moe::MoeError| e.to_string();
    m.insert("predict".into(), a1(&GpMixture::predict(g, &v).map_err(e)?));
    m.insert("predict_var".into(), a1(&GpMixture::predict_var(g, &v).map_err(e)?));
    m.insert("predict_gradients".into(), a2(&GpMixture::predict_gradients(g, &v).map_err(e)?));
    m.insert("predict_var_gradients".into(), a2(&GpMixture::predict_var_gradients(g, &v).map_err(e)?));
    let ex = g.experts();
    let nt = ex[0].theta().len();
    m.insert("thetas".into(), a2(&Array2::from_shape_fn((ex.len(), nt), |(i, j)| ex[i].theta()[j])));
    m.insert("variances".into(), a1(&ex.iter().map(|e| e.variance()).collect()));
    m.insert("likelihoods".into(), a1(&ex.iter().map(|e| e.likelihood()).collect()));
    if !sparse {
        let (nx, ny) = GpSurrogate::dims(g);
        m.insert("dims".into(), json!([nx, ny]));
        let (x, y) = GpQualityAssurance::training_data(g);
        m.insert("xt".into(), a2(x));
        m.insert("yt".into(), a1(y));
    }
    Ok(m)
}

fn same(what: &str, py: &Value, rs: &Map<String, Value>) -> Res {
    for (k, v) in rs {
        let ok = if k == "dims" { py[k] == *v } else { eq(&py[k], v) };
        ensure!(ok, format!("{what}-{k}"), "{what}: {k} is {} in Python, {} in the library", show(&py[k]), show(v));
    }
    Ok(())
}

fn surrogate(c: &mut Case, pool: &Pool, dir: &std::path::Path) -> Res {
    let d = c.i(1, 3);
    let n = c.i(8, 30);
    let sparse = c.b(0.3);
    let lo: Vec<f64> = (0..d).map(|_| c.u(-5., 5.)).collect();
    let w: Vec<f64> = (0..d).map(|_| 10f64.powf(c.u(-1., 1.5))).collect();
    let xt: Vec<XType> = lo.iter().zip(&w).map(|(a, w)| XType::Float(*a, a + w)).collect();
    let f = Poly::rand(c, &xt);
    let fr = c.u(1., 6.);
    let x = Array2::from_shape_fn((n, d), |(_, j)| lo[j] + w[j] * c.u(0., 1.));
    let y: Array1<f64> = x.rows().into_iter().map(|r| f.val(&r.to_vec()) + (fr * (r[0] - lo[0]) / w[0]).sin()).collect();
    let xq = Array2::from_shape_fn((c.i(1, 6), d), |(_, j)| lo[j] + w[j] * c.u(-0.1, 1.1));
    let seed = c.rng.gen::<u64>() >> c.i(0, 60);
    let g = Gp::rand(c, d, false, true, false);
    let mut kw = g.kw.clone();
    let flat_x = !sparse && d == 1 && c.b(0.3);
    let flat_y = !sparse && c.b(0.5);
    let nz = c.i(3, n.min(10));
    let located = c.b(0.5);
    let z = Array2::from_shape_fn((nz, d), |(_, j)| lo[j] + w[j] * c.u(0., 1.));
    let vfe = c.b(0.5);
    let mut n_start = g.n_start;
    if sparse {
        for k in ["regr_spec", "n_clusters", "recombination", "max_eval"] {
            kw.remove(k);
        }
        n_start = n_start.max(0);
        if kw.contains_key("n_start") {
            kw.insert("n_start".into(), json!(n_start));
        }
        if located {
            kw.insert("z".into(), a2(&z));
        } else {
            kw.insert("nz".into(), json!(nz));
        }
        if vfe || c.b(0.5) {
            kw.insert("method".into(), json!(if vfe { "VFE" } else { "FITC" }));
        }
    }
    kw.insert("seed".into(), json!(seed));
    let pd = dir.join(format!("m{}", c.idx));
    std::fs::create_dir_all(&pd).unwrap();
    let _clean = Scratch(pd.clone());
    let y2 = y.clone().insert_axis(ndarray::Axis(1));
    let sample = c.b(0.3);
    let m = json!({"op": "surrogate", "sparse": sparse, "builder": c.b(0.5), "kw": kw, "x": a2(&x), "y": a2(&y2), "xq": a2(&xq), "flavour": c.i(0, 3),
        "flat_x": flat_x, "flat_y": flat_y, "dir": pd.to_str().unwrap(), "sample": sample});
    c.describe(m.to_string());
    let py = pool.ask(&m).or_else(|e| fail("worker-died", e))?;
    let rs = guard(|| {
        let rng = Xoshiro256Plus::seed_from_u64(seed);
        let ds = Dataset::new(x.clone(), y.clone());
        let p: GpMixtureParams<f64> = if sparse {
            let mut t = g.clone();
            t.n_start = n_start;
            GpMixture::params()
                .gp_type(GpType::SparseGp { sparse_method: if vfe { SparseMethod::Vfe } else { SparseMethod::Fitc }, inducings: if located { Inducings::Located(z.clone()) } else { Inducings::Randomized(nz) } })
                .correlation_spec(g.corr)
                .theta_tunings(&[t.tuning()])
                .kpls_dim(g.kpls)
                .n_start(n_start as usize)
                .with_rng(rng)
        } else {
            let k = if g.clu > 0 { g.clu as usize } else { 1 };
            GpMixture::params()
                .n_clusters(g.clusters())
                .recombination(if g.smooth { Recombination::Smooth(None) } else { Recombination::Hard })
                .regression_spec(g.regr)
                .correlation_spec(g.corr)
                .theta_tunings(&vec![g.tuning(); k])
                .kpls_dim(g.kpls)
                .n_start(g.n_start.max(0) as usize)
                .max_eval(g.max_eval)
                .with_rng(rng)
        };
        p.fit(&ds).map_err(|e| e.to_string()).and_then(|g| obs(&g, &xq, sparse).map(|o| (g, o)))
    });
    let (gp, ob) = match rs {
        Ok(Ok(r)) => r,
        Ok(Err(e)) | Err(e) => {
            ensure!(py.get("error").is_some(), "python-succeeds", "the library fails with {e}, Python fits");
            c.count("trainings failing on both sides", 1);
            c.key = 0;
            return Ok(());
        }
    };
    ensure!(py.get("error").is_none(), "python-error", "Python reports {} where the library trains", py["error"]);
    same("fitted", &py["fitted"], &ob)?;
    ensure!(py["str"] == json!(gp.to_string()), "str", "str() is {} in Python, {gp} in the library", py["str"]);
    // the representation is the JSON of the model
    let repr: Result<Value, _> = serde_json::from_str(py["repr"].as_str().unwrap_or(""));
    ensure!(repr.is_ok(), "repr", "repr() is no JSON: {:?}", repr.err());
    if let Some(s) = py.get("sample") {
        ensure!(*s == json!([xq.nrows(), 5]), "sample-shape", "5 trajectories at {} points have shape {s}", xq.nrows());
        c.count("trajectories", 5);
    }
    for (ext, fmt) in [("json", GpFileFormat::Json), ("bin", GpFileFormat::Binary)] {
        ensure!(py[format!("saved_{ext}")] == json!(true), "save", "save reports {} for .{ext}", py[format!("saved_{ext}")]);
        let p = pd.join(format!("model.{ext}"));
        let l = must_ok("load", "loading in the library the model saved in Python", || GpMixture::load(p.to_str().unwrap(), fmt))?;
        let o = match obs(&l, &xq, sparse) {
            Ok(o) => o,
            Err(e) => return fail("load", e),
        };
        same("loaded", &py[format!("loaded_{ext}")], &o)?;
        if ext == "bin" {
            same("saved-and-loaded", &py["loaded_bin"], &ob)?;
        }
    }
    ensure!(py["save_bad"] == json!(false), "save-bad", "saving in a missing directory reports {}", py["save_bad"]);
    c.count(if sparse { "sparse surrogates compared" } else { "surrogates compared" }, 1);
    Ok(())
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("The extension module built from the working tree is driven from Python workers with random keywords (given or omitted), spaces written in all accepted forms and arrays of all memory layouts; the library is driven with the documented meaning of the same keywords: every array the objective receives, every result, file and surrogate is compared bit for bit. Non-trivial: both sides succeeded.");
    let scratch = Scratch::new("c29");
    let dir = scratch.0.clone();
    let pool = Pool { free: Mutex::new(vec![]), dir: dir.clone() };
    match pool.ask(&json!({"op": "none"})) {
        Ok(_) => {}
        Err(e) => return ctx.inconclusive(format!("no python worker: {e}")),
    }
    let t = nthreads();
    ctx.cases("sampling", ctx.n(1500, 20000), ctx.n(10, 100) as f64, t, |c| sampling(c, &pool));
    ctx.cases("best", ctx.n(1500, 20000), ctx.n(10, 100) as f64, t, |c| best(c, &pool));
    ctx.cases("surrogates", ctx.n(800, 8000), ctx.n(25, 300) as f64, t, |c| surrogate(c, &pool, &dir));
    ctx.cases("suggest", ctx.n(400, 5000), ctx.n(25, 300) as f64, t, |c| suggest(c, &pool));
    ctx.cases("minimize", ctx.n(400, 5000), ctx.n(60, 900) as f64, t, |c| minimize(c, &pool, &dir));
}
