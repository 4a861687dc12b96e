//! Workloads run under Miri, AddressSanitizer and ThreadSanitizer: `san JOB SEED ROUNDS SIZE THREADS`.
//! Each prints one line "OBS job=.. events=.. values=.. hash=..", or stops with a message on a wrong result.
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use egobox_ego::{CorrelationSpec, EgorFactory, EgorServiceBuilder, InfillOptimizer, InfillStrategy, QEiStrategy, RegressionSpec, XType};
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use linfa::Float;
use egobox_gp::{GaussianProcess, Inducings, SparseGaussianProcess, SparseMethod, ThetaTuning};
use egobox_moe::{GpMixture, GpSurrogate, GpSurrogateExt, NbClusters, Recombination};
use linfa::prelude::*;
use ndarray::{Array1, Array2, ArrayView2, Axis};
use ndarray_rand::rand::{Rng, SeedableRng};
use rand_xoshiro::Xoshiro256Plus;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static EVENTS: AtomicU64 = AtomicU64::new(0);
static VALUES: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
fn see<'a, F: Float>(what: &str, v: impl IntoIterator<Item = &'a F>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut n = 0;
    for x in v {
        let x = x.to_f64().unwrap();
        if !x.is_finite() {
            println!("WRONG {what}: value {x}");
            std::process::exit(4);
        }
        h = (h ^ x.to_bits()).wrapping_mul(0x100000001b3);
        n += 1;
    }
    VALUES.fetch_add(n, Relaxed);
    EVENTS.fetch_add(1, Relaxed);
    if MAIN.get() {
        HASH.store((HASH.load(Relaxed) ^ h).wrapping_mul(0x100000001b3), Relaxed);
    }
    h
}
thread_local! {
    static MAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn arr<F: Float>(r: &mut Xoshiro256Plus, n: usize, d: usize) -> Array2<F> {
    Array2::from_shape_fn((n, d), |_| F::cast(r.gen::<f64>() * 3. - 1.))
}
fn out<F: Float>(x: &Array2<F>) -> Array1<F> {
    x.map_axis(Axis(1), |r| r.iter().enumerate().map(|(i, v)| num(*v * F::cast(1.7 + i as f64)).sin() + 0.2 * num(*v)).map(F::cast).fold(F::zero(), |a, b| a + b))
}
fn num<F: Float>(v: F) -> f64 {
    v.to_f64().unwrap()
}

fn doe<F: Float>(seed: u64, size: usize) {
    let mut r = Xoshiro256Plus::seed_from_u64(seed);
    for d in 1..=3 {
        let lim = Array2::from_shape_fn((d, 2), |(_, j)| F::cast(if j == 0 { -r.gen::<f64>() } else { 1. + r.gen::<f64>() }));
        for k in [LhsKind::Classic, LhsKind::Centered, LhsKind::Maximin, LhsKind::CenteredMaximin, LhsKind::Optimized] {
            for n in [1, 2, size] {
                see("lhs", Lhs::new(&lim).kind(k).with_rng(Xoshiro256Plus::seed_from_u64(seed)).sample(n).iter());
            }
        }
        for n in [1, size] {
            see("random", Random::new(&lim).with_rng(Xoshiro256Plus::seed_from_u64(seed)).sample(n).iter());
            see("full factorial", FullFactorial::new(&lim).sample(n).iter());
        }
    }
}

macro_rules! gp_one {
    ($F:ty, $M:ident, $C:ident, $r:expr, $size:expr, $threads:expr, $kpls:expr) => {{
        let d = if $kpls { 3 } else { $r.gen_range(1..3) };
        let x = arr::<$F>($r, $size, d);
        let y = out(&x);
        let p = GaussianProcess::<$F, $M, $C>::params($M::default(), $C::default()).n_start(2).max_eval(25);
        let p = if $kpls { p.kpls_dim(Some(1)) } else { p };
        // a trend may need more points than there are
        if let Ok(gp) = p.fit(&Dataset::new(x.to_owned(), y)) {
            let t = arr::<$F>($r, $size, d);
            let all = |gp: &GaussianProcess<$F, $M, $C>| -> [u64; 4] {
                [
                    see("predict", gp.predict(&t).unwrap().iter()),
                    see("variance", gp.predict_var(&t).unwrap().iter()),
                    see("gradients", gp.predict_gradients(&t).iter()),
                    see("variance gradients", gp.predict_var_gradients(&t).iter()),
                ]
            };
            let want = all(&gp);
            // the same model read by several threads
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..$threads).map(|_| s.spawn(|| all(&gp))).collect();
                for h in hs {
                    if h.join().unwrap() != want {
                        println!("WRONG predictions differ between threads");
                        std::process::exit(4);
                    }
                }
            });
            let _ = gp.sample(&t, 2);
        }
    }};
}
macro_rules! gp_all {
    ($F:ty, $seed:expr, $size:expr, $threads:expr) => {{
        let mut rng = Xoshiro256Plus::seed_from_u64($seed);
        let r = &mut rng;
        match $seed % 5 {
            0 => gp_one!($F, ConstantMean, SquaredExponentialCorr, r, $size, $threads, false),
            1 => gp_one!($F, LinearMean, AbsoluteExponentialCorr, r, $size, $threads, false),
            2 => gp_one!($F, ConstantMean, Matern32Corr, r, $size, $threads, false),
            3 => gp_one!($F, QuadraticMean, Matern52Corr, r, $size, $threads, false),
            _ => gp_one!($F, ConstantMean, SquaredExponentialCorr, r, $size, $threads, true),
        }
    }};
}
macro_rules! sgp_all {
    ($F:ty, $seed:expr, $size:expr) => {{
        let mut rng = Xoshiro256Plus::seed_from_u64($seed);
        let r = &mut rng;
        let x = arr::<$F>(r, $size + 4, 1 + ($seed % 2) as usize);
        let y = out(&x);
        let z = if $seed % 3 == 0 { Inducings::Located(x.slice(ndarray::s![..3, ..]).to_owned()) } else { Inducings::Randomized(4) };
        let m = if $seed % 2 == 0 { SparseMethod::Fitc } else { SparseMethod::Vfe };
        if let Ok(gp) = SparseGaussianProcess::<$F, SquaredExponentialCorr>::params(SquaredExponentialCorr::default(), z).sparse_method(m).seed(Some($seed)).n_start(2).fit(&Dataset::new(x.to_owned(), y)) {
            see("sparse predict", gp.predict(&x).unwrap().iter());
            see("sparse variance", gp.predict_var(&x).unwrap().iter());
            see("sparse gradients", gp.predict_gradients(&x).iter());
            see("sparse variance gradients", gp.predict_var_gradients(&x).iter());
        }
    }};
}

fn moe(seed: u64, size: usize, threads: usize) {
    let mut r = Xoshiro256Plus::seed_from_u64(seed);
    let mut x = arr::<f64>(&mut r, 2 * size, 2);
    for (i, mut row) in x.rows_mut().into_iter().enumerate() {
        row[0] += if i % 2 == 0 { 0. } else { 6. };
    }
    let y = out(&x);
    let recomb = [Recombination::Hard, Recombination::Smooth(Some(1.)), Recombination::Smooth(None)][(seed % 3) as usize];
    let m = GpMixture::params()
        .n_clusters(NbClusters::fixed(2))
        .regression_spec(egobox_moe::RegressionSpec::CONSTANT)
        .correlation_spec(egobox_moe::CorrelationSpec::SQUAREDEXPONENTIAL)
        .theta_tunings(&vec![ThetaTuning::<f64>::default(); 2])
        .recombination(recomb)
        .n_start(1)
        .with_rng(Xoshiro256Plus::seed_from_u64(seed))
        .fit(&Dataset::new(x.to_owned(), y));
    let Ok(m) = m else { return };
    let all = |m: &GpMixture| {
        [
            see("mixture predict", m.predict(&x.view()).unwrap().iter()),
            see("mixture variance", m.predict_var(&x.view()).unwrap().iter()),
            see("mixture gradients", m.predict_gradients(&x.view()).unwrap().iter()),
            see("mixture variance gradients", m.predict_var_gradients(&x.view()).unwrap().iter()),
        ]
    };
    let want = all(&m);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|_| s.spawn(|| all(&m))).collect();
        for h in hs {
            if h.join().unwrap() != want {
                println!("WRONG predictions of a mixture differ between threads");
                std::process::exit(4);
            }
        }
    });
}

fn ego(seed: u64, size: usize) {
    let disc = seed % 3 == 2;
    let xt = if disc { vec![XType::Float(-1., 2.), XType::Int(0, 5), XType::Enum(2)] } else { vec![XType::Float(-1., 2.), XType::Float(0., 4.)] };
    let obj = |x: &ArrayView2<f64>| Array2::from_shape_fn((x.nrows(), 2), |(i, k)| if k == 0 { x.row(i).iter().map(|v| (v - 0.7).powi(2)).sum() } else { x[[i, 0]] - 1. });
    let cstr = |x: &[f64], g: Option<&mut [f64]>, _: &mut egobox_ego::InfillObjData<f64>| {
        if let Some(g) = g {
            g.fill(0.);
            g[1] = 1.;
        }
        x[1] - 3.
    };
    let conf = |c: egobox_ego::EgorConfig| {
        c.n_cstr(1)
            .n_doe(5)
            .n_start(2)
            .max_iters(size)
            .q_points(1 + (seed % 2) as usize)
            .qei_strategy(QEiStrategy::KrigingBeliever)
            .infill_strategy([InfillStrategy::LogEI, InfillStrategy::EI, InfillStrategy::WB2, InfillStrategy::WB2S][(seed % 4) as usize].clone())
            .infill_optimizer(if seed % 2 == 0 { InfillOptimizer::Slsqp } else { InfillOptimizer::Cobyla })
            .trego(seed % 5 == 4)
            .configure_gp(|g| g.regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL).n_start(1).max_eval(25))
            .seed(seed)
    };
    let r = EgorFactory::optimize(obj).subject_to(vec![cstr]).configure(conf).min_within_mixint_space(&xt).unwrap().run().unwrap();
    see("optimum", r.x_opt.iter());
    see("evaluations", r.x_doe.iter());
    let s = EgorServiceBuilder::optimize().configure(conf).min_within_mixint_space(&xt).unwrap();
    see("suggestion", s.suggest(&r.x_doe, &r.y_doe).iter());
    // no feasible points, all feasible, ties
    let mut g = Xoshiro256Plus::seed_from_u64(seed);
    let y = Array2::from_shape_fn((6, 3), |_| g.gen_range(-2..3) as f64);
    let i = egobox_ego::find_best_result_index(&y, &Array2::zeros((6, 0)), &Array1::from_elem(2, 1e-4));
    see("best", [i as f64].iter());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (job, n): (&str, Vec<u64>) = (&a[1], a[2..].iter().map(|s| s.parse().unwrap()).collect());
    let (seed, rounds, size, threads) = (n[0], n[1], n[2] as usize, n[3] as usize);
    MAIN.set(true);
    rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
    for s in seed..seed + rounds {
        match job {
            "doe32" => doe::<f32>(s, size),
            "doe64" => doe::<f64>(s, size),
            "gp32" => gp_all!(f32, s, size, threads),
            "gp64" => gp_all!(f64, s, size, threads),
            "sgp32" => sgp_all!(f32, s, size),
            "sgp64" => sgp_all!(f64, s, size),
            "moe" => moe(s, size, threads),
            "ego" => ego(s, size),
            _ => panic!("unknown job"),
        }
    }
    println!("OBS job={job} seed={seed} rounds={rounds} threads={threads} events={} values={} hash={:016x}", EVENTS.load(Relaxed), VALUES.load(Relaxed), HASH.load(Relaxed));
}
