//! C26: regret on problems whose optimum is known, against the initial design and random search.
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use egobox_ego::XType;

/// A problem of known optimum: the run, its best value, and a draw of values of random search.
struct Problem {
    spec: Spec,
    fstar: f64,
}
const FAMILIES: usize = 8;
const NAMES: [&str; FAMILIES] = ["bowl", "branin", "xsinx", "rosenbrock", "half-space modelled", "half-space function", "mixed-integer bowl", "bowl 4d"];

fn shifted(c: &mut Case, n: usize) -> Vec<XType> {
    (0..n)
        .map(|_| {
            let w = 10f64.powf(c.u(-1., 2.));
            let a = c.u(-2., 2.) * w;
            XType::Float(a, a + w)
        })
        .collect()
}

fn problem(c: &mut Case, fam: usize) -> Problem {
    let base = |c: &mut Case, xt: Vec<XType>, kind| {
        let mut s = rand_spec(c, Opts { space: 0, maxdim: 1, hostile: false, cstr: false, fcstr: false, plain_gp: true, trego: false, coego: false });
        s.fun = rand_fun(c, &xt, kind, 0);
        s.mixint = is_discrete(&xt);
        s.xt = xt;
        s.q_optmod = 1;
        s.n_start = 10;
        s.gp_start = 4;
        s
    };
    match fam {
        0 | 7 => {
            let n = if fam == 0 { 2 } else { 4 };
            let xt = shifted(c, n);
            let spec = base(c, xt, Kind::Bowl);
            Problem { spec, fstar: 0. }
        }
        1 => {
            let xt = shifted(c, 2);
            Problem { spec: base(c, xt, Kind::Branin), fstar: 0.397887 }
        }
        2 => {
            let xt = shifted(c, 1);
            Problem { spec: base(c, xt, Kind::Xsinx), fstar: -15.125 }
        }
        3 => {
            let xt = shifted(c, 2);
            Problem { spec: base(c, xt, Kind::Rosen), fstar: 0. }
        }
        4 | 5 => {
            // isotropic bowl cut by a half space through its side: the optimum is the projection of the centre
            let xt = shifted(c, 2);
            let mut spec = base(c, xt, Kind::Bowl);
            spec.fun.w = vec![1., 1.];
            spec.fun.c = vec![c.u(0.4, 0.6), c.u(0.4, 0.6)];
            let th = c.u(0., 6.28);
            let a = vec![th.cos(), th.sin()];
            let depth = c.u(0.1, 0.3);
            let t = a.iter().zip(&spec.fun.c).map(|(a, c)| a * c).sum::<f64>() - depth;
            if fam == 4 {
                spec.fun.cs = vec![(a, t, *c.pick(&[1., 10.]))];
            } else {
                // a.u - t in terms of x
                let (mut ax, mut b) = (vec![], t);
                for (i, ty) in spec.xt.iter().enumerate() {
                    if let XType::Float(l, h) = ty {
                        ax.push(a[i] / (h - l));
                        b += a[i] * l / (h - l);
                    }
                }
                spec.lin = vec![Lin { a: ax, b }];
            }
            // the tolerance lets the bowl be entered a little
            Problem { spec, fstar: (depth - 1e-4f64).powi(2) }
        }
        _ => {
            let k = c.i(2, 4);
            let m = c.i(3, 12) as i32;
            let xt = vec![shifted(c, 1).remove(0), XType::Int(-m, m), XType::Enum(k)];
            let spec = base(c, xt, Kind::Bowl);
            let f = &spec.fun;
            let grid = |n: usize| (0..n).map(move |i| i as f64 / (n - 1) as f64);
            let d1 = grid(2 * m as usize + 1).map(|u| f.w[1] * (u - f.c[1]).powi(2)).fold(f64::INFINITY, f64::min);
            let d2 = f.off[2].iter().map(|u| f.w[2] * (u - f.c[2]).powi(2)).fold(f64::INFINITY, f64::min);
            let fstar = d1 + d2;
            Problem { spec, fstar }
        }
    }
}

fn values(s: &Spec, x: &[f64]) -> (f64, f64) {
    let v = s.fvals(x);
    let mut cs: Vec<f64> = v[1..].to_vec();
    cs.extend(s.cvals(x));
    (v[0], violation(&cs, &s.tols()))
}
fn draw(c: &mut Case, s: &Spec) -> Vec<f64> {
    s.xt.iter()
        .map(|t| match t {
            XType::Float(a, b) => c.u(*a, *b),
            XType::Int(a, b) => c.i(0, (b - a) as usize) as f64 + *a as f64,
            XType::Enum(n) => c.i(0, n - 1) as f64,
            XType::Ord(v) => *c.pick(v),
        })
        .collect()
}
fn median(mut v: Vec<f64>) -> f64 {
    v.sort_by(f64::total_cmp);
    v[v.len() / 2]
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("Groups of ten seeded optimisations of randomly shifted, scaled and oriented problems of known optimum (bowls, Branin, xsinx, log-Rosenbrock, bowls cut by a modelled or function constraint, mixed-integer bowls) for each criterion, strategy and internal optimiser: regret of the reported optimum relative to the median regret over the domain, against that of the initial design and the median of 15 random searches of the same budget. Non-trivial: all ten runs ended.");
    ctx.cases("groups", ctx.n(64, 1600), ctx.n(60, 1500) as f64, nthreads(), |c| group(c));
}

fn group(c: &mut Case) -> Res {
    let idx = c.idx as usize;
    let fam = idx % FAMILIES;
    let strat = (idx / FAMILIES) % 4;
    let slsqp = (idx / FAMILIES / 4) % 2 == 0;
    let mode = c.i(0, 9);
    let (mut q, mut trego, mut coego, mut cstr_infill, mut utb) = (1, false, None, false, c.b(0.3));
    match mode {
        0..=3 => q = 3,
        4 => trego = true,
        5 if fam == 7 => coego = Some(2),
        6 | 7 => cstr_infill = true,
        _ => utb = c.b(0.3),
    }
    let qei = mode % 4;
    let corr = c.i(0, 2);
    let name = NAMES[fam];
    c.describe(format!("{name} criterion={strat} slsqp={slsqp} q={q} qei={qei} trego={trego} coego={coego:?} cstr_infill={cstr_infill} utb={utb} corr={corr}"));
    let (mut better, mut closer, mut good) = (0, 0, 0);
    let (mut lines, mut ends) = (vec![], vec![]);
    let n = 10;
    for _ in 0..n {
        let p = problem(c, fam);
        let mut s = p.spec;
        let d = s.xt.len();
        s.n_doe = 5 + d;
        s.strat = strat;
        s.slsqp = slsqp;
        s.q_points = q;
        s.qei = qei;
        s.trego = trego;
        s.coego = coego;
        s.cstr_infill = cstr_infill;
        s.utb = utb;
        s.corr = corr;
        s.seed = Some(c.i(0, 1 << 30) as u64);
        s.max_iters = if d == 4 { 24 } else { 18 } / q;
        let o = match run(&s) {
            Ok(o) => o,
            Err(e) => return fail("run-failed", format!("{e}: {}", s.short())),
        };
        let budget = s.n_doe + s.max_iters * q;
        let typical = median((0..400).map(|_| draw(c, &s)).map(|x| values(&s, &x).0).collect()) - p.fstar;
        let gap = |f: f64, v: f64| if v > 0. { 1e3 + v } else { ((f - p.fstar) / typical).max(0.) };
        let of = |x: &[f64]| {
            let (f, v) = values(&s, x);
            gap(f, v)
        };
        let end = of(&o.x_opt);
        let start = o.x_doe.rows().into_iter().take(s.n_doe).map(|r| of(&r.to_vec())).fold(f64::INFINITY, f64::min);
        let rnd = median((0..15).map(|_| (0..budget).map(|_| { let x = draw(c, &s); of(&x) }).fold(f64::INFINITY, f64::min)).collect());
        lines.push(format!("{start:.2e}>{end:.2e} (random {rnd:.2e})"));
        c.sub.push(end.to_bits());
        ends.push(end);
        better += (end <= rnd.max(1e-3)) as usize;
        closer += (end <= (0.3 * start).max(1e-3)) as usize;
        good += (end <= 0.02) as usize;
    }
    if std::env::var("VP_BENCH").is_ok() {
        eprintln!("BENCH {name} strat={strat} slsqp={slsqp} q={q}/{qei} trego={trego} coego={coego:?} ci={cstr_infill} utb={utb} corr={corr}: better {better} closer {closer} good {good} {lines:?}");
    }
    c.count("optimisations", n as u64);
    c.count("better than random search", better as u64);
    c.count("much closer than the initial design", closer as u64);
    c.count("within 2% of the typical gap", good as u64);
    let med = median(ends);
    let lim = match fam {
        0 => 3e-3,
        1 => 3e-2,
        2 => 3e-3,
        3 => 0.5,
        // a product with saturated factors is flat around the boundary
        4 | 5 if cstr_infill => 0.2,
        _ => 1e-2,
    };
    let (nb, nc) = if fam == 3 { (3, 3) } else { (6, 5) };
    ensure!(better >= nb && closer >= nc, "no-progress", "{name}: {better} of {n} runs end better than random search of the same budget, {closer} much closer than their initial design: {lines:?}");
    ensure!(med <= lim, "far-from-optimum", "{name}: the median final regret is {med:.2e} of the typical one, above {lim:.0e}: {lines:?}");
    Ok(())
}
