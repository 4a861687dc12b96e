//! Workload generation: training sets and query points.
use crate::fw::*;
use ndarray::{Array1, Array2};

pub fn rand_x(c: &mut Case, n: usize, d: usize) -> (Array2<f64>, &'static str) {
    let style = c.i(0, 4);
    let sc: Vec<f64> = (0..d)
        .map(|_| {
            if c.b(0.4) {
                10f64.powf(c.u(-4., 6.))
            } else {
                1.
            }
        })
        .collect();
    let off: Vec<f64> = (0..d).map(|j| if c.b(0.4) { c.u(-5., 5.) * sc[j] } else { 0. }).collect();
    let mut x = Array2::zeros((n, d));
    match style {
        0 => x.mapv_inplace(|_| c.u(0., 1.)),
        1 | 4 => {
            // latin hypercube
            for j in 0..d {
                let mut p: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    let k = c.i(0, i);
                    p.swap(i, k);
                }
                for i in 0..n {
                    x[[i, j]] = (p[i] as f64 + c.u(0.1, 0.9)) / n as f64;
                }
            }
        }
        2 => {
            // two clusters
            for i in 0..n {
                let o = if i % 2 == 0 { 0. } else { 3. };
                for j in 0..d {
                    x[[i, j]] = o + c.normal() * 0.3;
                }
            }
        }
        _ => {
            // jittered lattice with repeated coordinate values
            for i in 0..n {
                for j in 0..d {
                    x[[i, j]] = c.i(0, 6) as f64 + if j == 0 { c.u(-0.2, 0.2) } else { 0. };
                }
            }
        }
    }
    for i in 0..n {
        for j in 0..d {
            x[[i, j]] = off[j] + sc[j] * x[[i, j]];
        }
    }
    (x, ["uniform", "lhs", "clusters", "lattice", "lhs"][style])
}

/// Smooth or rough outputs in random units.
pub fn rand_y(c: &mut Case, x: &Array2<f64>) -> (Array1<f64>, &'static str) {
    let (n, d) = x.dim();
    let lo: Vec<f64> = (0..d).map(|j| x.column(j).fold(f64::MAX, |a, b| a.min(*b))).collect();
    let w: Vec<f64> = (0..d)
        .map(|j| (x.column(j).fold(f64::MIN, |a, b| a.max(*b)) - lo[j]).max(1e-300))
        .collect();
    let style = c.i(0, 4);
    let a: Vec<f64> = (0..d).map(|_| c.u(-3., 3.)).collect();
    let b: Vec<f64> = (0..d).map(|_| c.u(0., 6.)).collect();
    let mut y = Array1::zeros(n);
    for i in 0..n {
        let t: Vec<f64> = (0..d).map(|j| (x[[i, j]] - lo[j]) / w[j]).collect();
        y[i] = match style {
            0 => (0..d).map(|j| (a[j] * 2. * t[j] + b[j]).sin()).sum::<f64>(),
            1 => (0..d).map(|j| a[j] * t[j]).sum::<f64>() + 0.3 * (3. * t[0]).cos(),
            2 => c.normal(),
            3 => (0..d).map(|j| a[j] * (t[j] - 0.4).powi(2) + b[j] * t[j] * t[0]).sum::<f64>() + (5. * t[0]).sin() * 0.2,
            _ => {
                if t[0] > 0.5 {
                    1. + t[d - 1]
                } else {
                    (4. * t[0]).sin()
                }
            }
        };
    }
    let s = if c.b(0.5) { 1. } else { 10f64.powf(c.u(-6., 7.)) };
    let o = if c.b(0.5) { 0. } else { c.u(-20., 20.) * s };
    y.mapv_inplace(|v| o + s * v);
    (y, ["sines", "linear", "noise", "quadratic", "step"][style])
}

pub fn query(c: &mut Case, x: &Array2<f64>, m: usize) -> Array2<f64> {
    let (n, d) = x.dim();
    let lo: Vec<f64> = (0..d).map(|j| x.column(j).fold(f64::MAX, |a, b| a.min(*b))).collect();
    let hi: Vec<f64> = (0..d).map(|j| x.column(j).fold(f64::MIN, |a, b| a.max(*b))).collect();
    let mut q = Array2::zeros((m, d));
    for i in 0..m {
        let k = c.i(0, 5);
        let r = c.i(0, n - 1);
        for j in 0..d {
            let w = hi[j] - lo[j];
            q[[i, j]] = match k {
                0 => x[[r, j]],
                1 => x[[r, j]] + 1e-3 * w * c.u(-1., 1.),
                2 => c.u(lo[j] - 2. * w, hi[j] + 2. * w),
                _ => c.u(lo[j], hi[j]),
            };
        }
    }
    q
}
pub fn row(x: &Array2<f64>, i: usize) -> Vec<f64> {
    x.row(i).to_vec()
}
pub fn one(v: &[f64]) -> Array2<f64> {
    Array2::from_shape_fn((1, v.len()), |(_, j)| v[j])
}
