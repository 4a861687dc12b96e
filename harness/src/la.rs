//! Small dense linear algebra, written for the oracles (no dependency on the code under test).
#[derive(Clone, Debug)]
pub struct Mat {
    pub n: usize,
    pub m: usize,
    pub a: Vec<f64>,
}
impl Mat {
    pub fn zeros(n: usize, m: usize) -> Mat {
        Mat { n, m, a: vec![0.; n * m] }
    }
    pub fn from_fn(n: usize, m: usize, f: impl Fn(usize, usize) -> f64) -> Mat {
        let mut r = Mat::zeros(n, m);
        for i in 0..n {
            for j in 0..m {
                r.a[i * m + j] = f(i, j);
            }
        }
        r
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.m + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.m + j] = v;
    }
    pub fn t(&self) -> Mat {
        Mat::from_fn(self.m, self.n, |i, j| self.at(j, i))
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.m, o.n);
        let mut r = Mat::zeros(self.n, o.m);
        for i in 0..self.n {
            for k in 0..self.m {
                let v = self.at(i, k);
                for j in 0..o.m {
                    r.a[i * o.m + j] += v * o.at(k, j);
                }
            }
        }
        r
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| (0..self.m).map(|j| self.at(i, j) * v[j]).sum())
            .collect()
    }
    pub fn tmulv(&self, v: &[f64]) -> Vec<f64> {
        (0..self.m)
            .map(|j| (0..self.n).map(|i| self.at(i, j) * v[i]).sum())
            .collect()
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.n).map(|i| self.at(i, j)).collect()
    }
    /// lower Cholesky factor
    pub fn chol(&self) -> Option<Mat> {
        let n = self.n;
        let mut l = Mat::zeros(n, n);
        for j in 0..n {
            let mut s = self.at(j, j);
            for k in 0..j {
                s -= l.at(j, k) * l.at(j, k);
            }
            if !(s > 0.) || !s.is_finite() {
                return None;
            }
            let d = s.sqrt();
            l.set(j, j, d);
            for i in j + 1..n {
                let mut s = self.at(i, j);
                for k in 0..j {
                    s -= l.at(i, k) * l.at(j, k);
                }
                l.set(i, j, s / d);
            }
        }
        Some(l)
    }
    /// solve L y = b (self lower)
    pub fn fsub(&self, b: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut y = b.to_vec();
        for i in 0..n {
            for k in 0..i {
                y[i] -= self.at(i, k) * y[k];
            }
            y[i] /= self.at(i, i);
        }
        y
    }
    /// solve L^T x = b (self lower)
    pub fn bsub(&self, b: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut y = b.to_vec();
        for i in (0..n).rev() {
            for k in i + 1..n {
                y[i] -= self.at(k, i) * y[k];
            }
            y[i] /= self.at(i, i);
        }
        y
    }
    pub fn csolve(&self, b: &[f64]) -> Vec<f64> {
        self.bsub(&self.fsub(b))
    }
    /// eigenvalues of a symmetric matrix (cyclic Jacobi)
    pub fn eigvals(&self) -> Vec<f64> {
        let n = self.n;
        let mut a = self.clone();
        for _ in 0..60 {
            let mut off = 0.;
            for i in 0..n {
                for j in 0..i {
                    off += a.at(i, j).powi(2);
                }
            }
            let tr: f64 = (0..n).map(|i| a.at(i, i).powi(2)).sum();
            if off <= 1e-32 * tr {
                break;
            }
            for p in 0..n {
                for q in p + 1..n {
                    let apq = a.at(p, q);
                    if apq == 0. {
                        continue;
                    }
                    let th = (a.at(q, q) - a.at(p, p)) / (2. * apq);
                    let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                    let c = 1. / (t * t + 1.).sqrt();
                    let s = t * c;
                    for k in 0..n {
                        let (x, y) = (a.at(k, p), a.at(k, q));
                        a.set(k, p, c * x - s * y);
                        a.set(k, q, s * x + c * y);
                    }
                    for k in 0..n {
                        let (x, y) = (a.at(p, k), a.at(q, k));
                        a.set(p, k, c * x - s * y);
                        a.set(q, k, s * x + c * y);
                    }
                }
            }
        }
        let mut e: Vec<f64> = (0..n).map(|i| a.at(i, i)).collect();
        e.sort_by(|x, y| x.partial_cmp(y).unwrap());
        e
    }
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
/// sample standard deviation (n-1)
pub fn std1(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() as f64 - 1.)).sqrt()
}
