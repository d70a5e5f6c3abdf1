//! Independent double-precision reference model.
#![allow(dead_code, clippy::needless_range_loop)]

pub const U: f64 = 5.960464477539063e-8; // unit roundoff of f32
pub const TINY: f64 = 1.5e-45; // just above the smallest f32 subnormal
pub const FMAX: f64 = f32::MAX as f64;
pub const EPS: f64 = 0.0001f32 as f64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub a: [[f64; 4]; 4],
}

impl M {
    pub fn zero(r: usize, c: usize) -> M {
        M { r, c, a: [[0.0; 4]; 4] }
    }
    pub fn eye(n: usize) -> M {
        let mut m = M::zero(n, n);
        for i in 0..n {
            m.a[i][i] = 1.0;
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f64) -> M {
        let mut m = M::zero(r, c);
        for i in 0..r {
            for j in 0..c {
                m.a[i][j] = f(i, j);
            }
        }
        m
    }
    pub fn diag(d: &[f64]) -> M {
        let mut m = M::zero(d.len(), d.len());
        for (i, v) in d.iter().enumerate() {
            m.a[i][i] = *v;
        }
        m
    }
    pub fn t(&self) -> M {
        M::from_fn(self.c, self.r, |i, j| self.a[j][i])
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        M::from_fn(self.r, o.c, |i, j| (0..self.c).map(|k| self.a[i][k] * o.a[k][j]).sum())
    }
    pub fn add(&self, o: &M) -> M {
        M::from_fn(self.r, self.c, |i, j| self.a[i][j] + o.a[i][j])
    }
    pub fn sub(&self, o: &M) -> M {
        M::from_fn(self.r, self.c, |i, j| self.a[i][j] - o.a[i][j])
    }
    pub fn scale(&self, s: f64) -> M {
        M::from_fn(self.r, self.c, |i, j| self.a[i][j] * s)
    }
    pub fn abs(&self) -> M {
        M::from_fn(self.r, self.c, |i, j| self.a[i][j].abs())
    }
    pub fn max_abs(&self) -> f64 {
        let mut m: f64 = 0.0;
        for i in 0..self.r {
            for j in 0..self.c {
                m = m.max(self.a[i][j].abs());
            }
        }
        m
    }
    pub fn norm_inf(&self) -> f64 {
        (0..self.r).map(|i| (0..self.c).map(|j| self.a[i][j].abs()).sum::<f64>()).fold(0.0, f64::max)
    }
    pub fn fro(&self) -> f64 {
        let mut s = 0.0;
        for i in 0..self.r {
            for j in 0..self.c {
                s += self.a[i][j] * self.a[i][j];
            }
        }
        s.sqrt()
    }
    pub fn minor(&self, ri: usize, ci: usize) -> M {
        M::from_fn(self.r - 1, self.c - 1, |i, j| self.a[if i < ri { i } else { i + 1 }][if j < ci { j } else { j + 1 }])
    }
    /// Laplace expansion, no pivoting decisions involved.
    pub fn det(&self) -> f64 {
        match self.r {
            0 => 1.0,
            1 => self.a[0][0],
            2 => self.a[0][0] * self.a[1][1] - self.a[0][1] * self.a[1][0],
            _ => (0..self.r).map(|j| if j % 2 == 0 { 1.0 } else { -1.0 } * self.a[0][j] * self.minor(0, j).det()).sum(),
        }
    }
    pub fn cof(&self) -> M {
        M::from_fn(self.r, self.r, |i, j| if (i + j) % 2 == 0 { 1.0 } else { -1.0 } * self.minor(i, j).det())
    }
    /// Permanent of |A|: sum of magnitudes of all terms of the determinant.
    pub fn perm_abs(&self) -> f64 {
        match self.r {
            0 => 1.0,
            1 => self.a[0][0].abs(),
            _ => (0..self.r).map(|j| self.a[0][j].abs() * self.minor(0, j).perm_abs()).sum(),
        }
    }
    /// Gauss-Jordan with full pivoting on an augmented system.
    pub fn inv(&self) -> Option<M> {
        let n = self.r;
        let mut a = *self;
        let mut b = M::eye(n);
        let mut colp = [0usize; 4];
        let mut used_r = [false; 4];
        let mut used_c = [false; 4];
        for _ in 0..n {
            let (mut bi, mut bj, mut bv) = (0, 0, 0.0);
            for i in 0..n {
                if used_r[i] {
                    continue;
                }
                for j in 0..n {
                    if !used_c[j] && a.a[i][j].abs() > bv {
                        bi = i;
                        bj = j;
                        bv = a.a[i][j].abs();
                    }
                }
            }
            if bv == 0.0 {
                return None;
            }
            used_r[bi] = true;
            used_c[bj] = true;
            colp[bi] = bj;
            let p = a.a[bi][bj];
            for j in 0..n {
                a.a[bi][j] /= p;
                b.a[bi][j] /= p;
            }
            for i in 0..n {
                if i != bi {
                    let f = a.a[i][bj];
                    if f != 0.0 {
                        for j in 0..n {
                            a.a[i][j] -= f * a.a[bi][j];
                            b.a[i][j] -= f * b.a[bi][j];
                        }
                    }
                }
            }
        }
        let mut x = M::zero(n, n);
        for i in 0..n {
            x.a[colp[i]] = b.a[i];
        }
        Some(x)
    }
    /// Smallest singular value (via Jacobi on AᵀA in f64; accurate to ~1e-8*max).
    pub fn sigma_min(&self) -> f64 {
        match self.inv() {
            None => 0.0,
            Some(x) => {
                let (e, _) = x.t().mul(&x).jacobi();
                let m = e.iter().take(self.r).fold(0.0f64, |a, b| a.max(*b));
                if m <= 0.0 || !m.is_finite() {
                    0.0
                } else {
                    1.0 / m.sqrt()
                }
            }
        }
    }
    pub fn sigma_max(&self) -> f64 {
        let g = self.t().mul(self);
        let (e, _) = g.jacobi();
        e.iter().take(g.r).fold(0.0f64, |a, b| a.max(*b)).max(0.0).sqrt()
    }
    /// Cyclic Jacobi for symmetric matrices: eigenvalues and eigenvectors (columns).
    pub fn jacobi(&self) -> ([f64; 4], M) {
        let n = self.r;
        let mut a = *self;
        let mut v = M::eye(n);
        for _ in 0..60 {
            let mut off = 0.0;
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        off += a.a[i][j] * a.a[i][j];
                    }
                }
            }
            if off == 0.0 {
                break;
            }
            for p in 0..n {
                for q in (p + 1)..n {
                    if a.a[p][q] == 0.0 {
                        continue;
                    }
                    let th = (a.a[q][q] - a.a[p][p]) / (2.0 * a.a[p][q]);
                    let t = if th >= 0.0 { 1.0 } else { -1.0 } / (th.abs() + (th * th + 1.0).sqrt());
                    let c = 1.0 / (t * t + 1.0).sqrt();
                    let s = t * c;
                    for k in 0..n {
                        let (x, y) = (a.a[k][p], a.a[k][q]);
                        a.a[k][p] = c * x - s * y;
                        a.a[k][q] = s * x + c * y;
                    }
                    for k in 0..n {
                        let (x, y) = (a.a[p][k], a.a[q][k]);
                        a.a[p][k] = c * x - s * y;
                        a.a[q][k] = s * x + c * y;
                    }
                    for k in 0..n {
                        let (x, y) = (v.a[k][p], v.a[k][q]);
                        v.a[k][p] = c * x - s * y;
                        v.a[k][q] = s * x + c * y;
                    }
                }
            }
        }
        let mut e = [0.0; 4];
        for i in 0..n {
            e[i] = a.a[i][i];
        }
        (e, v)
    }
    /// Determinant, by integer arithmetic, of a matrix of small integers.
    pub fn det_int(&self) -> i128 {
        fn d(m: &[[i128; 4]; 4], n: usize) -> i128 {
            if n == 0 {
                return 1;
            }
            if n == 1 {
                return m[0][0];
            }
            let mut s = 0;
            for j in 0..n {
                let mut k = [[0i128; 4]; 4];
                for i in 1..n {
                    let mut cc = 0;
                    for l in 0..n {
                        if l != j {
                            k[i - 1][cc] = m[i][l];
                            cc += 1;
                        }
                    }
                }
                s += if j % 2 == 0 { 1 } else { -1 } * m[0][j] * d(&k, n - 1);
            }
            s
        }
        let mut m = [[0i128; 4]; 4];
        for i in 0..self.r {
            for j in 0..self.c {
                m[i][j] = self.a[i][j] as i128;
            }
        }
        d(&m, self.r)
    }
}

pub type Q4 = [f64; 4];
pub type V3 = [f64; 3];

pub fn qmul(p: Q4, q: Q4) -> Q4 {
    [
        p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3],
        p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
        p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1],
        p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0],
    ]
}
pub fn qconj(q: Q4) -> Q4 {
    [q[0], -q[1], -q[2], -q[3]]
}
pub fn qnorm(q: Q4) -> f64 {
    (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt()
}
pub fn qunit(q: Q4) -> Q4 {
    let n = qnorm(q);
    [q[0] / n, q[1] / n, q[2] / n, q[3] / n]
}
pub fn qrot(q: Q4, v: V3) -> V3 {
    let r = qmul(qmul(q, [0.0, v[0], v[1], v[2]]), qconj(q));
    [r[1], r[2], r[3]]
}
pub fn qscale(q: Q4, s: f64) -> Q4 {
    [q[0] * s, q[1] * s, q[2] * s, q[3] * s]
}
pub fn qadd(a: Q4, b: Q4) -> Q4 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn qdot(a: Q4, b: Q4) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn qdist(a: Q4, b: Q4) -> f64 {
    (0..4).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max)
}
/// Distance up to overall sign.
pub fn qdist_pm(a: Q4, b: Q4) -> f64 {
    qdist(a, b).min(qdist(a, qscale(b, -1.0)))
}
pub fn axis_angle(n: V3, th: f64) -> Q4 {
    let l = vnorm(n);
    let (s, c) = (th / 2.0).sin_cos();
    [c, n[0] / l * s, n[1] / l * s, n[2] / l * s]
}
pub fn vnorm(v: V3) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
pub fn vdot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn vcross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn vscale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn vangle(a: V3, b: V3) -> f64 {
    vnorm(vcross(a, b)).atan2(vdot(a, b))
}
/// Rotation matrix of a unit quaternion: columns are rotated basis vectors.
pub fn qdcm(q: Q4) -> M {
    let c0 = qrot(q, [1.0, 0.0, 0.0]);
    let c1 = qrot(q, [0.0, 1.0, 0.0]);
    let c2 = qrot(q, [0.0, 0.0, 1.0]);
    M::from_fn(3, 3, |i, j| [c0, c1, c2][j][i])
}
/// Angle of the rotation between two attitudes.
pub fn qangle(a: Q4, b: Q4) -> f64 {
    let d = qmul(qconj(a), b);
    2.0 * vnorm([d[1], d[2], d[3]]).atan2(d[0].abs())
}
