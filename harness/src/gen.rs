//! Input generators.
#![allow(dead_code)]
use crate::api::Arr;
use crate::core::Rng;
use crate::refm::*;

/// Any f32, including NaN and infinities.
pub fn wild(r: &mut Rng) -> f32 {
    match r.us(12) {
        0 => f32::NAN,
        1 => f32::INFINITY,
        2 => f32::NEG_INFINITY,
        3 => f32::from_bits(r.u64() as u32),
        4 => *r.pick(&[0.0, -0.0, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::from_bits(1), f32::MAX, f32::MIN]),
        _ => any_finite(r),
    }
}

/// Any finite f32, biased toward boundaries.
pub fn any_finite(r: &mut Rng) -> f32 {
    match r.us(10) {
        0 => *r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 1e-4, -1e-4, 0.0001, 3.0]),
        1 => *r.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e38, -1e38, 1.8e19, -1.8e19, 1e-45, -1e-45, 1e-20, 2e38, -2e38]),
        2 => loop {
            let v = f32::from_bits(r.u64() as u32);
            if v.is_finite() {
                return v;
            }
        },
        3 => r.range(-9, 9) as f32,
        4 => (r.logu(1e-30, 1e30) * r.sign()) as f32,
        _ => moderate(r),
    }
}

/// Values of moderate size; many exact zeros, small integers and threshold neighbours.
pub fn moderate(r: &mut Rng) -> f32 {
    match r.us(10) {
        0 => 0.0,
        1 | 2 => r.range(-9, 9) as f32,
        3 => (r.logu(1e-4, 1e4) * r.sign()) as f32,
        4 => *r.pick(&[0.5f32, -0.5, 1.0, -1.0, 0.25, 1e-4, 2e-4, 5e-5, -1e-4]),
        _ => r.uni(-10.0, 10.0) as f32,
    }
}

pub fn dims(r: &mut Rng) -> (usize, usize) {
    (1 + r.us(4), 1 + r.us(4))
}

pub fn arr(r: &mut Rng, rr: usize, cc: usize, f: fn(&mut Rng) -> f32) -> Arr {
    Arr::from_fn(rr, cc, |_, _| f(r))
}

pub fn vecf(r: &mut Rng, n: usize, f: fn(&mut Rng) -> f32) -> Vec<f32> {
    (0..n).map(|_| f(r)).collect()
}

/// Random unit quaternion, with special families (axis rotations, half turns, near identity).
/// Components that are zero in exact arithmetic become exactly zero.
pub fn exact(q: Q4) -> Q4 {
    q.map(|x| if x.abs() < 1e-12 { 0.0 } else { x })
}

pub fn unit_q(r: &mut Rng) -> Q4 {
    match r.us(10) {
        0 => {
            let ax = *r.pick(&AXES);
            let th = r.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_4;
            exact(axis_angle(ax, th))
        }
        1 => {
            let n = unit_v(r);
            exact(axis_angle(n, std::f64::consts::PI))
        }
        2 => {
            let n = unit_v(r);
            let th = r.logu(1e-7, 0.1);
            axis_angle(n, th)
        }
        3 => {
            let n = unit_v(r);
            let th = std::f64::consts::PI - r.logu(1e-7, 0.1);
            axis_angle(n, th)
        }
        4 => loop {
            // rotations between crystal axes: cube group, face and space diagonals
            let q = [r.range(-1, 1) as f64, r.range(-1, 1) as f64, r.range(-1, 1) as f64, r.range(-1, 1) as f64];
            if q.iter().any(|x| *x != 0.0) {
                return exact(qunit(q));
            }
        },
        _ => qunit([r.gauss(), r.gauss(), r.gauss(), r.gauss()]),
    }
}

pub const AXES: [V3; 10] = [
    [1.0, 0.0, 0.0],
    [0.0, 1.0, 0.0],
    [0.0, 0.0, 1.0],
    [1.0, 1.0, 0.0],
    [1.0, 0.0, 1.0],
    [0.0, 1.0, 1.0],
    [1.0, -1.0, 0.0],
    [1.0, 0.0, -1.0],
    [0.0, 1.0, -1.0],
    [1.0, 1.0, 1.0],
];

pub fn unit_v(r: &mut Rng) -> V3 {
    match r.us(6) {
        0 => {
            let a = *r.pick(&AXES);
            let s = r.sign();
            vscale(a, s / vnorm(a))
        }
        1 => {
            // octant corners
            let a = [r.sign(), r.sign(), r.sign()];
            vscale(a, 1.0 / vnorm(a))
        }
        _ => loop {
            let v = [r.gauss(), r.gauss(), r.gauss()];
            let n = vnorm(v);
            if n > 1e-3 {
                return vscale(v, 1.0 / n);
            }
        },
    }
}

/// Random n x n orthogonal matrix (product of plane rotations), det = +1.
pub fn rot_n(r: &mut Rng, n: usize) -> M {
    let mut q = M::eye(n);
    for a in 0..n {
        for b in (a + 1)..n {
            let th = if r.chance(0.1) { r.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_2 } else { r.uni(-3.2, 3.2) };
            let (s, c) = th.sin_cos();
            let mut g = M::eye(n);
            g.a[a][a] = c;
            g.a[b][b] = c;
            g.a[a][b] = -s;
            g.a[b][a] = s;
            q = q.mul(&g);
        }
    }
    q
}

pub fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = r.us(i + 1);
        p.swap(i, j);
    }
    p
}

/// Square matrices from many families (size n).
pub fn square(r: &mut Rng, n: usize) -> (Arr, &'static str) {
    match r.us(12) {
        0 => {
            // signed, scaled permutation
            let p = perm(r, n);
            let mut a = Arr::zero(n, n);
            for i in 0..n {
                a.d[i][p[i]] = (r.sign() * r.logu(0.1, 10.0)) as f32;
            }
            (a, "permutation")
        }
        1 => {
            let p = perm(r, n);
            let mut a = Arr::zero(n, n);
            for i in 0..n {
                a.d[i][p[i]] = 1.0;
            }
            (a, "pure-permutation")
        }
        2 => (Arr::of(&rot_n(r, n)), "rotation"),
        3 => {
            let mut q = rot_n(r, n);
            for j in 0..n {
                q.a[0][j] = -q.a[0][j];
            }
            (Arr::of(&q), "reflection")
        }
        4 => (Arr::from_fn(n, n, |i, j| if j >= i { r.uni(-3.0, 3.0) as f32 } else { 0.0 }), "upper"),
        5 => (Arr::from_fn(n, n, |i, j| if j <= i { r.uni(-3.0, 3.0) as f32 } else { 0.0 }), "lower"),
        6 => (Arr::from_fn(n, n, |_, _| r.range(-3, 3) as f32), "small-int"),
        7 => (Arr::from_fn(n, n, |_, _| if r.chance(0.5) { 0.0 } else { r.range(-5, 5) as f32 }), "sparse-int"),
        8 => {
            // zero leading diagonal entries
            let mut a = Arr::from_fn(n, n, |_, _| r.uni(-4.0, 4.0) as f32);
            for i in 0..n {
                if r.chance(0.6) {
                    a.d[i][i] = 0.0;
                }
            }
            (a, "zero-diagonal")
        }
        9 => (Arr::from_fn(n, n, |_, _| -(r.uni(0.1, 5.0) as f32)), "all-negative"),
        10 => {
            // permuted block structure: two independent swaps for n = 4
            let p = perm(r, n);
            let a = Arr::from_fn(n, n, |i, j| if p[i] == j { (r.sign() * r.uni(1.0, 5.0)) as f32 } else { r.uni(-0.3, 0.3) as f32 });
            (a, "dominant-permutation")
        }
        _ => (Arr::from_fn(n, n, |_, _| r.uni(-5.0, 5.0) as f32), "dense"),
    }
}
