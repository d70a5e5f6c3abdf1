//! Thin adaptors between plain arrays and the library's containers. Every library failure is turned
//! into a message, so a broken basic operation surfaces as a violation and never as a harness panic.
#![allow(dead_code)]
use crate::refm::{M, Q4};
pub use linalg::common::LinalgError;
pub use linalg::matrix::Matrix;
pub use linalg::vector::Vector;
pub use quaternion::quaternion::Quaternion;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Arr {
    pub r: usize,
    pub c: usize,
    pub d: [[f32; 4]; 4],
}

impl Arr {
    pub fn zero(r: usize, c: usize) -> Arr {
        Arr { r, c, d: [[0.0; 4]; 4] }
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f32) -> Arr {
        let mut a = Arr::zero(r, c);
        for i in 0..r {
            for j in 0..c {
                a.d[i][j] = f(i, j);
            }
        }
        a
    }
    pub fn of(m: &M) -> Arr {
        Arr::from_fn(m.r, m.c, |i, j| m.a[i][j] as f32)
    }
    pub fn m64(&self) -> M {
        M::from_fn(self.r, self.c, |i, j| self.d[i][j] as f64)
    }
    /// Bitwise equality (so that -0.0 and 0.0 differ).
    pub fn same(&self, o: &Arr) -> bool {
        self.r == o.r && self.c == o.c && (0..self.r).all(|i| (0..self.c).all(|j| self.d[i][j].to_bits() == o.d[i][j].to_bits()))
    }
    /// Numeric equality (-0.0 equals 0.0).
    pub fn eq(&self, o: &Arr) -> bool {
        self.r == o.r && self.c == o.c && (0..self.r).all(|i| (0..self.c).all(|j| self.d[i][j] == o.d[i][j]))
    }
    pub fn finite(&self) -> bool {
        (0..self.r).all(|i| (0..self.c).all(|j| self.d[i][j].is_finite()))
    }
    pub fn hash(&self) -> u64 {
        let mut h = (self.r * 8 + self.c) as u64;
        for i in 0..self.r {
            for j in 0..self.c {
                h = crate::core::mix(h ^ self.d[i][j].to_bits() as u64);
            }
        }
        h
    }
    pub fn show(&self) -> String {
        let rows: Vec<String> = (0..self.r).map(|i| format!("{:?}", &self.d[i][..self.c])).collect();
        format!("{}x{}[{}]", self.r, self.c, rows.join(","))
    }
}

pub fn e<T, E: core::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{what} unexpectedly failed: {x:?}"))
}

pub fn mk(a: &Arr) -> Result<Matrix, String> {
    let mut m = Matrix::new();
    e("matrix init", m.init(a.r as u8, a.c as u8))?;
    for i in 0..a.r {
        for j in 0..a.c {
            e("matrix set_element", m.set_element(i as u8, j as u8, a.d[i][j]))?;
        }
    }
    Ok(m)
}

pub fn rd(m: &Matrix) -> Result<Arr, String> {
    let r = e("matrix get_rows", m.get_rows())? as usize;
    let c = e("matrix get_cols", m.get_cols())? as usize;
    if r == 0 || c == 0 || r > 4 || c > 4 {
        return Err(format!("matrix reports impossible dimensions {r}x{c}"));
    }
    let mut a = Arr::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            a.d[i][j] = e("matrix get_element", m.get_element(i as u8, j as u8))?;
        }
    }
    Ok(a)
}

pub fn mkv(v: &[f32]) -> Result<Vector<f32>, String> {
    let mut m: Vector<f32> = Vector::new();
    e("vector init", m.init(v.len() as u8))?;
    for (i, x) in v.iter().enumerate() {
        e("vector set_element", m.set_element(i as u8, *x))?;
    }
    Ok(m)
}

pub fn rdv(m: &Vector<f32>) -> Result<Vec<f32>, String> {
    let r = e("vector get_rows", m.get_rows())? as usize;
    if r == 0 || r > 4 {
        return Err(format!("vector reports impossible dimension {r}"));
    }
    (0..r).map(|i| e("vector get_element", m.get_element(i as u8))).collect()
}

pub fn mkq(q: &[f32; 4]) -> Result<Vector<f32>, String> {
    mkv(q)
}

pub fn rdq(m: &Vector<f32>) -> Result<[f32; 4], String> {
    let v = rdv(m)?;
    if v.len() != 4 {
        return Err(format!("quaternion has {} components", v.len()));
    }
    Ok([v[0], v[1], v[2], v[3]])
}

pub fn q64(q: &[f32; 4]) -> Q4 {
    [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]
}
pub fn q32(q: &Q4) -> [f32; 4] {
    [q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32]
}

pub fn same_v(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
pub fn eq_v(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
