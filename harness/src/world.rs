//! The whole public API as a table of operations over a pool of objects, so that arbitrary call
//! histories can be generated, replayed and monitored. All state is observed through public getters.
#![allow(dead_code)]
use crate::api::*;
use crate::core::{mix, Rng};
use crate::gen;
use dsp::complex::Complex;
use linalg::linalg::{eigen, lup, solve};
use open_ahrs::accelerometer::{Accelerometer, AccelerometerConfig};
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::NumericalIntegrationMethod as NIM;
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::{Gyrometer, GyrometerConfig};
use open_ahrs::magnetometer::{Magnetometer, MagnetometerConfig};
use std::mem::take;

pub const NM: usize = 6;
pub const NV: usize = 6;
pub const NU: usize = 3;
pub const NS: usize = 2;
pub const NZ: usize = 3;

pub struct World {
    pub m: Vec<Matrix>,
    pub v: Vec<Vector<f32>>,
    pub u: Vec<Vector<u8>>,
    pub gyr: Vec<Gyrometer>,
    pub acc: Vec<Accelerometer>,
    pub mag: Vec<Magnetometer>,
    pub ar: Vec<AR>,
    pub aq: Vec<Aqua>,
    pub dav: Vec<Davenport>,
    pub z: Vec<Complex>,
}

#[derive(Clone, Debug)]
pub struct Args {
    /// Object selectors (reduced modulo the pool size; a, b, c are pairwise distinct).
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub d: usize,
    pub x: u8,
    pub y: u8,
    pub n: u16,
    pub k: i8,
    pub flag: u64,
    pub s: [f32; 12],
}

pub type Out = Result<u64, String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// Any argument at all.
    Wild,
    /// Finite values over the whole range.
    Finite,
    /// Moderate values, mostly valid indices.
    Tame,
}

fn nan_u(x: f32) -> u64 {
    if x.is_nan() {
        0x7fc0_0000
    } else {
        x.to_bits() as u64
    }
}

pub trait Dig {
    fn dig(&self) -> u64;
}
impl Dig for () {
    fn dig(&self) -> u64 {
        1
    }
}
impl Dig for bool {
    fn dig(&self) -> u64 {
        2 + *self as u64
    }
}
impl Dig for u8 {
    fn dig(&self) -> u64 {
        100 + *self as u64
    }
}
impl Dig for u64 {
    fn dig(&self) -> u64 {
        mix(*self)
    }
}
impl Dig for f32 {
    fn dig(&self) -> u64 {
        nan_u(*self) ^ (1 << 40)
    }
}
impl Dig for (f32, f32, f32) {
    fn dig(&self) -> u64 {
        mix(nan_u(self.0)) ^ mix(nan_u(self.1) + 7).rotate_left(9) ^ mix(nan_u(self.2) + 11).rotate_left(23)
    }
}
impl Dig for Matrix {
    fn dig(&self) -> u64 {
        snap_m(self).iter().fold(3, |h, x| mix(h ^ x))
    }
}
impl Dig for Vector<f32> {
    fn dig(&self) -> u64 {
        snap_v(self).iter().fold(5, |h, x| mix(h ^ x))
    }
}
impl Dig for Vector<u8> {
    fn dig(&self) -> u64 {
        snap_u(self).iter().fold(7, |h, x| mix(h ^ x))
    }
}

fn o<T: Dig, E: core::fmt::Debug>(r: Result<T, E>) -> Out {
    match r {
        Ok(v) => Ok(v.dig()),
        Err(e) => Err(format!("{e:?}")),
    }
}

pub fn snap_m(m: &Matrix) -> Vec<u64> {
    let mut s = vec![m.is_initialized() as u64];
    match (m.get_rows(), m.get_cols()) {
        (Ok(r), Ok(c)) => {
            s.push(r as u64);
            s.push(c as u64);
            for i in 0..r {
                for j in 0..c {
                    s.push(match m.get_element(i, j) {
                        Ok(x) => nan_u(x),
                        Err(_) => u64::MAX,
                    });
                }
            }
        }
        _ => s.push(u64::MAX),
    }
    s
}
pub fn snap_v(m: &Vector<f32>) -> Vec<u64> {
    let mut s = vec![m.is_initialized() as u64];
    match m.get_rows() {
        Ok(r) => {
            s.push(r as u64);
            for i in 0..r {
                s.push(match m.get_element(i) {
                    Ok(x) => nan_u(x),
                    Err(_) => u64::MAX,
                });
            }
        }
        _ => s.push(u64::MAX),
    }
    s
}
pub fn snap_u(m: &Vector<u8>) -> Vec<u64> {
    let mut s = vec![m.is_initialized() as u64];
    match m.get_rows() {
        Ok(r) => {
            s.push(r as u64);
            for i in 0..r {
                s.push(m.get_element(i).map(|x| x as u64).unwrap_or(u64::MAX));
            }
        }
        _ => s.push(u64::MAX),
    }
    s
}

pub fn gcfg(s: &[f32; 12]) -> GyrometerConfig {
    GyrometerConfig {
        x_axis_scale_correction: s[0],
        y_axis_scale_correction: s[1],
        z_axis_scale_correction: s[2],
        xy_axes_misalignment_correction: s[3],
        xz_axes_misalignment_correction: s[4],
        yx_axes_misalignment_correction: s[5],
        yz_axes_misalignment_correction: s[6],
        zx_axes_misalignment_correction: s[7],
        zy_axes_misalignment_correction: s[8],
        x_axis_static_bias: s[9],
        y_axis_static_bias: s[10],
        z_axis_static_bias: s[11],
    }
}
pub fn acfg(s: &[f32; 12]) -> AccelerometerConfig {
    AccelerometerConfig {
        x_axis_scale_correction: s[0],
        y_axis_scale_correction: s[1],
        z_axis_scale_correction: s[2],
        xy_axes_misalignment_correction: s[3],
        xz_axes_misalignment_correction: s[4],
        yx_axes_misalignment_correction: s[5],
        yz_axes_misalignment_correction: s[6],
        zx_axes_misalignment_correction: s[7],
        zy_axes_misalignment_correction: s[8],
        x_axis_static_bias: s[9],
        y_axis_static_bias: s[10],
        z_axis_static_bias: s[11],
    }
}
pub fn mcfg(s: &[f32; 12]) -> MagnetometerConfig {
    MagnetometerConfig {
        x_axis_scale_correction: s[0],
        y_axis_scale_correction: s[1],
        z_axis_scale_correction: s[2],
        xy_soft_iron_correction: s[3],
        xz_soft_iron_correction: s[4],
        yx_soft_iron_correction: s[5],
        yz_soft_iron_correction: s[6],
        zx_soft_iron_correction: s[7],
        zy_soft_iron_correction: s[8],
        x_axis_hard_iron_bias: s[9],
        y_axis_hard_iron_bias: s[10],
        z_axis_hard_iron_bias: s[11],
    }
}
pub fn gcfg_arr(c: &GyrometerConfig) -> [f32; 12] {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction,
        c.xz_axes_misalignment_correction,
        c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction,
        c.zx_axes_misalignment_correction,
        c.zy_axes_misalignment_correction,
        c.x_axis_static_bias,
        c.y_axis_static_bias,
        c.z_axis_static_bias,
    ]
}
pub fn acfg_arr(c: &AccelerometerConfig) -> [f32; 12] {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction,
        c.xz_axes_misalignment_correction,
        c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction,
        c.zx_axes_misalignment_correction,
        c.zy_axes_misalignment_correction,
        c.x_axis_static_bias,
        c.y_axis_static_bias,
        c.z_axis_static_bias,
    ]
}
pub fn mcfg_arr(c: &MagnetometerConfig) -> [f32; 12] {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_soft_iron_correction,
        c.xz_soft_iron_correction,
        c.yx_soft_iron_correction,
        c.yz_soft_iron_correction,
        c.zx_soft_iron_correction,
        c.zy_soft_iron_correction,
        c.x_axis_hard_iron_bias,
        c.y_axis_hard_iron_bias,
        c.z_axis_hard_iron_bias,
    ]
}

impl Dig for GyrometerConfig {
    fn dig(&self) -> u64 {
        gcfg_arr(self).iter().fold(11, |h, x| mix(h ^ nan_u(*x)))
    }
}
impl Dig for AccelerometerConfig {
    fn dig(&self) -> u64 {
        acfg_arr(self).iter().fold(13, |h, x| mix(h ^ nan_u(*x)))
    }
}
impl Dig for MagnetometerConfig {
    fn dig(&self) -> u64 {
        mcfg_arr(self).iter().fold(17, |h, x| mix(h ^ nan_u(*x)))
    }
}

/// Default calibration with a chance of small perturbation.
pub fn near_default(s: &[f32; 12], flag: u64) -> [f32; 12] {
    let mut c = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
    if flag & 1 == 1 {
        return *s;
    }
    if flag & 2 == 2 {
        for i in 0..12 {
            let t = (s[i] / 64.0) % 0.1;
            if t.is_finite() {
                c[i] += t;
            }
        }
    }
    c
}

fn method(f: u64) -> NIM {
    match f % 8 {
        0 | 1 => NIM::ClosedForm,
        2 | 3 | 4 => NIM::TaylorSeries,
        5 => NIM::Euler,
        6 => NIM::AdamsBashforth,
        _ => NIM::RungeKutta,
    }
}

fn opt(f: u64, bit: u32, v: f32) -> Option<f32> {
    if (f >> bit) & 1 == 1 {
        Some(v)
    } else {
        None
    }
}

pub struct Op {
    pub name: &'static str,
    pub f: fn(&mut World, &Args) -> Out,
    /// Result ignored when comparing build configurations.
    pub std_only: bool,
    /// Scalar arguments that the operation is asked to store or combine (for the rejection monitor).
    pub scalars: usize,
}

macro_rules! ops {
    ($( $name:literal $(@$sc:literal)? => |$w:ident, $a:ident| $body:expr ),* $(,)?) => {
        &[ $( Op { name: $name, f: { #[allow(unused_variables)] fn f($w: &mut World, $a: &Args) -> Out { $body } f }, std_only: false, scalars: 0 $(+ $sc)? } ),* ]
    };
}

/// mutate m[a] (self) with access to the rest of the world
macro_rules! sm {
    ($w:ident, $a:ident, |$t:ident| $e:expr) => {{
        let mut $t = take(&mut $w.m[$a.a]);
        let r = $e;
        $w.m[$a.a] = $t;
        o(r)
    }};
}
macro_rules! sv {
    ($w:ident, $a:ident, |$t:ident| $e:expr) => {{
        let mut $t = take(&mut $w.v[$a.a]);
        let r = $e;
        $w.v[$a.a] = $t;
        o(r)
    }};
}
/// operation returning a new matrix / vector, stored in slot d
macro_rules! nm {
    ($w:ident, $a:ident, $e:expr) => {{
        match $e {
            Ok(m) => {
                let h = m.dig();
                let d = $a.d % NM;
                $w.m[d] = m;
                Ok(h)
            }
            Err(e) => Err(format!("{e:?}")),
        }
    }};
}
macro_rules! nv {
    ($w:ident, $a:ident, $e:expr) => {{
        match $e {
            Ok(m) => {
                let h = m.dig();
                let d = $a.d % NV;
                $w.v[d] = m;
                Ok(h)
            }
            Err(e) => Err(format!("{e:?}")),
        }
    }};
}
macro_rules! nmm {
    ($w:ident, $a:ident, $e:expr) => {{
        match $e {
            Ok((m, n)) => {
                let h = mix(m.dig()) ^ n.dig();
                let d = $a.d % NM;
                $w.m[d] = m;
                $w.m[(d + 1) % NM] = n;
                Ok(h)
            }
            Err(e) => Err(format!("{e:?}")),
        }
    }};
}

#[cfg(feature = "std")]
fn print_m(m: &Matrix) {
    let _ = m.print();
}
#[cfg(not(feature = "std"))]
fn print_m(_m: &Matrix) {}
#[cfg(feature = "std")]
fn print_v(m: &Vector<f32>) {
    let _ = m.print();
}
#[cfg(not(feature = "std"))]
fn print_v(_m: &Vector<f32>) {}
#[cfg(feature = "std")]
fn print_ar(m: &AR) {
    let _ = m.print_attitude();
}
#[cfg(not(feature = "std"))]
fn print_ar(_m: &AR) {}
#[cfg(feature = "std")]
fn rand_att(n: u8) {
    let _ = open_ahrs::common::generate_random_attitudes(n);
}
#[cfg(not(feature = "std"))]
fn rand_att(_n: u8) {}

pub static OPS: &[Op] = ops![
    // ---- matrices
    "m.new" => |w, a| { w.m[a.a] = Matrix::new(); Ok(0) },
    "m.default" => |w, a| { w.m[a.a] = Matrix::default(); Ok(0) },
    "m.init" => |w, a| o(w.m[a.a].init(a.x, a.y)),
    "m.reinit" => |w, a| o(w.m[a.a].reinit(a.x, a.y)),
    "m.get_rows" => |w, a| o(w.m[a.a].get_rows()),
    "m.get_cols" => |w, a| o(w.m[a.a].get_cols()),
    "m.set_element" @ 1 => |w, a| o(w.m[a.a].set_element(a.x, a.y, a.s[0])),
    "m.get_element" => |w, a| o(w.m[a.a].get_element(a.x, a.y)),
    "m.set_row" => |w, a| { let (m, v) = (&mut w.m, &w.v); o(m[a.a].set_row(&v[a.b % NV], a.x)) },
    "m.set_col" => |w, a| { let (m, v) = (&mut w.m, &w.v); o(m[a.a].set_col(&v[a.b % NV], a.x)) },
    "m.get_row" => |w, a| { let (m, v) = (&w.m, &mut w.v); o(m[a.a].get_row(&mut v[a.b % NV], a.x)) },
    "m.get_col" => |w, a| { let (m, v) = (&w.m, &mut w.v); o(m[a.a].get_col(&mut v[a.b % NV], a.x)) },
    "m.row_to_vector" => |w, a| nv!(w, a, w.m[a.a].row_to_vector(a.x)),
    "m.col_to_vector" => |w, a| nv!(w, a, w.m[a.a].col_to_vector(a.x)),
    "m.add_row" => |w, a| { let (m, v) = (&mut w.m, &w.v); o(m[a.a].add_row(&v[a.b % NV], a.x)) },
    "m.add_col" => |w, a| { let (m, v) = (&mut w.m, &w.v); o(m[a.a].add_col(&v[a.b % NV], a.x)) },
    "m.del_row" => |w, a| { let r = w.m[a.a].del_row(a.x); nv!(w, a, r) },
    "m.fill" @ 1 => |w, a| o(w.m[a.a].fill(a.s[0])),
    "m.is_same_size_as" => |w, a| o(w.m[a.a].is_same_size_as(&w.m[a.b])),
    "m.is_square" => |w, a| o(w.m[a.a].is_square()),
    "m.is_equal_to" => |w, a| o(w.m[a.a].is_equal_to(&w.m[a.b], a.s[0])),
    "m.fill_identity" => |w, a| o(w.m[a.a].fill_identity()),
    "m.copy_from" => |w, a| sm!(w, a, |t| t.copy_from(&w.m[a.b])),
    "m.duplicate" => |w, a| nm!(w, a, w.m[a.a].duplicate()),
    "m.add" => |w, a| sm!(w, a, |t| t.add(&w.m[a.b], &w.m[a.c])),
    "m.add_in_place" => |w, a| sm!(w, a, |t| t.add_in_place(&w.m[a.b])),
    "m.add_new" => |w, a| nm!(w, a, w.m[a.a].add_new(&w.m[a.b])),
    "m.add_scalar" @ 1 => |w, a| sm!(w, a, |t| t.add_scalar(&w.m[a.b], a.s[0])),
    "m.add_scalar_in_place" @ 1 => |w, a| o(w.m[a.a].add_scalar_in_place(a.s[0])),
    "m.add_scalar_new" => |w, a| nm!(w, a, w.m[a.a].add_scalar_new(a.s[0])),
    "m.sub" => |w, a| sm!(w, a, |t| t.sub(&w.m[a.b], &w.m[a.c])),
    "m.sub_in_place" => |w, a| sm!(w, a, |t| t.sub_in_place(&w.m[a.b])),
    "m.sub_new" => |w, a| nm!(w, a, w.m[a.a].sub_new(&w.m[a.b])),
    "m.sub_scalar" @ 1 => |w, a| sm!(w, a, |t| t.sub_scalar(&w.m[a.b], a.s[0])),
    "m.sub_scalar_in_place" @ 1 => |w, a| o(w.m[a.a].sub_scalar_in_place(a.s[0])),
    "m.sub_scalar_new" => |w, a| nm!(w, a, w.m[a.a].sub_scalar_new(a.s[0])),
    "m.mul" => |w, a| sm!(w, a, |t| t.mul(&w.m[a.b], &w.m[a.c])),
    "m.mul_new" => |w, a| nm!(w, a, w.m[a.a].mul_new(&w.m[a.b])),
    "m.transpose" => |w, a| o(w.m[a.a].transpose()),
    "m.transpose_new" => |w, a| nm!(w, a, w.m[a.a].transpose_new()),
    "m.invert" => |w, a| o(w.m[a.a].invert()),
    "m.mul_by_scalar_in_place" @ 1 => |w, a| o(w.m[a.a].mul_by_scalar_in_place(a.s[0])),
    "m.power_elements" => |w, a| o(w.m[a.a].power_elements(a.s[0])),
    "m.trace" => |w, a| o(w.m[a.a].trace()),
    "m.lr" => |w, a| nmm!(w, a, w.m[a.a].lr()),
    "m.lu_crout" => |w, a| nmm!(w, a, w.m[a.a].lu_crout()),
    "m.qr_decomp" => |w, a| nmm!(w, a, w.m[a.a].qr_decomp()),
    "m.is_upper_triangular" => |w, a| o(w.m[a.a].is_upper_triangular()),
    "m.is_lower_triangular" => |w, a| o(w.m[a.a].is_lower_triangular()),
    "m.calculate_frobenius_norm" => |w, a| o(w.m[a.a].calculate_frobenius_norm()),
    "m.det" => |w, a| o(w.m[a.a].det()),
    "m.det_naive" => |w, a| o(w.m[a.a].det_naive()),
    "m.is_symmetric" => |w, a| o(w.m[a.a].is_symmetric()),
    "m.is_positive_definite" => |w, a| o(w.m[a.a].is_positive_definite()),
    "m.chol" => |w, a| nm!(w, a, w.m[a.a].chol()),
    "m.dlyap" => |w, a| nm!(w, a, w.m[a.a].dlyap(&w.m[a.b])),
    "m.is_orthogonal" => |w, a| o(w.m[a.a].is_orthogonal()),
    "m.is_so_n" => |w, a| o(w.m[a.a].is_so_n()),
    "m.diag" => |w, a| nv!(w, a, w.m[a.a].diag(if a.flag & 1 == 0 { None } else { Some(a.k) })),
    "m.log" => |w, a| nm!(w, a, w.m[a.a].log()),
    "m.log_in_place" => |w, a| o(w.m[a.a].log_in_place()),
    "m.adjugate_in_place" => |w, a| o(w.m[a.a].adjugate_in_place()),
    // ---- f32 vectors
    "v.new" => |w, a| { w.v[a.a] = Vector::new(); Ok(0) },
    "v.init" => |w, a| o(w.v[a.a].init(a.x)),
    "v.reinit" => |w, a| o(w.v[a.a].reinit(a.x)),
    "v.get_rows" => |w, a| o(w.v[a.a].get_rows()),
    "v.set_element" @ 1 => |w, a| o(w.v[a.a].set_element(a.x, a.s[0])),
    "v.get_element" => |w, a| o(w.v[a.a].get_element(a.x)),
    "v.fill" @ 1 => |w, a| o(w.v[a.a].fill(a.s[0])),
    "v.is_same_size_as" => |w, a| o(w.v[a.a].is_same_size_as(&w.v[a.b])),
    "v.is_equal_to" => |w, a| o(w.v[a.a].is_equal_to(&w.v[a.b], a.s[0])),
    "v.copy_from" => |w, a| sv!(w, a, |t| t.copy_from(&w.v[a.b])),
    "v.duplicate" => |w, a| nv!(w, a, w.v[a.a].duplicate()),
    "v.add" => |w, a| sv!(w, a, |t| t.add(&w.v[a.b], &w.v[a.c])),
    "v.add_in_place" => |w, a| sv!(w, a, |t| t.add_in_place(&w.v[a.b])),
    "v.add_new" => |w, a| nv!(w, a, w.v[a.a].add_new(&w.v[a.b])),
    "v.add_scalar" @ 1 => |w, a| sv!(w, a, |t| t.add_scalar(&w.v[a.b], a.s[0])),
    "v.add_scalar_in_place" @ 1 => |w, a| o(w.v[a.a].add_scalar_in_place(a.s[0])),
    "v.add_scalar_new" => |w, a| nv!(w, a, w.v[a.a].add_scalar_new(a.s[0])),
    "v.sub" => |w, a| sv!(w, a, |t| t.sub(&w.v[a.b], &w.v[a.c])),
    "v.sub_in_place" => |w, a| sv!(w, a, |t| t.sub_in_place(&w.v[a.b])),
    "v.sub_new" => |w, a| nv!(w, a, w.v[a.a].sub_new(&w.v[a.b])),
    "v.sub_scalar" @ 1 => |w, a| sv!(w, a, |t| t.sub_scalar(&w.v[a.b], a.s[0])),
    "v.sub_scalar_in_place" @ 1 => |w, a| o(w.v[a.a].sub_scalar_in_place(a.s[0])),
    "v.sub_scalar_new" => |w, a| nv!(w, a, w.v[a.a].sub_scalar_new(a.s[0])),
    "v.calculate_norm" => |w, a| o(w.v[a.a].calculate_norm()),
    "v.normalize" => |w, a| o(w.v[a.a].normalize()),
    "v.mul_by_scalar" @ 1 => |w, a| sv!(w, a, |t| t.mul_by_scalar(&w.v[a.b], a.s[0])),
    "v.mul_by_scalar_in_place" @ 1 => |w, a| o(w.v[a.a].mul_by_scalar_in_place(a.s[0])),
    "v.mul_by_scalar_new" => |w, a| nv!(w, a, w.v[a.a].mul_by_scalar_new(a.s[0])),
    "v.dot_product" => |w, a| o(w.v[a.a].dot_product(&w.v[a.b])),
    "v.outer_product" => |w, a| nm!(w, a, w.v[a.a].outer_product(&w.v[a.b])),
    "v.slerp" => |w, a| sv!(w, a, |t| t.slerp(&w.v[a.b], &w.v[a.c], a.s[0])),
    "v.lerp" => |w, a| sv!(w, a, |t| t.lerp(&w.v[a.b], &w.v[a.c], a.s[0])),
    "v.power_elements" => |w, a| o(w.v[a.a].power_elements(a.s[0])),
    "v.convert_to_matrix" => |w, a| nm!(w, a, w.v[a.a].convert_to_matrix()),
    // ---- u8 vectors
    "u.new" => |w, a| { w.u[a.a % NU] = Vector::new(); Ok(0) },
    "u.init" => |w, a| o(w.u[a.a % NU].init(a.x)),
    "u.reinit" => |w, a| o(w.u[a.a % NU].reinit(a.x)),
    "u.get_rows" => |w, a| o(w.u[a.a % NU].get_rows()),
    "u.set_element" => |w, a| o(w.u[a.a % NU].set_element(a.x, a.y)),
    "u.get_element" => |w, a| o(w.u[a.a % NU].get_element(a.x)),
    // ---- free linear algebra
    "lup" => |w, a| match lup(&w.m[a.a]) {
        Ok((m, p)) => { let h = mix(m.dig()) ^ p.dig(); w.m[a.d % NM] = m; w.u[a.b % NU] = p; Ok(h) }
        Err(e) => Err(format!("{e:?}")),
    },
    "solve" => |w, a| nv!(w, a, solve(&w.m[a.a], &w.v[a.b % NV], &w.u[a.c % NU])),
    "eigen" => |w, a| match eigen(&w.m[a.a], a.n, a.flag & 3 == 3) {
        Ok((v, m)) => { let h = mix(m.dig()) ^ v.dig(); w.m[a.d % NM] = m; w.v[a.d % NV] = v; Ok(h) }
        Err(e) => Err(format!("{e:?}")),
    },
    // ---- quaternions
    "q.is_quaternion" => |w, a| o(w.v[a.a].is_quaternion()),
    "q.is_real" => |w, a| o(w.v[a.a].is_real()),
    "q.is_pure" => |w, a| o(w.v[a.a].is_pure()),
    "q.is_versor" => |w, a| o(w.v[a.a].is_versor()),
    "q.is_identity" => |w, a| o(w.v[a.a].is_identity()),
    "q.set_qw" @ 1 => |w, a| o(w.v[a.a].set_qw(a.s[0])),
    "q.get_qw" => |w, a| o(w.v[a.a].get_qw()),
    "q.set_qx" @ 1 => |w, a| o(w.v[a.a].set_qx(a.s[0])),
    "q.get_qx" => |w, a| o(w.v[a.a].get_qx()),
    "q.set_qy" @ 1 => |w, a| o(w.v[a.a].set_qy(a.s[0])),
    "q.get_qy" => |w, a| o(w.v[a.a].get_qy()),
    "q.set_qz" @ 1 => |w, a| o(w.v[a.a].set_qz(a.s[0])),
    "q.get_qz" => |w, a| o(w.v[a.a].get_qz()),
    "q.get_vector_part" => |w, a| nv!(w, a, w.v[a.a].get_vector_part()),
    "q.fillq" @ 4 => |w, a| o(w.v[a.a].fillq(a.s[0], a.s[1], a.s[2], a.s[3])),
    "q.fill_identity" => |w, a| o(Quaternion::fill_identity(&mut w.v[a.a])),
    "q.conjugate" => |w, a| o(w.v[a.a].conjugate()),
    "q.conjugate_new" => |w, a| nv!(w, a, w.v[a.a].conjugate_new()),
    "q.mul" => |w, a| sv!(w, a, |t| Quaternion::mul(&mut t, &w.v[a.b], &w.v[a.c])),
    "q.mul_new" => |w, a| nv!(w, a, Quaternion::mul_new(&w.v[a.a], &w.v[a.b])),
    "q.invert" => |w, a| o(Quaternion::invert(&mut w.v[a.a])),
    "q.convert_to_dcm" => |w, a| nm!(w, a, w.v[a.a].convert_to_dcm()),
    "q.exp" => |w, a| o(w.v[a.a].exp()),
    "q.exp_new" => |w, a| nv!(w, a, w.v[a.a].exp_new()),
    "q.rotate" => |w, a| nv!(w, a, w.v[a.a].rotate(&w.v[a.b])),
    "q.rotate_in_place" => |w, a| sv!(w, a, |t| w.v[a.b].rotate_in_place(&mut t)),
    "q.hughes" => |w, a| { let (m, v) = (&w.m, &mut w.v); o(v[a.a].hughes(&m[a.b])) },
    "q.chiaverini" => |w, a| { let (m, v) = (&w.m, &mut w.v); o(v[a.a].chiaverini(&m[a.b])) },
    "q.sarabandi" => |w, a| { let (m, v) = (&w.m, &mut w.v); o(v[a.a].sarabandi(&m[a.b], opt(a.flag, 0, a.s[0]))) },
    "q.convert_to_euler" => |w, a| o(w.v[a.a].convert_to_euler()),
    // ---- sensors
    "gyr.new" => |w, a| match Gyrometer::new() { Ok(g) => { w.gyr[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "gyr.init" => |w, a| o(w.gyr[a.a % NS].init(&gcfg(&near_default(&a.s, a.flag)))),
    "gyr.set_config" => |w, a| o(w.gyr[a.a % NS].set_config(&gcfg(&near_default(&a.s, a.flag)))),
    "gyr.get_config" => |w, a| o(w.gyr[a.a % NS].get_config()),
    "gyr.update" => |w, a| o(w.gyr[a.a % NS].update(a.s[0], a.s[1], a.s[2])),
    "acc.new" => |w, a| match Accelerometer::new() { Ok(g) => { w.acc[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "acc.init" => |w, a| o(w.acc[a.a % NS].init(&acfg(&near_default(&a.s, a.flag)))),
    "acc.set_config" => |w, a| o(w.acc[a.a % NS].set_config(&acfg(&near_default(&a.s, a.flag)))),
    "acc.get_config" => |w, a| o(w.acc[a.a % NS].get_config()),
    "acc.update" => |w, a| o(w.acc[a.a % NS].update(a.s[0], a.s[1], a.s[2])),
    "mag.new" => |w, a| match Magnetometer::new() { Ok(g) => { w.mag[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "mag.init" => |w, a| o(w.mag[a.a % NS].init(&mcfg(&near_default(&a.s, a.flag)))),
    "mag.set_config" => |w, a| o(w.mag[a.a % NS].set_config(&mcfg(&near_default(&a.s, a.flag)))),
    "mag.get_config" => |w, a| o(w.mag[a.a % NS].get_config()),
    "mag.update" => |w, a| o(w.mag[a.a % NS].update(a.s[0], a.s[1], a.s[2])),
    // ---- filters
    "ar.new" => |w, a| match AR::new() { Ok(g) => { w.ar[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "ar.init" => |w, a| o(w.ar[a.a % NS].init(a.s[0], a.s[1], a.s[2], a.s[3], &gcfg(&near_default(&a.s, a.flag)), a.s[4], method(a.flag >> 8), a.x)),
    "ar.update" => |w, a| o(w.ar[a.a % NS].update(a.s[0], a.s[1], a.s[2])),
    "ar.update#2" => |w, a| o(w.ar[a.a % NS].update(a.s[0] / 8.0, a.s[1] / 8.0, a.s[2] / 8.0)),
    "ar.get_attitude" => |w, a| nv!(w, a, w.ar[a.a % NS].get_attitude()),
    "aq.new" => |w, a| match Aqua::new() { Ok(g) => { w.aq[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "aq.init" => |w, a| {
        let f = a.flag;
        let mode = if f & 4 == 0 { Mode::MARG } else { Mode::AM };
        let q = if f & 0x30 == 0 { [None; 4] } else if f & 0x3c0 == 0 { [Some(a.s[0]), None, Some(a.s[2]), None] } else { [Some(a.s[0]), Some(a.s[1]), Some(a.s[2]), Some(a.s[3])] };
        let c = near_default(&a.s, f);
        let g = gcfg(&c);
        let gc = if f & 0x7000 == 0 { None } else { Some(&g) };
        let u = |i: u32, v: f32| if (f >> (20 + i)) & 3 == 0 { v } else { ((f >> (20 + i)) % 101) as f32 / 100.0 };
        o(w.aq[a.a % NS].init(mode, q[0], q[1], q[2], q[3], gc, &acfg(&c), &mcfg(&c), u(0, a.s[4]), f & 8 == 0, u(2, a.s[5]), u(4, a.s[6]), u(6, a.s[7]) / 4.0, u(8, a.s[8]) + 0.25, u(10, a.s[9]), u(12, a.s[10]), opt(f, 18, a.s[11]), opt(f, 19, a.s[9])))
    },
    "aq.set_acc" => |w, a| o(w.aq[a.a % NS].set_accelerometer_config(&acfg(&near_default(&a.s, a.flag)))),
    "aq.set_gyr" => |w, a| o(w.aq[a.a % NS].set_gyrometer_config(&gcfg(&near_default(&a.s, a.flag)))),
    "aq.set_mag" => |w, a| o(w.aq[a.a % NS].set_magnetometer_config(&mcfg(&near_default(&a.s, a.flag)))),
    "aq.get_acc" => |w, a| o(w.aq[a.a % NS].get_accelerometer_config()),
    "aq.get_gyr" => |w, a| o(w.aq[a.a % NS].get_gyrometer_config()),
    "aq.get_mag" => |w, a| o(w.aq[a.a % NS].get_magnetometer_config()),
    "aq.update" => |w, a| {
        let g = match a.flag % 16 { 0 => [None; 3], 1 => [Some(a.s[0]), None, Some(a.s[2])], _ => [Some(a.s[0]), Some(a.s[1]), Some(a.s[2])] };
        o(w.aq[a.a % NS].update(g[0], g[1], g[2], a.s[3], a.s[4], a.s[5], a.s[6], a.s[7], a.s[8]))
    },
    "aq.update#2" => |w, a| o(w.aq[a.a % NS].update(Some(a.s[0] / 16.0), Some(a.s[1] / 16.0), Some(a.s[2] / 16.0), a.s[3], a.s[4], a.s[5], a.s[6], a.s[7], a.s[8])),
    "aq.get_attitude" => |w, a| nv!(w, a, w.aq[a.a % NS].get_attitude()),
    "dav.new" => |w, a| match Davenport::new() { Ok(g) => { w.dav[a.a % NS] = g; Ok(0) } Err(e) => Err(format!("{e:?}")) },
    "dav.init" => |w, a| {
        let u = |i: u32, v: f32| if (a.flag >> (20 + i)) & 3 == 0 { v } else { ((a.flag >> (20 + i)) % 101) as f32 / 100.0 };
        o(w.dav[a.a % NS].init(u(0, a.s[0]), u(2, a.s[1]), opt(a.flag, 0, a.s[2]), opt(a.flag, 1, a.s[3])))
    },
    "dav.update" => |w, a| o(w.dav[a.a % NS].update(a.s[0], a.s[1], a.s[2], a.s[3], a.s[4], a.s[5])),
    // ---- complex numbers
    "z.new" => |w, a| match Complex::new(a.s[0], a.s[1]) { Ok(z) => { w.z[a.a % NZ] = z; Ok(zd(&z)) } Err(e) => Err(format!("{e:?}")) },
    "z.set_real_part" => |w, a| o(w.z[a.a % NZ].set_real_part(a.s[0])),
    "z.set_imaginary_part" => |w, a| o(w.z[a.a % NZ].set_imaginary_part(a.s[0])),
    "z.get" => |w, a| Ok(zd(&w.z[a.a % NZ])),
    "z.convert_from_polar" => |w, a| o(w.z[a.a % NZ].convert_from_polar(a.s[0], a.s[1])),
    "z.neg" => |w, a| o(w.z[a.a % NZ].neg()),
    "z.conjugate" => |w, a| o(w.z[a.a % NZ].conjugate()),
    "z.calculate_module" => |w, a| o(w.z[a.a % NZ].calculate_module()),
    "z.expo" => |w, a| o(w.z[a.a % NZ].expo()),
    "z.add" => |w, a| { let (p, q) = (w.z[a.b % NZ], w.z[a.c % NZ]); o(w.z[a.a % NZ].add(&p, &q)) },
    "z.sub" => |w, a| { let (p, q) = (w.z[a.b % NZ], w.z[a.c % NZ]); o(w.z[a.a % NZ].sub(&p, &q)) },
    "z.mul" => |w, a| { let (p, q) = (w.z[a.b % NZ], w.z[a.c % NZ]); o(w.z[a.a % NZ].mul(&p, &q)) },
    "z.div" => |w, a| { let (p, q) = (w.z[a.b % NZ], w.z[a.c % NZ]); o(w.z[a.a % NZ].div(&p, &q)) },
    "z.swap" => |w, a| { let (i, j) = (a.a % NZ, (a.a + 1) % NZ); let mut p = w.z[i]; let mut q = w.z[j]; let r = p.swap(&mut q); w.z[i] = p; w.z[j] = q; o(r) },
    // ---- scalar utilities
    "ut.is_valid_value" => |w, a| o(utils::utils::is_valid_value(a.s[0])),
    "ut.allclose" => |w, a| o(utils::utils::allclose(a.s[0], a.s[1], a.s[2])),
    "ut.in_range" => |w, a| Ok(utils::utils::in_range(a.s[0], a.s[1], a.s[2]) as u64),
    "ut.minf" => |w, a| Ok(utils::utils::minf(a.s[0], a.s[1]).dig()),
    "ut.maxf" => |w, a| Ok(utils::utils::maxf(a.s[0], a.s[1]).dig()),
    "ut.clip" => |w, a| Ok(utils::utils::clip(a.s[0], a.s[1], a.s[2]).dig()),
    "ut.minmax" => |w, a| Ok(utils::utils::min(a.x, a.y) as u64 * 256 + utils::utils::max(a.x, a.y) as u64),
    "ut.factorial" => |w, a| Ok(utils::utils::factorial(a.x % 21)),
    "ut.sign" => |w, a| { use utils::utils::Sign; Ok(a.s[0].sign().dig() ^ (a.s[1] as f64).sign().to_bits() ^ (a.k as i32).sign() as u64) },
    "lc.is_valid" => |w, a| { use linalg::common as c; Ok(c::is_valid_rows_number(a.x).is_ok() as u64 + 2 * c::is_valid_cols_number(a.y).is_ok() as u64 + 4 * c::is_valid_row(a.x, a.y).is_ok() as u64 + 8 * c::is_valid_col(a.x, a.y).is_ok() as u64) },
];

/// Operations that only exist with the standard-library feature; their effect is observed, not their output.
pub static STD_OPS: &[Op] = &[
    Op { name: "m.print", f: |w, a| { print_m(&w.m[a.a]); Ok(0) }, std_only: true, scalars: 0 },
    Op { name: "v.print", f: |w, a| { print_v(&w.v[a.a]); Ok(0) }, std_only: true, scalars: 0 },
    Op { name: "ar.print_attitude", f: |w, a| { print_ar(&w.ar[a.a % NS]); Ok(0) }, std_only: true, scalars: 0 },
    Op { name: "generate_random_attitudes", f: |_, a| { rand_att(a.x); Ok(0) }, std_only: true, scalars: 0 },
];

pub fn nops() -> usize {
    OPS.len() + STD_OPS.len()
}
pub fn op(i: usize) -> &'static Op {
    if i < OPS.len() {
        &OPS[i]
    } else {
        &STD_OPS[i - OPS.len()]
    }
}

pub fn zd(z: &Complex) -> u64 {
    mix(z.get_real_part().map(nan_u).unwrap_or(1)) ^ z.get_imaginary_part().map(nan_u).unwrap_or(2)
}

impl Args {
    pub fn gen(r: &mut Rng, st: Style) -> Args {
        let a = r.us(6);
        let b = (a + 1 + r.us(5)) % 6;
        let mut c = (a + 1 + r.us(5)) % 6;
        if c == b && r.bool() {
            c = (0..6).find(|k| *k != a && *k != b).unwrap();
        }
        let byte = |r: &mut Rng| -> u8 {
            if st == Style::Tame {
                match r.us(20) {
                    0 => r.us(256) as u8,
                    _ => r.us(5) as u8,
                }
            } else {
                match r.us(8) {
                    0 => *r.pick(&[0u8, 1, 4, 5, 127, 128, 254, 255, 64]),
                    1 => r.us(256) as u8,
                    _ => r.us(5) as u8,
                }
            }
        };
        let f: fn(&mut Rng) -> f32 = match st {
            Style::Wild => {
                if r.chance(0.25) {
                    gen::wild
                } else if r.chance(0.3) {
                    gen::any_finite
                } else {
                    gen::moderate
                }
            }
            Style::Finite => {
                if r.chance(0.5) {
                    gen::any_finite
                } else {
                    gen::moderate
                }
            }
            Style::Tame => gen::moderate,
        };
        let mut s = [0f32; 12];
        for v in s.iter_mut() {
            *v = f(r);
        }
        if r.chance(0.25) {
            s[0] = r.f() as f32; // valid interpolation parameters
        }
        let n = match r.us(400) {
            0 => 65535,
            1 => r.us(65536) as u16,
            2..=20 => 0,
            _ => r.us(40) as u16,
        };
        Args { a, b, c, d: r.us(6), x: byte(r), y: byte(r), n, k: if r.chance(0.6) { r.range(-4, 4) as i8 } else if r.bool() { *r.pick(&[-128i8, -127, -5, 5, 126, 127]) } else { r.us(256) as u8 as i8 }, flag: r.u64(), s }
    }
}

fn e2<T, E: core::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{what} failed: {x:?}"))
}

impl World {
    /// A world whose containers are in mixed states: uninitialised, freshly initialised or filled.
    pub fn gen(r: &mut Rng, st: Style) -> Result<World, String> {
        let f: fn(&mut Rng) -> f32 = match st {
            Style::Tame => gen::moderate,
            _ => {
                if r.chance(0.6) {
                    gen::moderate
                } else {
                    gen::any_finite
                }
            }
        };
        let mut w = World {
            m: (0..NM).map(|_| Matrix::new()).collect(),
            v: (0..NV).map(|_| Vector::new()).collect(),
            u: (0..NU).map(|_| Vector::new()).collect(),
            gyr: Vec::new(),
            acc: Vec::new(),
            mag: Vec::new(),
            ar: Vec::new(),
            aq: Vec::new(),
            dav: Vec::new(),
            z: Vec::new(),
        };
        let n0 = 1 + r.us(4);
        for i in 0..NM {
            if r.chance(0.15) {
                continue;
            }
            let (rr, cc) = if r.chance(0.5) { (n0, n0) } else if r.chance(0.5) { (3, 3) } else { gen::dims(r) };
            let a = if rr == cc && r.chance(0.6) { gen::square(r, rr).0 } else { gen::arr(r, rr, cc, f) };
            w.m[i] = mk(&a)?;
        }
        for i in 0..NV {
            if r.chance(0.15) {
                continue;
            }
            let n = if r.chance(0.5) { 4 } else if r.chance(0.5) { 3 } else { n0 };
            w.v[i] = if n == 4 && r.chance(0.4) { mkq(&q32(&gen::unit_q(r)))? } else { mkv(&gen::vecf(r, n, f))? };
        }
        for i in 0..NU {
            if r.chance(0.2) {
                continue;
            }
            let n = if r.chance(0.6) { n0 } else { 1 + r.us(4) };
            e2("u8 init", w.u[i].init(n as u8))?;
            let p = gen::perm(r, n);
            for k in 0..n {
                let v = if r.chance(0.9) { p[k] as u8 } else { r.us(256) as u8 };
                e2("u8 set", w.u[i].set_element(k as u8, v))?;
            }
        }
        for _ in 0..NS {
            w.gyr.push(e2("gyr new", Gyrometer::new())?);
            w.acc.push(e2("acc new", Accelerometer::new())?);
            w.mag.push(e2("mag new", Magnetometer::new())?);
            w.ar.push(e2("ar new", AR::new())?);
            w.aq.push(e2("aqua new", Aqua::new())?);
            w.dav.push(e2("davenport new", Davenport::new())?);
        }
        for _ in 0..NZ {
            let z = Complex::new(f(r), f(r)).map_err(|e| format!("Complex::new failed: {e:?}"))?;
            w.z.push(z);
        }
        Ok(w)
    }

    pub fn step(&mut self, i: usize, a: &Args) -> Out {
        (op(i).f)(self, a)
    }

    /// Everything observable, one entry per object.
    pub fn snapshot_containers(&self) -> Vec<Vec<u64>> {
        let mut s = Vec::with_capacity(NM + NV + NU);
        for m in &self.m {
            s.push(snap_m(m));
        }
        for v in &self.v {
            s.push(snap_v(v));
        }
        for u in &self.u {
            s.push(snap_u(u));
        }
        s
    }

    pub fn digest(&mut self) -> u64 {
        let mut h = 1u64;
        for s in self.snapshot_containers() {
            for x in s {
                h = mix(h ^ x);
            }
        }
        fn add<T: Dig, E: core::fmt::Debug>(h: &mut u64, r: Result<T, E>) {
            let d = match r {
                Ok(v) => v.dig(),
                Err(e) => crate::core::hash_str(&format!("{e:?}")),
            };
            *h = mix(*h ^ d);
        }
        for i in 0..NS {
            add(&mut h, self.gyr[i].get_config());
            add(&mut h, self.gyr[i].get_x_angular_rate());
            add(&mut h, self.gyr[i].get_y_angular_rate());
            add(&mut h, self.gyr[i].get_z_angular_rate());
            add(&mut h, self.acc[i].get_config());
            add(&mut h, self.acc[i].get_x_acceleration());
            add(&mut h, self.acc[i].get_y_acceleration());
            add(&mut h, self.acc[i].get_z_acceleration());
            add(&mut h, self.mag[i].get_config());
            add(&mut h, self.mag[i].get_x_magnetic_field());
            add(&mut h, self.mag[i].get_y_magnetic_field());
            add(&mut h, self.mag[i].get_z_magnetic_field());
            add(&mut h, self.ar[i].get_attitude());
            add(&mut h, self.aq[i].get_attitude());
            add(&mut h, self.aq[i].get_accelerometer_config());
            add(&mut h, self.aq[i].get_gyrometer_config());
            add(&mut h, self.aq[i].get_magnetometer_config());
        }
        for z in &self.z {
            h = mix(h ^ zd(z));
        }
        h
    }

    /// First non-finite value readable from a container, sensor or filter.
    pub fn non_finite(&mut self) -> Option<String> {
        for (i, m) in self.m.iter().enumerate() {
            if let (Ok(r), Ok(c)) = (m.get_rows(), m.get_cols()) {
                for k in 0..r {
                    for l in 0..c {
                        if let Ok(x) = m.get_element(k, l) {
                            if !x.is_finite() {
                                return Some(format!("matrix {i} element ({k},{l}) = {x}"));
                            }
                        }
                    }
                }
            }
        }
        for (i, m) in self.v.iter().enumerate() {
            if let Ok(r) = m.get_rows() {
                for k in 0..r {
                    if let Ok(x) = m.get_element(k) {
                        if !x.is_finite() {
                            return Some(format!("vector {i} element {k} = {x}"));
                        }
                    }
                }
            }
        }
        for i in 0..NS {
            let att = [("AR", self.ar[i].get_attitude()), ("Aqua", self.aq[i].get_attitude())];
            for (n, a) in att.iter() {
                if let Ok(q) = a {
                    for k in 0..4 {
                        if let Ok(x) = q.get_element(k) {
                            if !x.is_finite() {
                                return Some(format!("{n} attitude component {k} = {x}"));
                            }
                        }
                    }
                }
            }
            let vals = [
                self.gyr[i].get_x_angular_rate(),
                self.gyr[i].get_y_angular_rate(),
                self.gyr[i].get_z_angular_rate(),
                self.acc[i].get_x_acceleration(),
                self.acc[i].get_y_acceleration(),
                self.acc[i].get_z_acceleration(),
                self.mag[i].get_x_magnetic_field(),
                self.mag[i].get_y_magnetic_field(),
                self.mag[i].get_z_magnetic_field(),
            ];
            for (k, v) in vals.iter().enumerate() {
                if let Ok(x) = v {
                    if !x.is_finite() {
                        return Some(format!("sensor output {k} = {x}"));
                    }
                }
            }
            let cfgs = [
                self.gyr[i].get_config().map(|c| gcfg_arr(&c)).unwrap_or([0.0; 12]),
                self.acc[i].get_config().map(|c| acfg_arr(&c)).unwrap_or([0.0; 12]),
                self.mag[i].get_config().map(|c| mcfg_arr(&c)).unwrap_or([0.0; 12]),
                self.aq[i].get_accelerometer_config().map(|c| acfg_arr(&c)).unwrap_or([0.0; 12]),
                self.aq[i].get_gyrometer_config().map(|c| gcfg_arr(&c)).unwrap_or([0.0; 12]),
                self.aq[i].get_magnetometer_config().map(|c| mcfg_arr(&c)).unwrap_or([0.0; 12]),
            ];
            for (k, c) in cfgs.iter().enumerate() {
                for x in c {
                    if !x.is_finite() {
                        return Some(format!("calibration {k} coefficient = {x}"));
                    }
                }
            }
        }
        None
    }
}
