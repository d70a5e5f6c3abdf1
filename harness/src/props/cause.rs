//! C35: a call refused for one reason returns the error documented for that reason.
use crate::api::*;
use crate::core::*;
use crate::gen;
use crate::world::{acfg, gcfg, mcfg};
use linalg::linalg::{eigen, lup, solve};
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use open_ahrs::accelerometer::Accelerometer;
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as NIM, OpenAHRSError as OE};
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::Gyrometer;
use open_ahrs::magnetometer::Magnetometer;
use quaternion::quaternion::Quaternion;
use utils::utils::UtilsError;
use LinalgError as LE;

fn want<T, E: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, got: Result<T, E>, cause: E) -> Res {
    c.hit(what);
    let got = got.map(|_| ());
    let ok = matches!(&got, Err(x) if *x == cause);
    c.check(ok, || format!("{what}: got {got:?}, expected {cause:?}"))
}

fn nonfinite(r: &mut Rng) -> (f32, LE) {
    if r.bool() {
        (f32::NAN, LE::UtilsError(UtilsError::Nan))
    } else {
        (if r.bool() { f32::INFINITY } else { f32::NEG_INFINITY }, LE::UtilsError(UtilsError::Inf))
    }
}

/// An index at or beyond `n`.
fn beyond(r: &mut Rng, n: usize) -> u8 {
    if r.bool() {
        n as u8
    } else {
        r.range(n as i64, 255) as u8
    }
}

/// A length 1..4 other than `n`.
fn other(r: &mut Rng, n: usize) -> usize {
    let k = 1 + r.us(3);
    if k >= n {
        k + 1
    } else {
        k
    }
}

fn arr(r: &mut Rng, m: usize, n: usize) -> Result<Matrix, String> {
    mk(&gen::arr(r, m, n, gen::moderate))
}

fn vect(r: &mut Rng, n: usize) -> Result<Vector<f32>, String> {
    mkv(&gen::vecf(r, n, gen::moderate))
}

fn index_and_size(c: &mut Case) -> Res {
    let (m, n) = gen::dims(&mut c.rng);
    c.seen((m * 4 + n) as u64 ^ c.rng.clone().u64());
    let mut a = arr(&mut c.rng, m, n)?;
    let (i, j) = (c.rng.us(m) as u8, c.rng.us(n) as u8);
    let (bi, bj) = (beyond(&mut c.rng, m), beyond(&mut c.rng, n));
    let (mut rv, mut cv) = (vect(&mut c.rng, n)?, vect(&mut c.rng, m)?);
    let (on, om) = (other(&mut c.rng, n), other(&mut c.rng, m));
    let (mut xr, mut xc) = (vect(&mut c.rng, on)?, vect(&mut c.rng, om)?);
    want(c, "get_element row", a.get_element(bi, j), LE::InvalidRow)?;
    want(c, "get_element column", a.get_element(i, bj), LE::InvalidCol)?;
    want(c, "set_element row", a.set_element(bi, j, 1.0), LE::InvalidRow)?;
    want(c, "set_element column", a.set_element(i, bj, 1.0), LE::InvalidCol)?;
    want(c, "set_row index", a.set_row(&rv, bi), LE::InvalidRow)?;
    want(c, "set_col index", a.set_col(&cv, bj), LE::InvalidCol)?;
    want(c, "get_row index", a.get_row(&mut rv, bi), LE::InvalidRow)?;
    want(c, "get_col index", a.get_col(&mut cv, bj), LE::InvalidCol)?;
    want(c, "row_to_vector index", a.row_to_vector(bi), LE::InvalidRow)?;
    want(c, "col_to_vector index", a.col_to_vector(bj), LE::InvalidCol)?;
    want(c, "set_row size", a.set_row(&xr, i), LE::InvalidSize)?;
    want(c, "set_col size", a.set_col(&xc, j), LE::InvalidSize)?;
    want(c, "get_row size", a.get_row(&mut xr, i), LE::InvalidSize)?;
    want(c, "get_col size", a.get_col(&mut xc, j), LE::InvalidSize)?;
    if m < 4 {
        let b = beyond(&mut c.rng, m + 1);
        want(c, "add_row index", a.add_row(&rv, b), LE::InvalidRow)?;
        want(c, "add_row size", a.add_row(&xr, i), LE::InvalidSize)?;
    } else {
        want(c, "add_row full", a.add_row(&rv, i), LE::RowsNumberOverflow)?;
    }
    if n < 4 {
        let b = beyond(&mut c.rng, n + 1);
        want(c, "add_col index", a.add_col(&cv, b), LE::InvalidCol)?;
        want(c, "add_col size", a.add_col(&xc, j), LE::InvalidSize)?;
    } else {
        want(c, "add_col full", a.add_col(&cv, j), LE::ColsNumberOverflow)?;
    }
    if m > 1 {
        want(c, "del_row index", a.del_row(bi), LE::InvalidRow)?;
    } else {
        want(c, "del_row last", a.del_row(0), LE::RowsNumberNull)?;
    }
    let d = if c.rng.bool() { c.rng.range(n as i64, 100) } else { -c.rng.range(m as i64, 100) } as i8;
    want(c, "diag offset", a.diag(Some(d)), LE::InvalidDiagonalLength)?;
    want(c, "vector get_element", rv.get_element(bj), LE::InvalidRow)?;
    want(c, "vector set_element", rv.set_element(bj, 0.5), LE::InvalidRow)?;
    // lifecycle
    want(c, "init twice", a.init(2, 2), LE::AlreadyInit)?;
    want(c, "vector init twice", rv.init(2), LE::AlreadyInit)?;
    let big = c.rng.range(5, 255) as u8;
    want(c, "reinit rows overflow", a.reinit(big, 2), LE::RowsNumberOverflow)?;
    want(c, "reinit columns overflow", a.reinit(2, big), LE::ColsNumberOverflow)?;
    want(c, "reinit rows null", a.reinit(0, 2), LE::RowsNumberNull)?;
    want(c, "reinit columns null", a.reinit(2, 0), LE::ColsNumberNull)?;
    want(c, "vector reinit overflow", rv.reinit(big), LE::RowsNumberOverflow)?;
    want(c, "vector reinit null", rv.reinit(0), LE::RowsNumberNull)?;
    let (mut e1, mut e2) = (Matrix::new(), Vector::<f32>::new());
    want(c, "uninitialised matrix", e1.get_element(0, 0), LE::NotInit)?;
    want(c, "uninitialised matrix rows", e1.get_rows(), LE::NotInit)?;
    want(c, "uninitialised matrix columns", e1.get_cols(), LE::NotInit)?;
    want(c, "uninitialised matrix store", e1.set_element(0, 0, 1.0), LE::NotInit)?;
    want(c, "uninitialised matrix fill", e1.fill(1.0), LE::NotInit)?;
    want(c, "uninitialised matrix reinit", e1.reinit(2, 2), LE::NotInit)?;
    want(c, "uninitialised matrix sum", a.add_in_place(&e1), LE::NotInit)?;
    want(c, "uninitialised vector", e2.get_element(0), LE::NotInit)?;
    want(c, "uninitialised vector rows", e2.get_rows(), LE::NotInit)?;
    want(c, "uninitialised vector store", e2.set_element(0, 1.0), LE::NotInit)?;
    want(c, "uninitialised vector fill", e2.fill(1.0), LE::NotInit)?;
    want(c, "uninitialised vector reinit", e2.reinit(2), LE::NotInit)?;
    want(c, "uninitialised vector sum", rv.add_in_place(&e2), LE::NotInit)?;
    // values
    let (x, cause) = nonfinite(&mut c.rng);
    match c.rng.us(6) {
        0 => want(c, "set_element value", a.set_element(i, j, x), cause),
        1 => want(c, "fill value", a.fill(x), cause),
        2 => want(c, "vector set_element value", rv.set_element(j, x), cause),
        3 => want(c, "vector fill value", rv.fill(x), cause),
        4 => {
            let mut q = vect(&mut c.rng, 4)?;
            let mut k = [0.5f32; 4];
            k[c.rng.us(4)] = x;
            want(c, "fillq value", q.fillq(k[0], k[1], k[2], k[3]), cause)
        }
        _ => {
            let mut q = vect(&mut c.rng, 4)?;
            let r = match c.rng.us(4) {
                0 => q.set_qw(x),
                1 => q.set_qx(x),
                2 => q.set_qy(x),
                _ => q.set_qz(x),
            };
            want(c, "quaternion component value", r, cause)
        }
    }
}

fn operands(c: &mut Case) -> Res {
    let (m, n) = gen::dims(&mut c.rng);
    let (k, l) = loop {
        let (k, l) = gen::dims(&mut c.rng);
        if (k, l) != (m, n) {
            break (k, l);
        }
    };
    c.seen((m * 64 + n * 16 + k * 4 + l) as u64 ^ c.rng.clone().u64());
    let (mut a, b) = (arr(&mut c.rng, m, n)?, arr(&mut c.rng, k, l)?);
    let a2 = arr(&mut c.rng, m, n)?;
    let swap = c.rng.bool();
    let (p, q) = if swap { (&b, &a2) } else { (&a2, &b) };
    want(c, "matrix add", a.add(p, q), LE::NotSameSize)?;
    want(c, "matrix add_in_place", a.add_in_place(&b), LE::NotSameSize)?;
    want(c, "matrix add_new", a.add_new(&b), LE::NotSameSize)?;
    want(c, "matrix add_scalar", a.add_scalar(&b, 1.0), LE::NotSameSize)?;
    want(c, "matrix sub", a.sub(p, q), LE::NotSameSize)?;
    want(c, "matrix sub_in_place", a.sub_in_place(&b), LE::NotSameSize)?;
    want(c, "matrix sub_new", a.sub_new(&b), LE::NotSameSize)?;
    want(c, "matrix sub_scalar", a.sub_scalar(&b, 1.0), LE::NotSameSize)?;
    want(c, "matrix copy_from", a.copy_from(&b), LE::NotSameSize)?;
    if n != k {
        want(c, "mul_new", a.mul_new(&b), LE::InvalidSize)?;
        let mut d = arr(&mut c.rng, m, l)?;
        want(c, "mul", d.mul(&a, &b), LE::InvalidSize)?;
    } else if m != l || m != k {
        // conformable operands, destination of another size
        let (dm, dn) = (other(&mut c.rng, m), l);
        let mut d = arr(&mut c.rng, dm, dn)?;
        want(c, "mul destination", d.mul(&a, &b), LE::InvalidSize)?;
    }
    // vectors
    let o = other(&mut c.rng, n);
    let (mut v, v2, w) = (vect(&mut c.rng, n)?, vect(&mut c.rng, n)?, vect(&mut c.rng, o)?);
    let (p, q) = if swap { (&w, &v2) } else { (&v2, &w) };
    want(c, "vector add", v.add(p, q), LE::NotSameSize)?;
    want(c, "vector add_in_place", v.add_in_place(&w), LE::NotSameSize)?;
    want(c, "vector add_new", v.add_new(&w), LE::NotSameSize)?;
    want(c, "vector add_scalar", v.add_scalar(&w, 1.0), LE::NotSameSize)?;
    want(c, "vector sub", v.sub(p, q), LE::NotSameSize)?;
    want(c, "vector sub_in_place", v.sub_in_place(&w), LE::NotSameSize)?;
    want(c, "vector sub_new", v.sub_new(&w), LE::NotSameSize)?;
    want(c, "vector sub_scalar", v.sub_scalar(&w, 1.0), LE::NotSameSize)?;
    want(c, "vector mul_by_scalar", v.mul_by_scalar(&w, 2.0), LE::NotSameSize)?;
    want(c, "vector copy_from", v.copy_from(&w), LE::NotSameSize)?;
    want(c, "dot_product", v.dot_product(&w), LE::NotSameSize)?;
    let t = c.rng.f() as f32;
    want(c, "lerp size", v.lerp(p, q, t), LE::NotSameSize)?;
    want(c, "slerp size", v.slerp(p, q, t), LE::NotSameSize)?;
    let bad = match c.rng.us(4) {
        0 => -c.rng.logu(1e-6, 1e6) as f32,
        1 => 1.0 + c.rng.logu(1e-6, 1e6) as f32,
        2 => f32::NAN,
        _ => (c.rng.sign() * f64::INFINITY) as f32,
    };
    let v3 = vect(&mut c.rng, n)?;
    want(c, "lerp alpha", v.lerp(&v2, &v3, bad), LE::InvalidAlpha)?;
    want(c, "slerp alpha", v.slerp(&v2, &v3, bad), LE::InvalidAlpha)?;
    // quaternion operations on vectors of another length
    let s = 1 + c.rng.us(3);
    let (mut y, q4) = (vect(&mut c.rng, s)?, vect(&mut c.rng, 4)?);
    want(c, "get_qw", y.get_qw(), LE::InvalidSize)?;
    want(c, "get_qx", y.get_qx(), LE::InvalidSize)?;
    want(c, "get_qy", y.get_qy(), LE::InvalidSize)?;
    want(c, "get_qz", y.get_qz(), LE::InvalidSize)?;
    want(c, "set_qw", y.set_qw(1.0), LE::InvalidSize)?;
    want(c, "set_qx", y.set_qx(1.0), LE::InvalidSize)?;
    want(c, "set_qy", y.set_qy(1.0), LE::InvalidSize)?;
    want(c, "set_qz", y.set_qz(1.0), LE::InvalidSize)?;
    want(c, "fillq", y.fillq(1.0, 0.0, 0.0, 0.0), LE::InvalidSize)?;
    want(c, "conjugate", y.conjugate(), LE::InvalidSize)?;
    want(c, "is_real", y.is_real(), LE::InvalidSize)?;
    want(c, "is_pure", y.is_pure(), LE::InvalidSize)?;
    want(c, "is_versor", y.is_versor(), LE::InvalidSize)?;
    want(c, "is_identity", y.is_identity(), LE::InvalidSize)?;
    want(c, "get_vector_part", y.get_vector_part(), LE::InvalidSize)?;
    want(c, "quaternion mul_new", Quaternion::mul_new(&q4, &y), LE::InvalidSize)?;
    want(c, "quaternion mul_new second", Quaternion::mul_new(&y, &q4), LE::InvalidSize)?;
    want(c, "quaternion mul", Quaternion::mul(&mut y, &q4, &q4), LE::InvalidSize)?;
    let mut p4 = vect(&mut c.rng, 4)?;
    want(c, "quaternion mul left", Quaternion::mul(&mut p4, &y, &q4), LE::InvalidSize)?;
    want(c, "quaternion mul right", Quaternion::mul(&mut p4, &q4, &y), LE::InvalidSize)?;
    want(c, "quaternion invert", Quaternion::invert(&mut y), LE::InvalidSize)?;
    want(c, "quaternion fill_identity", Quaternion::fill_identity(&mut y), LE::InvalidSize)?;
    want(c, "quaternion exp_new", y.exp_new(), LE::InvalidSize)?;
    want(c, "quaternion conjugate_new", y.conjugate_new(), LE::InvalidSize)?;
    let mut rot = Matrix::new();
    e("init", rot.init(3, 3))?;
    e("fill_identity", Matrix::fill_identity(&mut rot))?;
    want(c, "hughes destination", y.hughes(&rot), LE::InvalidSize)?;
    want(c, "chiaverini destination", y.chiaverini(&rot), LE::InvalidSize)?;
    want(c, "sarabandi destination", y.sarabandi(&rot, None), LE::InvalidSize)?;
    want(c, "quaternion exp", y.exp(), LE::InvalidSize)?;
    want(c, "convert_to_dcm", y.convert_to_dcm(), LE::InvalidSize)?;
    want(c, "convert_to_euler", y.convert_to_euler(), LE::InvalidSize)
}

fn uninitialised(c: &mut Case) -> Res {
    let (m, n) = gen::dims(&mut c.rng);
    c.seen((m * 4 + n) as u64 ^ c.rng.clone().u64());
    let (mut a, b, mut v, w) = (arr(&mut c.rng, m, n)?, arr(&mut c.rng, m, n)?, vect(&mut c.rng, n)?, vect(&mut c.rng, n)?);
    let (mut u, mut z, none) = (Matrix::new(), Vector::<f32>::new(), Vector::<u8>::new());
    let ni = || LE::NotInit;
    let s = c.rng.uni(-2.0, 2.0) as f32;
    macro_rules! all {
        ($($x:expr),* $(,)?) => { $( let r = $x.map(|_| ()); want(c, stringify!($x), r, ni())?; )* };
    }
    all!(
        u.add_row(&v, 0), u.add_col(&v, 0), u.del_row(0), u.is_same_size_as(&a), a.is_same_size_as(&u), u.is_square(), u.is_equal_to(&a, 0.1), a.is_equal_to(&u, 0.1),
        Matrix::fill_identity(&mut u), u.copy_from(&a), a.copy_from(&u), u.add(&a, &b), a.add(&u, &b), a.add(&b, &u), u.add_new(&a), a.add_new(&u), u.add_in_place(&a), a.add_in_place(&u),
        u.add_scalar(&a, s), a.add_scalar(&u, s), u.add_scalar_in_place(s), u.add_scalar_new(s), u.sub(&a, &b), a.sub(&u, &b), a.sub(&b, &u), u.sub_new(&a), a.sub_new(&u), u.sub_in_place(&a), a.sub_in_place(&u),
        u.sub_scalar(&a, s), a.sub_scalar(&u, s), u.sub_scalar_in_place(s), u.sub_scalar_new(s), u.mul(&a, &b), a.mul(&u, &b), a.mul(&b, &u), u.mul_new(&a), a.mul_new(&u), u.transpose(),
        Matrix::invert(&mut u), u.mul_by_scalar_in_place(s), u.power_elements(2.0), u.trace(), u.lr(), u.lu_crout(), u.is_upper_triangular(), u.is_lower_triangular(),
        u.calculate_frobenius_norm(), u.det(), u.det_naive(), u.is_symmetric(), u.is_positive_definite(), u.chol(), u.dlyap(&a), u.is_orthogonal(), u.is_so_n(), u.log(), u.log_in_place(),
        u.adjugate_in_place(), lup(&u), eigen(&u, 10, false), eigen(&u, 10, true), solve(&u, &v, &none),
        z.is_same_size_as(&v), v.is_same_size_as(&z), z.is_equal_to(&v, 0.1), v.is_equal_to(&z, 0.1), z.copy_from(&v), v.copy_from(&z), z.add(&v, &w), v.add(&z, &w), v.add(&w, &z), z.add_new(&v), v.add_new(&z),
        z.add_in_place(&v), v.add_in_place(&z), z.add_scalar(&v, s), v.add_scalar(&z, s), z.add_scalar_in_place(s), z.add_scalar_new(s), z.sub(&v, &w), v.sub(&z, &w), v.sub(&w, &z), z.sub_new(&v), v.sub_new(&z),
        z.sub_in_place(&v), v.sub_in_place(&z), z.sub_scalar(&v, s), v.sub_scalar(&z, s), z.sub_scalar_in_place(s), z.sub_scalar_new(s), z.calculate_norm(), z.normalize(), z.mul_by_scalar(&v, s), v.mul_by_scalar(&z, s),
        z.mul_by_scalar_in_place(s), z.mul_by_scalar_new(s), z.dot_product(&v), v.dot_product(&z), z.outer_product(&v), v.outer_product(&z), z.slerp(&v, &w, 0.5), v.slerp(&z, &w, 0.5), v.slerp(&w, &z, 0.5),
        z.lerp(&v, &w, 0.5), v.lerp(&z, &w, 0.5), v.lerp(&w, &z, 0.5), Vector::<f32>::power_elements(&mut z, 2.0), z.convert_to_matrix(),
    );
    let (mut p, q) = (vect(&mut c.rng, 4)?, vect(&mut c.rng, 4)?);
    all!(
        z.is_quaternion(), z.is_real(), z.is_pure(), z.is_versor(), z.is_identity(), z.get_qw(), z.get_qx(), z.get_qy(), z.get_qz(), z.set_qw(s), z.set_qx(s), z.set_qy(s), z.set_qz(s), z.get_vector_part(),
        z.fillq(1.0, 0.0, 0.0, 0.0), Quaternion::fill_identity(&mut z), z.conjugate(), Quaternion::mul(&mut z, &p, &q), Quaternion::mul(&mut p, &z, &q), Quaternion::mul(&mut p, &q, &z),
        Quaternion::mul_new(&z, &q), Quaternion::mul_new(&q, &z), Quaternion::invert(&mut z), z.convert_to_dcm(), z.exp(), z.convert_to_euler(),
    );
    #[cfg(feature = "std")]
    all!(u.print(), z.print());
    // a size that is no size
    let (mut f, mut g) = (Matrix::new(), Vector::<f32>::new());
    let big = c.rng.range(5, 255) as u8;
    let ok = 1 + c.rng.us(4) as u8;
    want(c, "init rows overflow", f.init(big, ok), LE::RowsNumberOverflow)?;
    want(c, "init columns overflow", f.init(ok, big), LE::ColsNumberOverflow)?;
    want(c, "init rows null", f.init(0, ok), LE::RowsNumberNull)?;
    want(c, "init columns null", f.init(ok, 0), LE::ColsNumberNull)?;
    want(c, "vector init overflow", g.init(big), LE::RowsNumberOverflow)?;
    want(c, "vector init null", g.init(0), LE::RowsNumberNull)
}

/// Results that cannot be represented name NaN or infinity.
fn values(c: &mut Case) -> Res {
    let (m, n) = gen::dims(&mut c.rng);
    c.seen((m * 4 + n) as u64 ^ c.rng.clone().u64());
    let (x, _) = nonfinite(&mut c.rng);
    let cause = || LE::UtilsError(if x.is_nan() { UtilsError::Nan } else { UtilsError::Inf });
    let (mut a, b, mut v, w) = (arr(&mut c.rng, m, n)?, arr(&mut c.rng, m, n)?, vect(&mut c.rng, n)?, vect(&mut c.rng, n)?);
    want(c, "matrix add_scalar by non-finite", a.add_scalar(&b, x), cause())?;
    want(c, "matrix add_scalar_in_place by non-finite", a.add_scalar_in_place(x), cause())?;
    want(c, "matrix add_scalar_new by non-finite", a.add_scalar_new(x), cause())?;
    want(c, "matrix sub_scalar by non-finite", a.sub_scalar(&b, x), cause())?;
    want(c, "matrix sub_scalar_in_place by non-finite", a.sub_scalar_in_place(x), cause())?;
    want(c, "matrix sub_scalar_new by non-finite", a.sub_scalar_new(x), cause())?;
    want(c, "vector add_scalar by non-finite", v.add_scalar(&w, x), cause())?;
    want(c, "vector add_scalar_in_place by non-finite", v.add_scalar_in_place(x), cause())?;
    want(c, "vector add_scalar_new by non-finite", v.add_scalar_new(x), cause())?;
    want(c, "vector sub_scalar by non-finite", v.sub_scalar(&w, x), cause())?;
    want(c, "vector sub_scalar_in_place by non-finite", v.sub_scalar_in_place(x), cause())?;
    want(c, "vector sub_scalar_new by non-finite", v.sub_scalar_new(x), cause())?;
    let inf = || LE::UtilsError(UtilsError::Inf);
    let h = mk(&Arr::from_fn(m, n, |_, _| 3e38 * if c.rng.bool() { 1.0 } else { -1.0 }))?;
    let hv: Vec<f32> = (0..n).map(|_| 3e38 * if c.rng.bool() { 1.0 } else { -1.0 }).collect();
    let h2 = e("duplicate", h.duplicate())?;
    let hv = mkv(&hv)?;
    let k = c.rng.sign() as f32 * c.rng.uni(1.5, 1e6) as f32;
    want(c, "matrix sum overflow", h.add_new(&h2), inf())?;
    want(c, "matrix sum overflow", a.add(&h, &h2), inf())?;
    want(c, "matrix sum overflow", e("duplicate", h.duplicate())?.add_in_place(&h2), inf())?;
    want(c, "matrix scaling overflow", e("duplicate", h.duplicate())?.mul_by_scalar_in_place(k), inf())?;
    want(c, "matrix power overflow", e("duplicate", h.duplicate())?.power_elements(2.0), inf())?;
    want(c, "vector sum overflow", hv.add_new(&hv), inf())?;
    want(c, "vector sum overflow", v.add(&hv, &hv), inf())?;
    want(c, "vector sum overflow", e("duplicate", hv.duplicate())?.add_in_place(&hv), inf())?;
    want(c, "vector scaling overflow", v.mul_by_scalar(&hv, k), inf())?;
    want(c, "vector scaling overflow", hv.mul_by_scalar_new(k), inf())?;
    want(c, "vector scaling overflow", e("duplicate", hv.duplicate())?.mul_by_scalar_in_place(k), inf())?;
    want(c, "vector power overflow", e("duplicate", hv.duplicate())?.power_elements(2.0), inf())?;
    let neg: Vec<f32> = (0..n).map(|_| -c.rng.uni(0.1, 10.0) as f32).collect();
    want(c, "root of negative elements", mkv(&neg)?.power_elements(0.5), LE::UtilsError(UtilsError::Nan))
}

fn shapes(c: &mut Case) -> Res {
    let (m, n) = loop {
        let (m, n) = gen::dims(&mut c.rng);
        if m != n {
            break (m, n);
        }
    };
    c.seen((m * 4 + n) as u64 ^ c.rng.clone().u64());
    let mut a = arr(&mut c.rng, m, n)?;
    want(c, "trace", a.trace(), LE::NotSquare)?;
    want(c, "det", a.det(), LE::NotSquare)?;
    want(c, "det_naive", a.det_naive(), LE::NotSquare)?;
    want(c, "invert", Matrix::invert(&mut a), LE::NotSquare)?;
    want(c, "lr", a.lr(), LE::NotSquare)?;
    want(c, "lu_crout", a.lu_crout(), LE::NotSquare)?;
    want(c, "fill_identity", Matrix::fill_identity(&mut a), LE::NotSquare)?;
    let shifted = c.rng.bool();
    want(c, "eigen", eigen(&a, 20, shifted), LE::NotSquare)?;
    want(c, "adjugate_in_place", a.adjugate_in_place(), LE::NotSquare)?;
    // square but outside the domain
    let n = 2 + c.rng.us(3);
    let big = 50.0f32;
    // strictly dominant diagonal: every leading minor is far from null
    let mut s = Arr::zero(n, n);
    for i in 0..n {
        for j in 0..i {
            let x = c.rng.uni(-5.0, 5.0) as f32;
            s.d[i][j] = x;
            s.d[j][i] = x;
        }
        s.d[i][i] = big + c.rng.uni(0.0, 20.0) as f32;
    }
    let id = mk(&s)?;
    let mut asym = s.clone();
    let (i, j) = (c.rng.us(n - 1), n - 1);
    asym.d[i][j] += c.rng.sign() as f32 * c.rng.logu(1e-3, 10.0) as f32;
    want(c, "chol not symmetric", mk(&asym)?.chol(), LE::NotSymetric)?;
    want(c, "is_positive_definite not symmetric", mk(&asym)?.is_positive_definite(), LE::NotSymetric)?;
    let mut indef = s.clone();
    let k = c.rng.us(n);
    indef.d[k][k] = -indef.d[k][k];
    want(c, "chol indefinite", mk(&indef)?.chol(), LE::NotPositiveDefinite)?;
    want(c, "dlyap not square", a.dlyap(&id), LE::NotSquare)?;
    want(c, "dlyap indefinite", id.dlyap(&mk(&indef)?), LE::NotPositiveDefinite)?;
    let k = other(&mut c.rng, n);
    let b = arr(&mut c.rng, k, k)?;
    want(c, "dlyap sizes", b.dlyap(&id), LE::NotSameSize)?;
    // singular: a null column (and row, so that no rounding is involved)
    let mut z = s.clone();
    let k = c.rng.us(n);
    for i in 0..n {
        z.d[i][k] = 0.0;
        z.d[k][i] = 0.0;
    }
    let mut zm = mk(&z)?;
    want(c, "invert singular", Matrix::invert(&mut zm), LE::NotInversible)?;
    if k < n - 1 {
        want(c, "lup singular", lup(&zm), LE::Singular)?;
        want(c, "det singular", zm.det(), LE::Singular)?;
        want(c, "lu_crout singular", zm.lu_crout(), LE::Singular)?;
    } else {
        let (lu, p) = e("lup", lup(&zm))?;
        let v = vect(&mut c.rng, n)?;
        want(c, "solve singular", solve(&lu, &v, &p), LE::Unsolvable)?;
    }
    let (lu, p) = e("lup", lup(&id))?;
    let o = other(&mut c.rng, n);
    let v = vect(&mut c.rng, o)?;
    want(c, "solve size", solve(&lu, &v, &p), LE::InvalidSize)?;
    let v = vect(&mut c.rng, 3)?;
    let r = arr(&mut c.rng, 3, 2)?;
    want(c, "solve not square", solve(&r, &v, &p), LE::NotSquare)
}

fn filters(c: &mut Case) -> Res {
    let k = [1.0f32, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
    let mut kb = k;
    let (x, _) = nonfinite(&mut c.rng);
    kb[c.rng.us(12)] = x;
    c.seen(c.rng.clone().u64());
    let cause = || OE::LinalgError(if x.is_nan() { LE::UtilsError(UtilsError::Nan) } else { LE::UtilsError(UtilsError::Inf) });
    // sensors
    let (mut g, mut a, mut m) = (e("new", Gyrometer::new())?, e("new", Accelerometer::new())?, e("new", Magnetometer::new())?);
    want(c, "gyrometer update", g.update(0.0, 0.0, 0.0), OE::GyrNotInit)?;
    want(c, "gyrometer read", g.get_x_angular_rate(), OE::GyrNotInit)?;
    want(c, "gyrometer read", g.get_y_angular_rate(), OE::GyrNotInit)?;
    want(c, "gyrometer read", g.get_z_angular_rate(), OE::GyrNotInit)?;
    want(c, "gyrometer configure", g.set_config(&gcfg(&k)), OE::GyrNotInit)?;
    want(c, "gyrometer configuration", g.get_config(), OE::GyrNotInit)?;
    want(c, "gyrometer bad configuration", g.init(&gcfg(&kb)), cause())?;
    e("init", g.init(&gcfg(&k)))?;
    want(c, "gyrometer init twice", g.init(&gcfg(&k)), OE::GyrAlreadyInit)?;
    want(c, "gyrometer bad configuration", g.set_config(&gcfg(&kb)), cause())?;
    let b3 = |c: &mut Case| {
        let mut v = [0.1f32, -0.2, 0.3];
        v[c.rng.us(3)] = x;
        v
    };
    let v = b3(c);
    want(c, "gyrometer bad sample", g.update(v[0], v[1], v[2]), cause())?;
    want(c, "accelerometer update", a.update(0.0, 0.0, 0.0), OE::AccNotInit)?;
    want(c, "accelerometer read", a.get_x_acceleration(), OE::AccNotInit)?;
    want(c, "accelerometer read", a.get_y_acceleration(), OE::AccNotInit)?;
    want(c, "accelerometer read", a.get_z_acceleration(), OE::AccNotInit)?;
    want(c, "accelerometer configure", a.set_config(&acfg(&k)), OE::AccNotInit)?;
    want(c, "accelerometer configuration", a.get_config(), OE::AccNotInit)?;
    want(c, "accelerometer bad configuration", a.init(&acfg(&kb)), cause())?;
    e("init", a.init(&acfg(&k)))?;
    want(c, "accelerometer init twice", a.init(&acfg(&k)), OE::AccAlreadyInit)?;
    want(c, "accelerometer bad configuration", a.set_config(&acfg(&kb)), cause())?;
    let v = b3(c);
    want(c, "accelerometer bad sample", a.update(v[0], v[1], v[2]), cause())?;
    want(c, "magnetometer update", m.update(0.0, 0.0, 0.0), OE::MagNotInit)?;
    want(c, "magnetometer read", m.get_x_magnetic_field(), OE::MagNotInit)?;
    want(c, "magnetometer read", m.get_y_magnetic_field(), OE::MagNotInit)?;
    want(c, "magnetometer read", m.get_z_magnetic_field(), OE::MagNotInit)?;
    want(c, "magnetometer configure", m.set_config(&mcfg(&k)), OE::MagNotInit)?;
    want(c, "magnetometer configuration", m.get_config(), OE::MagNotInit)?;
    want(c, "magnetometer bad configuration", m.init(&mcfg(&kb)), cause())?;
    e("init", m.init(&mcfg(&k)))?;
    want(c, "magnetometer init twice", m.init(&mcfg(&k)), OE::MagAlreadyInit)?;
    want(c, "magnetometer bad configuration", m.set_config(&mcfg(&kb)), cause())?;
    let v = b3(c);
    want(c, "magnetometer bad sample", m.update(v[0], v[1], v[2]), cause())?;
    // gyro-only filter
    let mut f = e("new", AR::new())?;
    want(c, "AR update", f.update(0.0, 0.0, 0.0), OE::ARFilterNotInit)?;
    want(c, "AR attitude", f.get_attitude(), OE::ARFilterNotInit)?;
    #[cfg(feature = "std")]
    want(c, "AR print", f.print_attitude(), OE::ARFilterNotInit)?;
    let mut q = [1.0f32, 0.0, 0.0, 0.0];
    q[c.rng.us(4)] = x;
    want(c, "AR bad attitude", f.init(q[0], q[1], q[2], q[3], &gcfg(&k), 0.01, NIM::Euler, 1), cause())?;
    want(c, "AR bad configuration", f.init(1.0, 0.0, 0.0, 0.0, &gcfg(&kb), 0.01, NIM::Euler, 1), cause())?;
    let nim = if c.rng.bool() { NIM::AdamsBashforth } else { NIM::RungeKutta };
    e("AR init", f.init(1.0, 0.0, 0.0, 0.0, &gcfg(&k), 0.01, nim, 1))?;
    want(c, "AR init twice", f.init(1.0, 0.0, 0.0, 0.0, &gcfg(&k), 0.01, NIM::Euler, 1), OE::ARFilterAlreadyInit)?;
    want(c, "AR method", f.update(0.1, 0.2, 0.3), OE::ARMethodError)?;
    let v = b3(c);
    want(c, "AR bad sample", f.update(v[0], v[1], v[2]), cause())?;
    // nine-axis and gyro-less filter
    let mut f = e("new", Aqua::new())?;
    let (gc, ac, mc) = (gcfg(&k), acfg(&k), mcfg(&k));
    want(c, "Aqua update", f.update(Some(0.0), Some(0.0), Some(0.0), 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), OE::AquaFilterNotInit)?;
    want(c, "Aqua attitude", f.get_attitude(), OE::AquaFilterNotInit)?;
    want(c, "Aqua accelerometer configuration", f.get_accelerometer_config(), OE::AccNotInit)?;
    want(c, "Aqua gyrometer configuration", f.get_gyrometer_config(), OE::GyrNotInit)?;
    want(c, "Aqua magnetometer configuration", f.get_magnetometer_config(), OE::MagNotInit)?;
    want(c, "Aqua accelerometer configure", f.set_accelerometer_config(&ac), OE::AccNotInit)?;
    want(c, "Aqua gyrometer configure", f.set_gyrometer_config(&gc), OE::GyrNotInit)?;
    want(c, "Aqua magnetometer configure", f.set_magnetometer_config(&mc), OE::MagNotInit)?;
    want(c, "Aqua without gyrometer", f.init(Mode::MARG, None, None, None, None, None, &ac, &mc, 0.01, false, 0.5, 0.5, 0.1, 0.2, 0.9, 0.9, None, None), OE::NoGyroconfig)?;
    let mut q = [Some(1.0f32), Some(0.0), Some(0.0), Some(0.0)];
    let (i, n) = (c.rng.us(4), 1 + c.rng.us(3));
    for k in 0..n {
        q[(i + k) % 4] = None;
    }
    let am = c.rng.bool();
    let mode = || if am { Mode::AM } else { Mode::MARG };
    let init = |f: &mut Aqua, q: [Option<f32>; 4], ad: bool, t1: f32, t2: f32, ta: f32, tm: f32| f.init(mode(), q[0], q[1], q[2], q[3], Some(&gc), &ac, &mc, 0.01, ad, 0.5, 0.5, t1, t2, ta, tm, None, None);
    want(c, "Aqua partial attitude", init(&mut f, q, false, 0.1, 0.2, 0.9, 0.9), OE::InvalidInitQuaternion)?;
    let mut q = [Some(1.0f32), Some(0.0), Some(0.0), Some(0.0)];
    q[c.rng.us(4)] = Some(x);
    want(c, "Aqua bad attitude", init(&mut f, q, false, 0.1, 0.2, 0.9, 0.9), cause())?;
    let (gb, ab, mb) = (gcfg(&kb), acfg(&kb), mcfg(&kb));
    let which = c.rng.us(if am { 2 } else { 3 });
    let (g1, a1, m1) = (if which == 2 { &gb } else { &gc }, if which == 0 { &ab } else { &ac }, if which == 1 { &mb } else { &mc });
    want(c, "Aqua bad configuration", f.init(mode(), None, None, None, None, Some(g1), a1, m1, 0.01, false, 0.5, 0.5, 0.1, 0.2, 0.9, 0.9, None, None), cause())?;
    e("Aqua init", init(&mut f, [None; 4], false, 0.1, 0.2, 0.9, 0.9))?;
    want(c, "Aqua accelerometer reconfigure", f.set_accelerometer_config(&ab), cause())?;
    want(c, "Aqua magnetometer reconfigure", f.set_magnetometer_config(&mb), cause())?;
    if !am {
        want(c, "Aqua gyrometer reconfigure", f.set_gyrometer_config(&gb), cause())?;
    }
    let (v, u) = if c.rng.bool() { (b3(c), [20.0, 0.5, -40.0]) } else { ([0.1, 0.2, -9.8], b3(c)) };
    let w = if am { None } else { Some(0.1f32) };
    want(c, "Aqua bad sample", f.update(w, w, w, v[0], v[1], v[2], u[0], u[1], u[2]), cause())?;
    want(c, "Aqua init twice", init(&mut f, [None; 4], false, 0.1, 0.2, 0.9, 0.9), OE::AquaFilterAlreadyInit)?;
    if am {
        want(c, "Aqua gyrometer unused", f.set_gyrometer_config(&gc), OE::GyrNotInit)?;
        want(c, "Aqua gyrometer unused", f.get_gyrometer_config(), OE::GyrNotInit)?;
    } else {
        want(c, "Aqua no rate", f.update(None, None, None, 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), OE::NoGyroRawMeasurements)?;
        let mut w = [Some(0.1f32), Some(0.2), Some(0.3)];
        let (i, n) = (c.rng.us(3), 1 + c.rng.us(2));
        for k in 0..n {
            w[(i + k) % 3] = None;
        }
        want(c, "Aqua partial rate", f.update(w[0], w[1], w[2], 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), OE::InvalidGyroRawMeasurements)?;
        let v = b3(c);
        want(c, "Aqua bad rate", f.update(Some(v[0]), Some(v[1]), Some(v[2]), 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), cause())?;
        let mut f = e("new", Aqua::new())?;
        let t = c.rng.uni(0.05, 0.5) as f32;
        let t2 = if c.rng.bool() { t } else { t * 0.5 };
        e("Aqua init", init(&mut f, [None; 4], true, t, t2, 0.9, 0.9))?;
        want(c, "Aqua gain thresholds", f.update(Some(0.1), Some(0.0), Some(0.0), 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), OE::InvalidAdaptiveGainTresholds)?;
        let mut f = e("new", Aqua::new())?;
        let t = if c.rng.bool() { -c.rng.logu(1e-3, 10.0) as f32 } else { 1.0 + c.rng.logu(1e-3, 10.0) as f32 };
        let (ta, tm) = if c.rng.bool() { (t, 0.5) } else { (0.5, t) };
        e("Aqua init", init(&mut f, [None; 4], false, 0.1, 0.2, ta, tm))?;
        want(c, "Aqua interpolation threshold", f.update(Some(0.1), Some(0.0), Some(0.0), 0.0, 0.0, -9.81, 20.0, 0.0, -40.0), OE::InvalidAquaInterpolationTreshold)?;
    }
    let mut d = e("new", Davenport::new())?;
    want(c, "Davenport update", d.update(0.0, 0.0, -9.81, 20.0, 0.0, 40.0), OE::DavenportFilterNotInit)?;
    let t = if c.rng.bool() { -c.rng.logu(1e-3, 10.0) as f32 } else { 1.0 + c.rng.logu(1e-3, 10.0) as f32 };
    let (w1, w2) = if c.rng.bool() { (t, 0.5) } else { (0.5, t) };
    want(c, "Davenport weights", d.init(w1, w2, None, None), OE::InvalidDavenportWeights)?;
    e("Davenport init", d.init(0.5, 0.5, None, None))?;
    want(c, "Davenport init twice", d.init(0.5, 0.5, None, None), OE::DavenportFilterAlreadyInit)?;
    // complex numbers
    let (x, cause) = (x, if x.is_nan() { UtilsError::Nan } else { UtilsError::Inf });
    let r = if c.rng.bool() { dsp::complex::Complex::new(x, 1.0) } else { dsp::complex::Complex::new(1.0, x) };
    want(c, "complex component", r, cause)?;
    let (big, mut z) = (e("new", dsp::complex::Complex::new(3e38, -3e38))?, e("new", dsp::complex::Complex::new(1.0, 2.0))?);
    want(c, "complex sum overflow", z.add(&big, &big), UtilsError::Inf)?;
    let zero = e("new", dsp::complex::Complex::new(0.0, 0.0))?;
    want(c, "complex division by zero", z.div(&big, &zero), UtilsError::Nan)?;
    // rotation of a vector that has not three elements
    let q = vect(&mut c.rng, 4)?;
    let k = other(&mut c.rng, 3);
    let mut v = vect(&mut c.rng, k)?;
    want(c, "rotate size", q.rotate(&v), LE::InvalidSize)?;
    want(c, "rotate_in_place size", q.rotate_in_place(&mut v), LE::InvalidSize)?;
    let mut v = vect(&mut c.rng, 3)?;
    let k = 1 + c.rng.us(3);
    let q = vect(&mut c.rng, k)?;
    want(c, "rotate by no quaternion", q.rotate(&v), LE::InvalidSize)?;
    want(c, "rotate_in_place by no quaternion", q.rotate_in_place(&mut v), LE::InvalidSize)
}

pub const C35: &[Stratum] = &[
    Stratum { name: "index-and-size", f: index_and_size, quick: 20_000, thorough: 500_000, need: &["add_row full", "add_col full", "del_row last", "fillq value", "diag offset", "add_row index", "add_col index"] },
    Stratum { name: "operands", f: operands, quick: 20_000, thorough: 500_000, need: &["matrix add", "mul_new", "mul destination", "lerp alpha", "convert_to_euler"] },
    Stratum { name: "uninitialised", f: uninitialised, quick: 5_000, thorough: 100_000, need: &["u.add_row(&v, 0)", "z.convert_to_euler()"] },
    Stratum { name: "values", f: values, quick: 10_000, thorough: 200_000, need: &["matrix sum overflow", "root of negative elements"] },
    Stratum { name: "shapes", f: shapes, quick: 20_000, thorough: 500_000, need: &["lup singular", "solve singular", "chol indefinite", "dlyap sizes"] },
    Stratum { name: "filters", f: filters, quick: 10_000, thorough: 200_000, need: &["Aqua gain thresholds", "Aqua partial rate", "Aqua gyrometer unused", "AR method", "Aqua magnetometer reconfigure", "Aqua gyrometer reconfigure"] },
];
