//! C01-C05: robustness, lifecycle, structural model, finiteness, rejected operations.
use crate::api::*;
use crate::core::*;
use crate::gen;
use crate::world::*;
use linalg::linalg::{eigen, lup, solve};
use open_ahrs::common::OpenAHRSError;
use utils::utils::UtilsError;

/// Length of a program; few are long enough to pass 8 and 12 bit counters inside one object.
fn length(c: &mut Case, least: usize) -> usize {
    if c.rng.chance(0.0005) {
        c.hit("long-program");
        least + c.rng.us(12_000)
    } else {
        least + c.rng.us(40)
    }
}

// ---------------------------------------------------------------- C01

fn c01_programs(c: &mut Case) -> Res {
    let st = *c.rng.pick(&[Style::Wild, Style::Wild, Style::Finite, Style::Tame]);
    let mut w = World::gen(&mut c.rng, st)?;
    let len = 10 + c.rng.us(60);
    let mut h = 0u64;
    let mut txt = String::new();
    for k in 0..len {
        let i = c.rng.us(nops());
        let a = Args::gen(&mut c.rng, st);
        if c.trace {
            eprintln!("  {} {:?}", op(i).name, a);
        }
        let r = w.step(i, &a);
        c.cov.evals += 1;
        h = mix(h ^ i as u64 ^ ((r.is_ok() as u64) << 32));
        c.hit(if r.is_ok() { "returned-value" } else { "returned-error" });
        if k < 4 {
            txt.push_str(op(i).name);
            txt.push_str(if r.is_ok() { " ok; " } else { " err; " });
        }
    }
    c.seen(h);
    c.sample(|| format!("program of {len} calls: {txt}..."));
    Ok(())
}

fn c01_every_op(c: &mut Case) -> Res {
    let i = c.idx as usize % nops();
    let round = c.idx as usize / nops();
    let st = if round % 3 == 2 { Style::Tame } else { Style::Wild };
    let mut w = World::gen(&mut c.rng, st)?;
    if round % 4 == 1 {
        // everything uninitialised
        w.m.iter_mut().for_each(|m| *m = Matrix::new());
        w.v.iter_mut().for_each(|m| *m = Vector::new());
        w.u.iter_mut().for_each(|m| *m = Vector::new());
    }
    for _ in 0..12 {
        let a = Args::gen(&mut c.rng, st);
        if c.trace {
            eprintln!("  {} {:?}", op(i).name, a);
        }
        let ok = w.step(i, &a).is_ok();
        c.cov.evals += 1;
        c.hit(&format!("op:{}:{}", op(i).name, if ok { "ok" } else { "err" }));
        c.seen(mix(i as u64) ^ a.x as u64 ^ (ok as u64) << 20);
    }
    Ok(())
}

/// Filters driven with extreme but structured inputs, so that the deep code is reached.
fn c01_filters(c: &mut Case) -> Res {
    let mut w = World::gen(&mut c.rng, Style::Finite)?;
    let find = |n: &str| (0..nops()).find(|i| op(*i).name == n).unwrap_or(0);
    let init = [find("ar.init"), find("aq.init"), find("dav.init")];
    let upd = [find("ar.update"), find("ar.update#2"), find("aq.update"), find("aq.update#2"), find("dav.update"), find("ar.get_attitude"), find("aq.get_attitude")];
    for i in init {
        for sel in 0..2 {
            for _ in 0..3 {
                let mut a = Args::gen(&mut c.rng, Style::Tame);
                a.a = sel;
                a.flag &= !1; // near-default calibration
                if c.rng.chance(0.7) {
                    let q = gen::unit_q(&mut c.rng);
                    for k in 0..4 {
                        a.s[k] = q[k] as f32;
                    }
                }
                if c.rng.chance(0.5) {
                    a.x = c.rng.us(256) as u8;
                }
                if w.step(i, &a).is_ok() {
                    c.hit("filter-init-ok");
                    break;
                }
            }
        }
    }
    for _ in 0..40 {
        let st = *c.rng.pick(&[Style::Wild, Style::Finite, Style::Tame, Style::Tame]);
        let a = Args::gen(&mut c.rng, st);
        let i = *c.rng.pick(&upd);
        if c.trace {
            eprintln!("  {} {:?}", op(i).name, a);
        }
        let ok = w.step(i, &a).is_ok();
        c.cov.evals += 1;
        c.hit(if ok { "filter-call-ok" } else { "filter-call-err" });
        c.seen(mix(a.flag));
    }
    Ok(())
}

pub const C01: &[Stratum] = &[
    Stratum { name: "every-op", f: c01_every_op, quick: 4000, thorough: 120_000, need: &["op:m.invert:ok", "op:eigen:ok", "op:m.del_row:err", "op:q.sarabandi:ok", "op:v.slerp:ok"] },
    Stratum { name: "programs", f: c01_programs, quick: 24_000, thorough: 900_000, need: &["returned-value", "returned-error"] },
    Stratum { name: "filters", f: c01_filters, quick: 6000, thorough: 200_000, need: &["filter-init-ok", "filter-call-ok", "filter-call-err"] },
];

// ---------------------------------------------------------------- C02

fn c02_sizes(c: &mut Case) -> Res {
    let r = (c.idx % 256) as u8;
    for cc in 0..=255u8 {
        let mut m = Matrix::new();
        c.check(!m.is_initialized(), || "a new matrix claims to be initialised".into())?;
        let res = m.init(r, cc);
        let ok = (1..=4).contains(&r) && (1..=4).contains(&cc);
        c.check(res.is_ok() == ok, || format!("matrix init({r},{cc}) returned {res:?}"))?;
        if ok {
            c.seen((r as u64) << 8 | cc as u64);
            c.hit("valid-size");
            let a = rd(&m)?;
            c.check(m.is_initialized() && a.r == r as usize && a.c == cc as usize, || format!("matrix init({r},{cc}) reports {}x{}", a.r, a.c))?;
            c.check(a.eq(&Arr::zero(a.r, a.c)), || format!("freshly initialised matrix is not zero: {}", a.show()))?;
            let again = m.init(r, cc);
            c.check(matches!(again, Err(LinalgError::AlreadyInit)), || format!("second init({r},{cc}) returned {again:?}"))?;
        } else {
            c.hit("invalid-size");
            let named = match &res {
                Err(LinalgError::RowsNumberNull) => r == 0,
                Err(LinalgError::RowsNumberOverflow) => r > 4,
                Err(LinalgError::ColsNumberNull) => cc == 0,
                Err(LinalgError::ColsNumberOverflow) => cc > 4,
                _ => false,
            };
            c.check(named, || format!("init({r},{cc}) rejected with {res:?}"))?;
            c.check(!m.is_initialized() && m.get_rows().is_err() && m.get_cols().is_err(), || format!("rejected init({r},{cc}) left the matrix initialised"))?;
            c.check(m.init(2, 3).is_ok(), || "init after a rejected init fails".into())?;
        }
        // re-dimensioning
        let (r0, c0) = (1 + c.rng.us(4), 1 + c.rng.us(4));
        let mut m = mk(&gen::arr(&mut c.rng, r0, c0, gen::moderate))?;
        let before = rd(&m)?;
        let res = m.reinit(r, cc);
        c.check(res.is_ok() == ok, || format!("reinit({r},{cc}) returned {res:?}"))?;
        let after = rd(&m)?;
        if ok {
            c.check(after.r == r as usize && after.c == cc as usize && after.finite(), || format!("reinit({r},{cc}) gives {}", after.show()))?;
        } else {
            c.check(after.same(&before), || format!("rejected reinit({r},{cc}) changed {} into {}", before.show(), after.show()))?;
        }
        let mut m = Matrix::new();
        c.check(m.reinit(r, cc).is_err() && !m.is_initialized(), || format!("reinit({r},{cc}) accepted on an uninitialised matrix"))?;
    }
    // vectors of both element types
    let ok = (1..=4).contains(&r);
    let mut v: Vector<f32> = Vector::new();
    let mut u: Vector<u8> = Vector::new();
    c.check(!v.is_initialized() && !u.is_initialized(), || "new vector claims to be initialised".into())?;
    c.check(v.reinit(r).is_err() && u.reinit(r).is_err() && !v.is_initialized() && !u.is_initialized(), || "reinit accepted on an uninitialised vector".into())?;
    let (a, b) = (v.init(r), u.init(r));
    c.check(a.is_ok() == ok && b.is_ok() == ok, || format!("vector init({r}): {a:?} {b:?}"))?;
    if ok {
        let d = rdv(&v)?;
        c.check(d.len() == r as usize && d.iter().all(|x| *x == 0.0), || format!("fresh vector({r}) is {d:?}"))?;
        for k in 0..r {
            let g = u.get_element(k);
            c.check(matches!(g, Ok(0)), || format!("fresh u8 vector element {k}: {g:?}"))?;
        }
        c.check(u.get_rows().ok() == Some(r), || "u8 vector length wrong".into())?;
        let (a, b) = (v.init(r), u.init(r));
        c.check(matches!(a, Err(LinalgError::AlreadyInit)) && matches!(b, Err(LinalgError::AlreadyInit)), || format!("second vector init: {a:?} {b:?}"))?;
    } else {
        let want = |e: &Result<(), LinalgError>| if r == 0 { matches!(e, Err(LinalgError::RowsNumberNull)) } else { matches!(e, Err(LinalgError::RowsNumberOverflow)) };
        c.check(want(&a) && want(&b), || format!("vector init({r}) rejected with {a:?} {b:?}"))?;
        c.check(!v.is_initialized() && !u.is_initialized() && v.get_rows().is_err() && u.get_rows().is_err(), || "rejected init left vector initialised".into())?;
    }
    let n0 = 1 + c.rng.us(4);
    let mut v = mkv(&gen::vecf(&mut c.rng, n0, gen::moderate))?;
    let before = rdv(&v)?;
    let res = v.reinit(r);
    c.check(res.is_ok() == ok, || format!("vector reinit({r}): {res:?}"))?;
    let after = rdv(&v)?;
    if ok {
        c.check(after.len() == r as usize && after.iter().all(|x| x.is_finite()), || format!("vector reinit({r}) gives {after:?}"))?;
    } else {
        c.check(same_v(&before, &after), || format!("rejected vector reinit({r}) changed {before:?} into {after:?}"))?;
    }
    Ok(())
}

struct Un {
    m: Matrix,
    v: Vector<f32>,
    im: Matrix,
    iv: Vector<f32>,
    u: Vector<u8>,
    iu: Vector<u8>,
    s: f32,
    k: u8,
}

macro_rules! un {
    ($( $name:literal => |$x:ident| $e:expr ),* $(,)?) => { &[ $( ($name, { fn f($x: &mut Un) -> bool { ($e).is_err() } f }) ),* ] };
}

/// Every operation that needs dimensions or contents, with at least one uninitialised participant.
static UNINIT: &[(&str, fn(&mut Un) -> bool)] = un![
    "Matrix::reinit" => |x| x.m.reinit(2, 2),
    "Matrix::get_rows" => |x| x.m.get_rows(),
    "Matrix::get_cols" => |x| x.m.get_cols(),
    "Matrix::set_element" => |x| x.m.set_element(x.k, 0, x.s),
    "Matrix::get_element" => |x| x.m.get_element(x.k, 0),
    "Matrix::set_row" => |x| x.m.set_row(&x.iv, x.k),
    "Matrix::set_row(vector)" => |x| x.im.set_row(&x.v, x.k),
    "Matrix::set_col" => |x| x.m.set_col(&x.iv, x.k),
    "Matrix::set_col(vector)" => |x| x.im.set_col(&x.v, x.k),
    "Matrix::get_row" => |x| x.m.get_row(&mut x.iv, x.k),
    "Matrix::get_row(vector)" => |x| x.im.get_row(&mut x.v, x.k),
    "Matrix::get_col" => |x| x.m.get_col(&mut x.iv, x.k),
    "Matrix::get_col(vector)" => |x| x.im.get_col(&mut x.v, x.k),
    "Matrix::row_to_vector" => |x| x.m.row_to_vector(x.k),
    "Matrix::col_to_vector" => |x| x.m.col_to_vector(x.k),
    "Matrix::add_row" => |x| x.m.add_row(&x.iv, x.k),
    "Matrix::add_row(vector)" => |x| x.im.add_row(&x.v, x.k),
    "Matrix::add_row(both)" => |x| x.m.add_row(&x.v, x.k),
    "Matrix::add_col" => |x| x.m.add_col(&x.iv, x.k),
    "Matrix::add_col(vector)" => |x| x.im.add_col(&x.v, x.k),
    "Matrix::add_col(both)" => |x| x.m.add_col(&x.v, x.k),
    "Matrix::del_row" => |x| x.m.del_row(x.k),
    "Matrix::fill" => |x| x.m.fill(x.s),
    "Matrix::is_same_size_as" => |x| x.m.is_same_size_as(&x.im),
    "Matrix::is_same_size_as(other)" => |x| x.im.is_same_size_as(&x.m),
    "Matrix::is_square" => |x| x.m.is_square(),
    "Matrix::is_equal_to" => |x| x.m.is_equal_to(&x.im, 1.0),
    "Matrix::is_equal_to(other)" => |x| x.im.is_equal_to(&x.m, 1.0),
    "Matrix::is_equal_to(both)" => |x| x.m.is_equal_to(&Matrix::new(), 1.0),
    "Matrix::fill_identity" => |x| x.m.fill_identity(),
    "Matrix::copy_from" => |x| x.m.copy_from(&x.im),
    "Matrix::copy_from(other)" => |x| x.im.copy_from(&x.m),
    "Matrix::copy_from(both)" => |x| x.m.copy_from(&Matrix::new()),
    "Matrix::duplicate" => |x| x.m.duplicate(),
    "Matrix::add" => |x| x.m.add(&x.im, &x.im),
    "Matrix::add(operand)" => |x| x.im.add(&x.m, &x.m),
    "Matrix::add(all)" => |x| x.m.add(&Matrix::new(), &Matrix::new()),
    "Matrix::add_in_place" => |x| x.m.add_in_place(&x.im),
    "Matrix::add_in_place(other)" => |x| x.im.add_in_place(&x.m),
    "Matrix::add_new" => |x| x.m.add_new(&x.im),
    "Matrix::add_new(other)" => |x| x.im.add_new(&x.m),
    "Matrix::add_scalar" => |x| x.m.add_scalar(&x.im, x.s),
    "Matrix::add_scalar(other)" => |x| x.im.add_scalar(&x.m, x.s),
    "Matrix::add_scalar_in_place" => |x| x.m.add_scalar_in_place(x.s),
    "Matrix::add_scalar_new" => |x| x.m.add_scalar_new(x.s),
    "Matrix::sub" => |x| x.m.sub(&x.im, &x.im),
    "Matrix::sub(operand)" => |x| x.im.sub(&x.m, &x.m),
    "Matrix::sub_in_place" => |x| x.m.sub_in_place(&x.im),
    "Matrix::sub_in_place(other)" => |x| x.im.sub_in_place(&x.m),
    "Matrix::sub_new" => |x| x.m.sub_new(&x.im),
    "Matrix::sub_new(other)" => |x| x.im.sub_new(&x.m),
    "Matrix::sub_scalar" => |x| x.m.sub_scalar(&x.im, x.s),
    "Matrix::sub_scalar(other)" => |x| x.im.sub_scalar(&x.m, x.s),
    "Matrix::sub_scalar_in_place" => |x| x.m.sub_scalar_in_place(x.s),
    "Matrix::sub_scalar_new" => |x| x.m.sub_scalar_new(x.s),
    "Matrix::mul" => |x| x.m.mul(&x.im, &x.im),
    "Matrix::mul(operand)" => |x| x.im.mul(&x.m, &Matrix::new()),
    "Matrix::mul(all)" => |x| x.m.mul(&Matrix::new(), &Matrix::new()),
    "Matrix::mul_new" => |x| x.m.mul_new(&x.im),
    "Matrix::mul_new(other)" => |x| x.im.mul_new(&x.m),
    "Matrix::transpose" => |x| x.m.transpose(),
    "Matrix::transpose_new" => |x| x.m.transpose_new(),
    "Matrix::invert" => |x| x.m.invert(),
    "Matrix::mul_by_scalar_in_place" => |x| x.m.mul_by_scalar_in_place(x.s),
    "Matrix::power_elements" => |x| x.m.power_elements(2.0),
    "Matrix::trace" => |x| x.m.trace(),
    "Matrix::lr" => |x| x.m.lr(),
    "Matrix::lu_crout" => |x| x.m.lu_crout(),
    "Matrix::qr_decomp" => |x| x.m.qr_decomp(),
    "Matrix::is_upper_triangular" => |x| x.m.is_upper_triangular(),
    "Matrix::is_lower_triangular" => |x| x.m.is_lower_triangular(),
    "Matrix::calculate_frobenius_norm" => |x| x.m.calculate_frobenius_norm(),
    "Matrix::det" => |x| x.m.det(),
    "Matrix::det_naive" => |x| x.m.det_naive(),
    "Matrix::is_symmetric" => |x| x.m.is_symmetric(),
    "Matrix::is_positive_definite" => |x| x.m.is_positive_definite(),
    "Matrix::chol" => |x| x.m.chol(),
    "Matrix::dlyap" => |x| x.m.dlyap(&x.im),
    "Matrix::dlyap(other)" => |x| x.im.dlyap(&x.m),
    "Matrix::is_orthogonal" => |x| x.m.is_orthogonal(),
    "Matrix::is_so_n" => |x| x.m.is_so_n(),
    "Matrix::diag" => |x| x.m.diag(None),
    "Matrix::diag(k)" => |x| x.m.diag(Some(x.k as i8 - 2)),
    "Matrix::log" => |x| x.m.log(),
    "Matrix::log_in_place" => |x| x.m.log_in_place(),
    "Matrix::adjugate_in_place" => |x| x.m.adjugate_in_place(),
    "Vector::reinit" => |x| x.v.reinit(3),
    "Vector::get_rows" => |x| x.v.get_rows(),
    "Vector::set_element" => |x| x.v.set_element(x.k, x.s),
    "Vector::get_element" => |x| x.v.get_element(x.k),
    "Vector::fill" => |x| x.v.fill(x.s),
    "Vector::is_same_size_as" => |x| x.v.is_same_size_as(&x.iv),
    "Vector::is_same_size_as(other)" => |x| x.iv.is_same_size_as(&x.v),
    "Vector::is_equal_to" => |x| x.v.is_equal_to(&x.iv, 1.0),
    "Vector::is_equal_to(other)" => |x| x.iv.is_equal_to(&x.v, 1.0),
    "Vector::copy_from" => |x| x.v.copy_from(&x.iv),
    "Vector::copy_from(other)" => |x| x.iv.copy_from(&x.v),
    "Vector::copy_from(both)" => |x| x.v.copy_from(&Vector::new()),
    "Vector::duplicate" => |x| x.v.duplicate(),
    "Vector::add" => |x| x.v.add(&x.iv, &x.iv),
    "Vector::add(operand)" => |x| x.iv.add(&x.v, &x.v),
    "Vector::add(all)" => |x| x.v.add(&Vector::new(), &Vector::new()),
    "Vector::add_in_place" => |x| x.v.add_in_place(&x.iv),
    "Vector::add_in_place(other)" => |x| x.iv.add_in_place(&x.v),
    "Vector::add_new" => |x| x.v.add_new(&x.iv),
    "Vector::add_new(other)" => |x| x.iv.add_new(&x.v),
    "Vector::add_scalar" => |x| x.v.add_scalar(&x.iv, x.s),
    "Vector::add_scalar(other)" => |x| x.iv.add_scalar(&x.v, x.s),
    "Vector::add_scalar_in_place" => |x| x.v.add_scalar_in_place(x.s),
    "Vector::add_scalar_new" => |x| x.v.add_scalar_new(x.s),
    "Vector::sub" => |x| x.v.sub(&x.iv, &x.iv),
    "Vector::sub(operand)" => |x| x.iv.sub(&x.v, &x.v),
    "Vector::sub_in_place" => |x| x.v.sub_in_place(&x.iv),
    "Vector::sub_in_place(other)" => |x| x.iv.sub_in_place(&x.v),
    "Vector::sub_new" => |x| x.v.sub_new(&x.iv),
    "Vector::sub_new(other)" => |x| x.iv.sub_new(&x.v),
    "Vector::sub_scalar" => |x| x.v.sub_scalar(&x.iv, x.s),
    "Vector::sub_scalar(other)" => |x| x.iv.sub_scalar(&x.v, x.s),
    "Vector::sub_scalar_in_place" => |x| x.v.sub_scalar_in_place(x.s),
    "Vector::sub_scalar_new" => |x| x.v.sub_scalar_new(x.s),
    "Vector::calculate_norm" => |x| x.v.calculate_norm(),
    "Vector::normalize" => |x| x.v.normalize(),
    "Vector::mul_by_scalar" => |x| x.v.mul_by_scalar(&x.iv, x.s),
    "Vector::mul_by_scalar(other)" => |x| x.iv.mul_by_scalar(&x.v, x.s),
    "Vector::mul_by_scalar_in_place" => |x| x.v.mul_by_scalar_in_place(x.s),
    "Vector::mul_by_scalar_new" => |x| x.v.mul_by_scalar_new(x.s),
    "Vector::dot_product" => |x| x.v.dot_product(&x.iv),
    "Vector::dot_product(other)" => |x| x.iv.dot_product(&x.v),
    "Vector::outer_product" => |x| x.v.outer_product(&x.iv),
    "Vector::outer_product(other)" => |x| x.iv.outer_product(&x.v),
    "Vector::slerp" => |x| x.v.slerp(&x.iv, &x.iv, 0.5),
    "Vector::slerp(operand)" => |x| x.iv.slerp(&x.v, &x.v, 0.5),
    "Vector::lerp" => |x| x.v.lerp(&x.iv, &x.iv, 0.5),
    "Vector::lerp(operand)" => |x| x.iv.lerp(&x.v, &x.v, 0.5),
    "Vector::power_elements" => |x| x.v.power_elements(2.0),
    "Vector::convert_to_matrix" => |x| x.v.convert_to_matrix(),
    "Vector<u8>::reinit" => |x| x.u.reinit(3),
    "Vector<u8>::get_rows" => |x| x.u.get_rows(),
    "Vector<u8>::set_element" => |x| x.u.set_element(x.k, 1),
    "Vector<u8>::get_element" => |x| x.u.get_element(x.k),
    "lup" => |x| lup(&x.m),
    "solve" => |x| solve(&x.m, &x.iv, &x.iu),
    "solve(b)" => |x| solve(&x.im, &x.v, &x.iu),
    "solve(p)" => |x| solve(&x.im, &x.iv, &x.u),
    "eigen" => |x| eigen(&x.m, 10, false),
    "eigen(shifted)" => |x| eigen(&x.m, 10, true),
    "is_quaternion" => |x| x.v.is_quaternion(),
    "is_real" => |x| x.v.is_real(),
    "is_pure" => |x| x.v.is_pure(),
    "is_versor" => |x| x.v.is_versor(),
    "is_identity" => |x| x.v.is_identity(),
    "set_qw" => |x| x.v.set_qw(x.s),
    "set_qx" => |x| x.v.set_qx(x.s),
    "set_qy" => |x| x.v.set_qy(x.s),
    "set_qz" => |x| x.v.set_qz(x.s),
    "get_qw" => |x| x.v.get_qw(),
    "get_qx" => |x| x.v.get_qx(),
    "get_qy" => |x| x.v.get_qy(),
    "get_qz" => |x| x.v.get_qz(),
    "get_vector_part" => |x| x.v.get_vector_part(),
    "fillq" => |x| x.v.fillq(1.0, 0.0, 0.0, 0.0),
    "quaternion fill_identity" => |x| Quaternion::fill_identity(&mut x.v),
    "conjugate" => |x| x.v.conjugate(),
    "conjugate_new" => |x| x.v.conjugate_new(),
    "quaternion mul" => |x| Quaternion::mul(&mut x.v, &x.iv, &x.iv),
    "quaternion mul(operand)" => |x| Quaternion::mul(&mut x.iv, &x.v, &x.v),
    "quaternion mul_new" => |x| Quaternion::mul_new(&x.v, &x.iv),
    "quaternion mul_new(other)" => |x| Quaternion::mul_new(&x.iv, &x.v),
    "quaternion invert" => |x| Quaternion::invert(&mut x.v),
    "convert_to_dcm" => |x| x.v.convert_to_dcm(),
    "exp" => |x| x.v.exp(),
    "exp_new" => |x| x.v.exp_new(),
    "rotate" => |x| x.v.rotate(&x.iv),
    "rotate(vector)" => |x| x.iv.rotate(&x.v),
    "rotate_in_place" => |x| x.v.rotate_in_place(&mut x.iv),
    "rotate_in_place(vector)" => |x| x.iv.rotate_in_place(&mut x.v),
    "hughes" => |x| x.v.hughes(&x.im),
    "hughes(dcm)" => |x| x.iv.hughes(&x.m),
    "chiaverini" => |x| x.v.chiaverini(&x.im),
    "chiaverini(dcm)" => |x| x.iv.chiaverini(&x.m),
    "sarabandi" => |x| x.v.sarabandi(&x.im, None),
    "sarabandi(dcm)" => |x| x.iv.sarabandi(&x.m, None),
    "convert_to_euler" => |x| x.v.convert_to_euler(),
];

fn c02_uninit(c: &mut Case) -> Res {
    let n = 1 + (c.idx as usize % 4);
    let cc = 1 + (c.idx as usize / 4 % 4);
    for (name, f) in UNINIT {
        let im = mk(&gen::arr(&mut c.rng, n, cc, gen::moderate))?;
        let nv = if c.rng.bool() { n } else { cc };
        let iv = mkv(&gen::vecf(&mut c.rng, nv, gen::moderate))?;
        let mut iu: Vector<u8> = Vector::new();
        e("init", iu.init(n as u8))?;
        let mut x = Un { m: Matrix::new(), v: Vector::new(), im, iv, u: Vector::new(), iu, s: gen::moderate(&mut c.rng), k: c.rng.us(5) as u8 };
        let (bm, bv) = (snap_m(&x.im), snap_v(&x.iv));
        let is_err = f(&mut x);
        c.hit("uninitialised-call");
        c.seen(hash_str(name) ^ (n * 8 + cc) as u64);
        c.check(is_err, || format!("{name} on uninitialised operands was accepted"))?;
        c.check(!x.m.is_initialized() && !x.v.is_initialized() && !x.u.is_initialized(), || format!("{name}: a rejected call initialised its operand"))?;
        c.check(snap_m(&x.im) == bm && snap_v(&x.iv) == bv, || format!("{name}: a rejected call changed the initialised operand"))?;
        // still perfectly usable afterwards
        let r = x.m.init(2, 2);
        c.check(r.is_ok() && rd(&x.m)?.eq(&Arr::zero(2, 2)), || format!("{name}: init after the rejected call gives {r:?}"))?;
        let r = x.v.init(3);
        c.check(r.is_ok() && rdv(&x.v)? == vec![0.0; 3], || format!("{name}: vector init after the rejected call gives {r:?}"))?;
    }
    c.sample(|| format!("{} operations on uninitialised operands next to a {n}x{cc} matrix", UNINIT.len()));
    Ok(())
}

#[cfg(feature = "std")]
fn print_uninit() -> (bool, bool) {
    let m = Matrix::new();
    let v: Vector<f32> = Vector::new();
    (m.print().is_err(), v.print().is_err())
}
#[cfg(not(feature = "std"))]
fn print_uninit() -> (bool, bool) {
    (true, true)
}

fn c02_print(c: &mut Case) -> Res {
    let (a, b) = print_uninit();
    c.hit("print");
    c.check(a && b, || format!("printing an uninitialised container accepted: matrix {} vector {}", !a, !b))
}

fn dm(c: &mut Case, what: &str, r: Result<Matrix, LinalgError>, rr: usize, cc: usize) -> Res {
    if let Ok(m) = r {
        c.hit("returned-object");
        c.seen(hash_str(what) ^ (rr * 8 + cc) as u64);
        let ok = m.is_initialized() && m.get_rows().ok() == Some(rr as u8) && m.get_cols().ok() == Some(cc as u8);
        c.check(ok, || format!("{what} returned a {:?}x{:?} matrix, expected {rr}x{cc}", m.get_rows(), m.get_cols()))?;
        rd(&m)?;
    }
    Ok(())
}
fn dv(c: &mut Case, what: &str, r: Result<Vector<f32>, LinalgError>, n: usize) -> Res {
    if let Ok(v) = r {
        c.hit("returned-object");
        c.seen(hash_str(what) ^ n as u64);
        let ok = v.is_initialized() && v.get_rows().ok() == Some(n as u8);
        c.check(ok, || format!("{what} returned a vector of {:?}, expected {n}", v.get_rows()))?;
        rdv(&v)?;
    }
    Ok(())
}
fn split(r: Result<(Matrix, Matrix), LinalgError>) -> (Result<Matrix, LinalgError>, Result<Matrix, LinalgError>) {
    match r {
        Ok((a, b)) => (Ok(a), Ok(b)),
        Err(_) => (Err(LinalgError::NotInit), Err(LinalgError::NotInit)),
    }
}

fn c02_results(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let a = if r == k { gen::square(&mut c.rng, r).0 } else { gen::arr(&mut c.rng, r, k, gen::moderate) };
    let m = mk(&a)?;
    let m2 = mk(&gen::arr(&mut c.rng, r, k, gen::moderate))?;
    let p = 1 + c.rng.us(4);
    let m3 = mk(&gen::arr(&mut c.rng, k, p, gen::moderate))?;
    let s = gen::moderate(&mut c.rng);
    dm(c, "duplicate", m.duplicate(), r, k)?;
    dm(c, "add_new", m.add_new(&m2), r, k)?;
    dm(c, "sub_new", m.sub_new(&m2), r, k)?;
    dm(c, "add_scalar_new", m.add_scalar_new(s), r, k)?;
    dm(c, "sub_scalar_new", m.sub_scalar_new(s), r, k)?;
    dm(c, "mul_new", m.mul_new(&m3), r, p)?;
    dm(c, "transpose_new", m.transpose_new(), k, r)?;
    let (l, u) = split(m.lr());
    dm(c, "lr.l", l, r, r)?;
    dm(c, "lr.r", u, r, r)?;
    let (l, u) = split(m.lu_crout());
    dm(c, "lu_crout.l", l, r, r)?;
    dm(c, "lu_crout.u", u, r, r)?;
    let (q, t) = split(m.qr_decomp());
    dm(c, "qr.q", q, r, k)?;
    dm(c, "qr.r", t, k, k)?;
    dm(c, "chol", m.chol(), r, k)?;
    dm(c, "log", m.log(), r, k)?;
    for i in 0..r {
        dv(c, "row_to_vector", m.row_to_vector(i as u8), k)?;
    }
    for j in 0..k {
        dv(c, "col_to_vector", m.col_to_vector(j as u8), r)?;
    }
    for d in -5i8..=5 {
        let n = if d >= 0 { (r as i8).min(k as i8 - d) } else { (r as i8 + d).min(k as i8) };
        let got = m.diag(Some(d));
        if n <= 0 {
            c.check(got.is_err(), || format!("diag({d}) of a {r}x{k} matrix accepted"))?;
        } else {
            c.check(got.is_ok(), || format!("diag({d}) of a {r}x{k} matrix refused"))?;
            dv(c, "diag", got, n as usize)?;
        }
    }
    if r == k {
        if let Ok((lu, p)) = lup(&m) {
            dm(c, "lup.lu", Ok(lu), r, r)?;
            c.check(p.is_initialized() && p.get_rows().ok() == Some(r as u8), || "lup permutation has a wrong length".into())?;
            let b = mkv(&gen::vecf(&mut c.rng, r, gen::moderate))?;
            let (lu, p) = e("lup", lup(&m))?;
            dv(c, "solve", solve(&lu, &b, &p), r)?;
        }
        if let Ok((ev, vec)) = eigen(&m, 30, false) {
            dm(c, "eigenvectors", Ok(vec), r, r)?;
            dv(c, "eigenvalues", Ok(ev), r)?;
        }
    }
    let v = mkv(&gen::vecf(&mut c.rng, r, gen::moderate))?;
    let v2 = mkv(&gen::vecf(&mut c.rng, r, gen::moderate))?;
    let v3 = mkv(&gen::vecf(&mut c.rng, k, gen::moderate))?;
    dv(c, "v.duplicate", v.duplicate(), r)?;
    dv(c, "v.add_new", v.add_new(&v2), r)?;
    dv(c, "v.sub_new", v.sub_new(&v2), r)?;
    dv(c, "v.add_scalar_new", v.add_scalar_new(s), r)?;
    dv(c, "v.sub_scalar_new", v.sub_scalar_new(s), r)?;
    dv(c, "v.mul_by_scalar_new", v.mul_by_scalar_new(s), r)?;
    dm(c, "outer_product", v.outer_product(&v3), r, k)?;
    dm(c, "convert_to_matrix", v.convert_to_matrix(), r, 1)?;
    let q = mkq(&q32(&gen::unit_q(&mut c.rng)))?;
    let q2 = mkq(&q32(&gen::unit_q(&mut c.rng)))?;
    let w = mkv(&gen::vecf(&mut c.rng, 3, gen::moderate))?;
    dv(c, "get_vector_part", q.get_vector_part(), 3)?;
    dv(c, "conjugate_new", q.conjugate_new(), 4)?;
    dv(c, "quaternion mul_new", Quaternion::mul_new(&q, &q2), 4)?;
    dm(c, "convert_to_dcm", q.convert_to_dcm(), 3, 3)?;
    dv(c, "exp_new", q.exp_new(), 4)?;
    dv(c, "rotate", q.rotate(&w), 3)?;
    // insertion and deletion change exactly one dimension by one
    let mut g = mk(&a)?;
    if r < 4 {
        e("add_row", g.add_row(&v3, c.rng.us(r + 1) as u8))?;
        dm(c, "add_row", Ok(g), r + 1, k)?;
    }
    let mut g = mk(&a)?;
    if k < 4 {
        e("add_col", g.add_col(&v, c.rng.us(k + 1) as u8))?;
        dm(c, "add_col", Ok(g), r, k + 1)?;
    }
    let mut g = mk(&a)?;
    if r > 1 {
        let d = g.del_row(c.rng.us(r) as u8);
        dv(c, "del_row", d, k)?;
        dm(c, "del_row", Ok(g), r - 1, k)?;
    }
    let mut g = mk(&a)?;
    e("transpose", g.transpose())?;
    dm(c, "transpose", Ok(g), k, r)
}

pub const C02: &[Stratum] = &[
    Stratum { name: "sizes", f: c02_sizes, quick: 256, thorough: 1024, need: &["valid-size", "invalid-size"] },
    Stratum { name: "uninitialised", f: c02_uninit, quick: 96, thorough: 4000, need: &["uninitialised-call"] },
    Stratum { name: "print", f: c02_print, quick: 1, thorough: 1, need: &["print"] },
    Stratum { name: "result-dimensions", f: c02_results, quick: 6000, thorough: 300_000, need: &["returned-object"] },
];

// ---------------------------------------------------------------- C03

struct Model {
    m: Vec<Matrix>,
    a: Vec<Arr>,
    v: Vec<Vector<f32>>,
    d: Vec<Vec<f32>>,
}

fn idx(r: &mut Rng) -> u8 {
    match r.us(12) {
        0 => *r.pick(&[4u8, 5, 127, 128, 254, 255]),
        1 => r.us(256) as u8,
        _ => r.us(5) as u8,
    }
}

fn c03_history(c: &mut Case) -> Res {
    let mut w = Model { m: vec![], a: vec![], v: vec![], d: vec![] };
    for _ in 0..3 {
        let (r, k) = gen::dims(&mut c.rng);
        let a = gen::arr(&mut c.rng, r, k, gen::any_finite);
        w.m.push(mk(&a)?);
        w.a.push(a);
    }
    for _ in 0..3 {
        let n = 1 + c.rng.us(4);
        let d = gen::vecf(&mut c.rng, n, gen::any_finite);
        w.v.push(mkv(&d)?);
        w.d.push(d);
    }
    let len = length(c, 12);
    let mut log: Vec<String> = Vec::new();
    let mut hh = 0u64;
    for _ in 0..len {
        let i = c.rng.us(3);
        let j = (i + 1 + c.rng.us(2)) % 3;
        let vi = c.rng.us(3);
        let x = idx(&mut c.rng);
        let y = idx(&mut c.rng);
        let s = gen::any_finite(&mut c.rng);
        let k = c.rng.us(24);
        let (r0, c0) = (w.a[i].r, w.a[i].c);
        let xr = (x as usize) < r0;
        let yc = (y as usize) < c0;
        let mut want_ok = true;
        // (description, library result)
        let res: Result<(), LinalgError>;
        let what: &str;
        match k {
            0 | 1 => {
                what = "set_element";
                want_ok = xr && yc;
                res = w.m[i].set_element(x, y, s);
                if want_ok {
                    w.a[i].d[x as usize][y as usize] = s;
                } else {
                    let ok = match &res {
                        Err(LinalgError::InvalidRow) => !xr,
                        Err(LinalgError::InvalidCol) => !yc,
                        _ => false,
                    };
                    c.check(ok, || format!("set_element({x},{y}) on {r0}x{c0} returned {res:?}"))?;
                }
            }
            2 => {
                what = "get_element";
                want_ok = xr && yc;
                let g = w.m[i].get_element(x, y);
                if want_ok {
                    let e = w.a[i].d[x as usize][y as usize];
                    c.check(matches!(g, Ok(v) if v.to_bits() == e.to_bits()), || format!("get_element({x},{y}) = {g:?}, expected {e}; history {log:?}"))?;
                } else {
                    let ok = match &g {
                        Err(LinalgError::InvalidRow) => !xr,
                        Err(LinalgError::InvalidCol) => !yc,
                        _ => false,
                    };
                    c.check(ok, || format!("get_element({x},{y}) on {r0}x{c0} returned {g:?}"))?;
                }
                res = g.map(|_| ());
            }
            3 => {
                what = "set_row";
                want_ok = xr && w.d[vi].len() == c0;
                res = w.m[i].set_row(&w.v[vi], x);
                if want_ok {
                    for q in 0..c0 {
                        w.a[i].d[x as usize][q] = w.d[vi][q];
                    }
                }
            }
            4 => {
                what = "set_col";
                want_ok = (x as usize) < c0 && w.d[vi].len() == r0;
                res = w.m[i].set_col(&w.v[vi], x);
                if want_ok {
                    for q in 0..r0 {
                        w.a[i].d[q][x as usize] = w.d[vi][q];
                    }
                }
            }
            5 => {
                what = "get_row";
                want_ok = xr && w.d[vi].len() == c0;
                res = w.m[i].get_row(&mut w.v[vi], x);
                if want_ok {
                    w.d[vi] = w.a[i].d[x as usize][..c0].to_vec();
                }
            }
            6 => {
                what = "get_col";
                want_ok = (x as usize) < c0 && w.d[vi].len() == r0;
                res = w.m[i].get_col(&mut w.v[vi], x);
                if want_ok {
                    w.d[vi] = (0..r0).map(|q| w.a[i].d[q][x as usize]).collect();
                }
            }
            7 => {
                what = "row_to_vector";
                want_ok = xr;
                res = match w.m[i].row_to_vector(x) {
                    Ok(v) => {
                        w.v[vi] = v;
                        if xr {
                            w.d[vi] = w.a[i].d[x as usize][..c0].to_vec();
                        }
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            8 => {
                what = "col_to_vector";
                want_ok = (x as usize) < c0;
                res = match w.m[i].col_to_vector(x) {
                    Ok(v) => {
                        w.v[vi] = v;
                        if want_ok {
                            w.d[vi] = (0..r0).map(|q| w.a[i].d[q][x as usize]).collect();
                        }
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            9 | 10 => {
                what = "add_row";
                let x = if c.rng.chance(0.6) { c.rng.us(r0 + 1) as u8 } else { x };
                // give it a fitting vector most of the time
                if c.rng.chance(0.7) && w.d[vi].len() != c0 {
                    let d = gen::vecf(&mut c.rng, c0, gen::any_finite);
                    w.v[vi] = mkv(&d)?;
                    w.d[vi] = d;
                }
                want_ok = r0 < 4 && (x as usize) <= r0 && w.d[vi].len() == c0;
                res = w.m[i].add_row(&w.v[vi], x);
                if want_ok {
                    let old = w.a[i];
                    let xi = x as usize;
                    let d = w.d[vi].clone();
                    w.a[i] = Arr::from_fn(r0 + 1, c0, |p, q| if p < xi { old.d[p][q] } else if p == xi { d[q] } else { old.d[p - 1][q] });
                    c.hit("row-inserted");
                }
            }
            11 | 12 => {
                what = "add_col";
                let x = if c.rng.chance(0.6) { c.rng.us(c0 + 1) as u8 } else { x };
                if c.rng.chance(0.7) && w.d[vi].len() != r0 {
                    let d = gen::vecf(&mut c.rng, r0, gen::any_finite);
                    w.v[vi] = mkv(&d)?;
                    w.d[vi] = d;
                }
                want_ok = c0 < 4 && (x as usize) <= c0 && w.d[vi].len() == r0;
                res = w.m[i].add_col(&w.v[vi], x);
                if want_ok {
                    let old = w.a[i];
                    let xi = x as usize;
                    let d = w.d[vi].clone();
                    w.a[i] = Arr::from_fn(r0, c0 + 1, |p, q| if q < xi { old.d[p][q] } else if q == xi { d[p] } else { old.d[p][q - 1] });
                    c.hit("col-inserted");
                }
            }
            13 | 14 => {
                what = "del_row";
                want_ok = xr && r0 > 1;
                res = match w.m[i].del_row(x) {
                    Ok(v) => {
                        w.v[vi] = v;
                        if want_ok {
                            w.d[vi] = w.a[i].d[x as usize][..c0].to_vec();
                            let old = w.a[i];
                            w.a[i] = Arr::from_fn(r0 - 1, c0, |p, q| if p < x as usize { old.d[p][q] } else { old.d[p + 1][q] });
                            c.hit("row-deleted");
                        }
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            15 => {
                what = "fill";
                res = w.m[i].fill(s);
                w.a[i] = Arr::from_fn(r0, c0, |_, _| s);
            }
            16 => {
                what = "fill_identity";
                want_ok = r0 == c0;
                res = w.m[i].fill_identity();
                if want_ok {
                    w.a[i] = Arr::from_fn(r0, c0, |p, q| if p == q { 1.0 } else { 0.0 });
                }
            }
            17 => {
                what = "copy_from";
                want_ok = r0 == w.a[j].r && c0 == w.a[j].c;
                let mut t = std::mem::take(&mut w.m[i]);
                res = t.copy_from(&w.m[j]);
                w.m[i] = t;
                if want_ok {
                    w.a[i] = w.a[j];
                }
            }
            18 => {
                what = "duplicate";
                res = match w.m[i].duplicate() {
                    Ok(m) => {
                        w.m[j] = m;
                        w.a[j] = w.a[i];
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            19 => {
                what = "transpose";
                res = w.m[i].transpose();
                let old = w.a[i];
                w.a[i] = Arr::from_fn(c0, r0, |p, q| old.d[q][p]);
                c.hit(if r0 == c0 { "square-transpose" } else { "rect-transpose" });
            }
            20 => {
                what = "transpose_new";
                res = match w.m[i].transpose_new() {
                    Ok(m) => {
                        w.m[j] = m;
                        let old = w.a[i];
                        w.a[j] = Arr::from_fn(c0, r0, |p, q| old.d[q][p]);
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            21 => {
                what = "diag";
                let kk = c.rng.us(256) as u8 as i8;
                let kk = if c.rng.chance(0.7) { kk % 5 } else { kk };
                let n = if kk >= 0 { (r0 as i32).min(c0 as i32 - kk as i32) } else { (r0 as i32 + kk as i32).min(c0 as i32) };
                want_ok = n > 0;
                res = match w.m[i].diag(Some(kk)) {
                    Ok(v) => {
                        w.v[vi] = v;
                        if want_ok {
                            w.d[vi] = (0..n as usize).map(|q| if kk >= 0 { w.a[i].d[q][q + kk as usize] } else { w.a[i].d[q + (-(kk as i32)) as usize][q] }).collect();
                        }
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
            }
            22 => {
                // vector element, fill, copy, conversion
                let vj = (vi + 1) % 3;
                let n = w.d[vi].len();
                match c.rng.us(5) {
                    0 => {
                        what = "v.set_element";
                        want_ok = (x as usize) < n;
                        res = w.v[vi].set_element(x, s);
                        if want_ok {
                            w.d[vi][x as usize] = s;
                        } else {
                            c.check(matches!(res, Err(LinalgError::InvalidRow)), || format!("vector set_element({x}) of {n}: {res:?}"))?;
                        }
                        let g = w.v[vi].get_element(y);
                        if (y as usize) < n {
                            let e = w.d[vi][y as usize];
                            c.check(matches!(g, Ok(v) if v.to_bits() == e.to_bits()), || format!("vector get_element({y}) = {g:?}, expected {e}"))?;
                        } else {
                            c.check(matches!(g, Err(LinalgError::InvalidRow)), || format!("vector get_element({y}) of {n}: {g:?}"))?;
                        }
                    }
                    1 => {
                        what = "v.fill";
                        res = w.v[vi].fill(s);
                        w.d[vi].iter_mut().for_each(|v| *v = s);
                    }
                    2 => {
                        what = "v.copy_from";
                        want_ok = n == w.d[vj].len();
                        let mut t = std::mem::take(&mut w.v[vi]);
                        res = t.copy_from(&w.v[vj]);
                        w.v[vi] = t;
                        if want_ok {
                            w.d[vi] = w.d[vj].clone();
                        }
                    }
                    3 => {
                        what = "v.duplicate";
                        res = match w.v[vi].duplicate() {
                            Ok(v) => {
                                w.v[vj] = v;
                                w.d[vj] = w.d[vi].clone();
                                Ok(())
                            }
                            Err(e) => Err(e),
                        };
                    }
                    _ => {
                        what = "v.convert_to_matrix";
                        res = match w.v[vi].convert_to_matrix() {
                            Ok(m) => {
                                w.m[i] = m;
                                let d = &w.d[vi];
                                w.a[i] = Arr::from_fn(d.len(), 1, |p, _| d[p]);
                                Ok(())
                            }
                            Err(e) => Err(e),
                        };
                    }
                }
            }
            _ => {
                what = "reinit";
                // contents after a re-dimension are unspecified: define them by a fill
                let (nr, nc) = gen::dims(&mut c.rng);
                res = w.m[i].reinit(nr as u8, nc as u8).and_then(|_| w.m[i].fill(s));
                w.a[i] = Arr::from_fn(nr, nc, |_, _| s);
            }
        }
        if c.trace {
            eprintln!("  {what}(m{i} {r0}x{c0}, v{vi}, x={x}, y={y}, s={s}) -> {res:?}");
        }
        log.push(format!("{what}({i},{j},{vi},{x},{y})"));
        hh = mix(hh ^ k as u64 ^ (x as u64) << 8 ^ (r0 * 8 + c0) as u64);
        c.hit(if want_ok { "accepted" } else { "rejected" });
        let okres = res.is_ok();
        c.check(okres == want_ok, || format!("{what}(m{i}:{r0}x{c0}, x={x}, y={y}) returned {res:?}, expected {}; history {log:?}", if want_ok { "success" } else { "an error" }))?;
        for q in 0..3 {
            let g = rd(&w.m[q])?;
            c.check(g.same(&w.a[q]), || format!("after {what}: matrix {q} is {}, model {}; history {log:?}", g.show(), w.a[q].show()))?;
            let g = rdv(&w.v[q])?;
            c.check(same_v(&g, &w.d[q]), || format!("after {what}: vector {q} is {g:?}, model {:?}; history {log:?}", w.d[q]))?;
        }
    }
    c.seen(hh);
    c.sample(|| format!("history {}", log.join(" ")));
    Ok(())
}

fn c03_u8(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let mut u: Vector<u8> = Vector::new();
    e("init", u.init(n as u8))?;
    let mut d = vec![0u8; n];
    for _ in 0..30 {
        let x = idx(&mut c.rng);
        let v = c.rng.us(256) as u8;
        let ok = (x as usize) < n;
        let r = u.set_element(x, v);
        if ok {
            d[x as usize] = v;
        }
        c.check(if ok { r.is_ok() } else { matches!(r, Err(LinalgError::InvalidRow)) }, || format!("u8 set_element({x}) of {n}: {r:?}"))?;
        for k in 0..n {
            let g = u.get_element(k as u8);
            c.check(matches!(g, Ok(q) if q == d[k]), || format!("u8 element {k}: {g:?} expected {}", d[k]))?;
        }
        let y = idx(&mut c.rng);
        if y as usize >= n {
            let g = u.get_element(y);
            c.check(matches!(g, Err(LinalgError::InvalidRow)), || format!("u8 get_element({y}) of {n}: {g:?}"))?;
            c.hit("u8-out-of-range");
        }
        c.seen((x as u64) << 8 | v as u64 | (n as u64) << 20);
    }
    Ok(())
}

/// Every element access at every index for every shape.
fn c03_index(c: &mut Case) -> Res {
    let n = c.idx as usize % 16;
    let (r, k) = (1 + n / 4, 1 + n % 4);
    let a = Arr::from_fn(r, k, |i, j| (i * 10 + j + 1) as f32);
    let m = mk(&a)?;
    for x in 0..=255u8 {
        for y in 0..=255u8 {
            let g = m.get_element(x, y);
            let (xr, yc) = ((x as usize) < r, (y as usize) < k);
            let ok = match &g {
                Ok(v) => xr && yc && *v == a.d[x as usize][y as usize],
                Err(LinalgError::InvalidRow) => !xr,
                Err(LinalgError::InvalidCol) => !yc,
                _ => false,
            };
            c.check(ok, || format!("get_element({x},{y}) on {r}x{k} returned {g:?}"))?;
        }
        c.seen((n as u64) << 8 | x as u64);
    }
    c.hit("exhaustive-index");
    Ok(())
}

pub const C03: &[Stratum] = &[
    Stratum { name: "history", f: c03_history, quick: 30_000, thorough: 1_500_000, need: &["accepted", "rejected", "row-inserted", "col-inserted", "row-deleted", "square-transpose", "rect-transpose"] },
    Stratum { name: "u8-vector", f: c03_u8, quick: 2000, thorough: 50_000, need: &["u8-out-of-range"] },
    Stratum { name: "all-indices", f: c03_index, quick: 16, thorough: 16, need: &["exhaustive-index"] },
];

// ---------------------------------------------------------------- C04

fn c04_programs(c: &mut Case) -> Res {
    let st = *c.rng.pick(&[Style::Wild, Style::Finite, Style::Finite]);
    let mut w = World::gen(&mut c.rng, st)?;
    let len = length(c, 10);
    let mut h = 0;
    let mut names: Vec<&str> = Vec::new();
    for _ in 0..len {
        let i = c.rng.us(OPS.len());
        let a = Args::gen(&mut c.rng, st);
        let r = w.step(i, &a);
        if let Err(e) = &r {
            if e.contains("Inf") {
                c.hit("refused-infinity");
            } else if e.contains("Nan") {
                c.hit("refused-nan");
            }
        }
        names.push(op(i).name);
        h = mix(h ^ i as u64 ^ (r.is_ok() as u64) << 40);
        let bad = w.non_finite();
        c.check(bad.is_none(), || format!("after {} {:?} -> {:?}: {}", op(i).name, a, r, bad.unwrap_or_default()))?;
    }
    c.seen(h);
    c.sample(|| format!("calls {}", names.join(" ")));
    Ok(())
}

fn c04_every_op(c: &mut Case) -> Res {
    let i = c.idx as usize % OPS.len();
    let mut w = World::gen(&mut c.rng, Style::Finite)?;
    // some objects entirely of extreme values
    for k in 0..NM {
        if c.rng.chance(0.4) {
            let (r, q) = if c.rng.bool() { (3, 3) } else { gen::dims(&mut c.rng) };
            let big = *c.rng.pick(&[3.0e38f32, 1.0e30, 2.0e19, 1e-30]);
            let a = Arr::from_fn(r, q, |_, _| (c.rng.sign() as f32) * big);
            w.m[k] = mk(&a)?;
        }
        if c.rng.chance(0.4) {
            let n = if c.rng.bool() { 4 } else { 3 };
            let big = *c.rng.pick(&[3.0e38f32, 1.0e30, 2.0e19, 1e-30, 100.0]);
            let a: Vec<f32> = (0..n).map(|_| (c.rng.sign() as f32) * big).collect();
            w.v[k] = mkv(&a)?;
        }
    }
    for _ in 0..10 {
        let st = if c.rng.bool() { Style::Wild } else { Style::Finite };
        let a = Args::gen(&mut c.rng, st);
        let r = w.step(i, &a);
        c.hit("op");
        if r.is_err() {
            c.hit("op-error");
        }
        let bad = w.non_finite();
        c.check(bad.is_none(), || format!("after {} {:?} -> {:?}: {}", op(i).name, a, r, bad.unwrap_or_default()))?;
        c.seen(mix(i as u64) ^ r.is_ok() as u64 ^ (a.s[0].to_bits() as u64) << 3);
    }
    Ok(())
}

fn lin_kind(e: &LinalgError) -> Option<UtilsError> {
    match e {
        LinalgError::UtilsError(UtilsError::Nan) => Some(UtilsError::Nan),
        LinalgError::UtilsError(UtilsError::Inf) => Some(UtilsError::Inf),
        _ => None,
    }
}

fn c04_direct(c: &mut Case) -> Res {
    let bad = *c.rng.pick(&[f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7f800001), f32::from_bits(0xffc12345)]);
    let want = if bad.is_nan() { UtilsError::Nan } else { UtilsError::Inf };
    let pos = c.rng.us(9);
    c.hit(if bad.is_nan() { "nan-offered" } else { "infinity-offered" });
    c.seen(mix(bad.to_bits() as u64) ^ pos as u64);
    let (r, k) = gen::dims(&mut c.rng);
    let a = gen::arr(&mut c.rng, r, k, gen::any_finite);
    let mut m = mk(&a)?;
    let n = 1 + c.rng.us(4);
    let d = gen::vecf(&mut c.rng, n, gen::any_finite);
    let mut v = mkv(&d)?;
    let q0 = [1.0, 2.0, 3.0, 4.0f32];
    let mut q = mkq(&q0)?;
    let mut four = [0.5f32; 4];
    four[pos % 4] = bad;
    let mut three = [0.25f32; 3];
    three[pos % 3] = bad;
    let lin: Vec<(&str, Result<(), LinalgError>)> = vec![
        ("matrix set_element", m.set_element(c.rng.us(r) as u8, c.rng.us(k) as u8, bad)),
        ("matrix fill", m.fill(bad)),
        ("vector set_element", v.set_element(c.rng.us(n) as u8, bad)),
        ("vector fill", v.fill(bad)),
        ("set_qw", q.set_qw(bad)),
        ("set_qx", q.set_qx(bad)),
        ("set_qy", q.set_qy(bad)),
        ("set_qz", q.set_qz(bad)),
        ("fillq", q.fillq(four[0], four[1], four[2], four[3])),
    ];
    for (what, res) in &lin {
        let kd = res.as_ref().err().and_then(lin_kind);
        c.check(kd.as_ref() == Some(&want), || format!("{what} with {bad} returned {res:?}"))?;
    }
    c.check(rd(&m)?.same(&a) && same_v(&rdv(&v)?, &d), || "a refused non-finite value changed the container".into())?;
    c.check(rdq(&q)? == q0, || "a refused non-finite component changed the quaternion".into())?;
    let kinds = |r: &Result<(), OpenAHRSError>| -> Option<UtilsError> {
        match r {
            Err(OpenAHRSError::LinalgError(l)) => lin_kind(l),
            _ => None,
        }
    };
    let mut g = e("new", open_ahrs::gyrometer::Gyrometer::new())?;
    let mut ac = e("new", open_ahrs::accelerometer::Accelerometer::new())?;
    let mut mg = e("new", open_ahrs::magnetometer::Magnetometer::new())?;
    let def = near_default(&[0.0; 12], 0);
    e("init", g.init(&gcfg(&def)))?;
    e("init", ac.init(&acfg(&def)))?;
    e("init", mg.init(&mcfg(&def)))?;
    let mut ar = e("new", open_ahrs::ar::AR::new())?;
    e("ar init", ar.init(1.0, 0.0, 0.0, 0.0, &gcfg(&def), 0.01, open_ahrs::common::NumericalIntegrationMethod::ClosedForm, 1))?;
    let mut aq = e("new", open_ahrs::aqua::Aqua::new())?;
    let marg = c.rng.bool();
    let mode = if marg { open_ahrs::aqua::Mode::MARG } else { open_ahrs::aqua::Mode::AM };
    let gc = gcfg(&def);
    e("aqua init", aq.init(mode, None, None, None, None, Some(&gc), &acfg(&def), &mcfg(&def), 0.01, false, 0.1, 0.1, 0.1, 0.2, 0.9, 0.9, None, None))?;
    let mut nine = [0.01, 0.02, 0.03, 0.1, 0.2, -9.8, 20.0, 1.0, 40.0f32];
    let p9 = if marg { pos } else { 3 + pos % 6 };
    nine[p9] = bad;
    let sens: Vec<(&str, Result<(), OpenAHRSError>)> = vec![
        ("gyrometer update", g.update(three[0], three[1], three[2])),
        ("accelerometer update", ac.update(three[0], three[1], three[2])),
        ("magnetometer update", mg.update(three[0], three[1], three[2])),
        ("AR update", ar.update(three[0], three[1], three[2])),
        ("Aqua update", aq.update(Some(nine[0]), Some(nine[1]), Some(nine[2]), nine[3], nine[4], nine[5], nine[6], nine[7], nine[8])),
    ];
    for (what, res) in &sens {
        let kd = kinds(res);
        c.check(kd.as_ref() == Some(&want), || format!("{what} with a {bad} component returned {res:?}"))?;
    }
    // calibration coefficients and initial attitudes
    let mut cc = def;
    cc[c.rng.us(12)] = bad;
    let cfgs: Vec<(&str, bool)> = vec![
        ("gyrometer set_config", g.set_config(&gcfg(&cc)).is_err()),
        ("accelerometer set_config", ac.set_config(&acfg(&cc)).is_err()),
        ("magnetometer set_config", mg.set_config(&mcfg(&cc)).is_err()),
        ("AR init", e("new", open_ahrs::ar::AR::new())?.init(four[0], four[1], four[2], four[3], &gcfg(&def), 0.01, open_ahrs::common::NumericalIntegrationMethod::Euler, 1).is_err()),
        ("AR init config", e("new", open_ahrs::ar::AR::new())?.init(1.0, 0.0, 0.0, 0.0, &gcfg(&cc), 0.01, open_ahrs::common::NumericalIntegrationMethod::Euler, 1).is_err()),
        ("Aqua init", e("new", open_ahrs::aqua::Aqua::new())?.init(open_ahrs::aqua::Mode::AM, Some(four[0]), Some(four[1]), Some(four[2]), Some(four[3]), None, &acfg(&def), &mcfg(&def), 0.01, false, 0.1, 0.1, 0.1, 0.2, 0.9, 0.9, None, None).is_err()),
    ];
    for (what, err) in cfgs {
        c.check(err, || format!("{what} accepted {bad}"))?;
    }
    Ok(())
}

pub const C04: &[Stratum] = &[
    Stratum { name: "programs", f: c04_programs, quick: 20_000, thorough: 800_000, need: &["refused-infinity", "refused-nan"] },
    Stratum { name: "every-op", f: c04_every_op, quick: 10_000, thorough: 400_000, need: &["op", "op-error"] },
    Stratum { name: "direct", f: c04_direct, quick: 3000, thorough: 60_000, need: &["nan-offered", "infinity-offered"] },
];

// ---------------------------------------------------------------- C05

fn container_op(n: &str) -> bool {
    n.starts_with("m.") || n.starts_with("v.") || n.starts_with("u.") || n.starts_with("q.") || n == "lup" || n == "solve" || n == "eigen"
}

/// Whether a rejection must have left everything untouched (true) or may be an arithmetic overflow (false).
fn clean_rejection(o: &Op, a: &Args, err: &str) -> bool {
    if !err.contains("UtilsError") {
        return true;
    }
    o.scalars > 0 && a.s[..o.scalars].iter().any(|x| !x.is_finite())
}

fn short(e: &str) -> &str {
    e
}

fn c05_programs(c: &mut Case) -> Res {
    let st = *c.rng.pick(&[Style::Tame, Style::Tame, Style::Wild]);
    let mut w = World::gen(&mut c.rng, st)?;
    let len = length(c, 15);
    for _ in 0..len {
        let i = c.rng.us(OPS.len());
        let o = op(i);
        if !container_op(o.name) {
            continue;
        }
        let a = Args::gen(&mut c.rng, st);
        let before = w.snapshot_containers();
        let r = w.step(i, &a);
        if let Err(er) = &r {
            if clean_rejection(o, &a, er) {
                c.hit("rejected");
                c.hit(&format!("rejected:{}", short(er)));
                c.seen(mix(i as u64) ^ hash_str(er));
                let after = w.snapshot_containers();
                c.check(after == before, || {
                    let k = (0..before.len()).find(|k| before[*k] != after[*k]).unwrap_or(0);
                    format!("{} {:?} was rejected with {er} but changed object {k}: {:?} -> {:?}", o.name, a, before[k], after[k])
                })?;
            } else {
                c.hit("arithmetic-error(skipped)");
            }
        }
    }
    Ok(())
}

/// The same history without the rejected calls must end in the same state.
fn c05_omit(c: &mut Case) -> Res {
    let st = *c.rng.pick(&[Style::Tame, Style::Wild]);
    let r0 = c.rng.clone();
    let mut w = World::gen(&mut c.rng, st)?;
    let len = 15 + c.rng.us(40);
    let mut kept: Vec<(usize, Args)> = Vec::new();
    let mut dropped = 0;
    for _ in 0..len {
        let i = c.rng.us(OPS.len());
        let o = op(i);
        if !container_op(o.name) {
            continue;
        }
        let a = Args::gen(&mut c.rng, st);
        match w.step(i, &a) {
            Err(er) if clean_rejection(o, &a, &er) => dropped += 1,
            _ => kept.push((i, a)),
        }
    }
    let mut r1 = r0;
    let mut w2 = World::gen(&mut r1, st)?;
    for (i, a) in &kept {
        let _ = w2.step(*i, a);
    }
    if dropped > 0 {
        c.hit("history-with-rejections");
    }
    c.seen(w.digest());
    let (a, b) = (w.snapshot_containers(), w2.snapshot_containers());
    c.check(a == b, || {
        let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap_or(0);
        format!("omitting {dropped} rejected calls changes the outcome: object {k} is {:?} with them and {:?} without; kept calls {:?}", a[k], b[k], kept.iter().map(|(i, _)| op(*i).name).collect::<Vec<_>>())
    })
}

/// Targeted rejections: every index, wrong lengths, singular matrices, partial quaternion fills.
fn c05_targeted(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let a = gen::arr(&mut c.rng, r, k, gen::any_finite);
    let mut m = mk(&a)?;
    let n = 1 + c.rng.us(4);
    let dv = gen::vecf(&mut c.rng, n, gen::any_finite);
    let v = mkv(&dv)?;
    let x = if c.rng.bool() { c.rng.us(6) as u8 } else { c.rng.us(256) as u8 };
    let kind = c.rng.us(9);
    let (what, err): (&str, bool) = match kind {
        0 => ("add_row", m.add_row(&v, x).is_err()),
        1 => ("add_col", m.add_col(&v, x).is_err()),
        2 => ("set_row", m.set_row(&v, x).is_err()),
        3 => ("set_col", m.set_col(&v, x).is_err()),
        4 => ("del_row", m.del_row(x).is_err()),
        5 => ("reinit", m.reinit(if c.rng.bool() { 0 } else { 5 + c.rng.us(250) as u8 }, 1 + c.rng.us(4) as u8).is_err()),
        6 => ("reinit", m.reinit(1 + c.rng.us(4) as u8, if c.rng.bool() { 0 } else { 5 + c.rng.us(250) as u8 }).is_err()),
        7 => ("fill_identity", m.fill_identity().is_err()),
        _ => ("invert", if r != k { m.invert().is_err() } else { false }),
    };
    if err {
        c.hit(&format!("rejected:{what}"));
        c.seen(hash_str(what) ^ mix((r * 64 + k * 16 + n) as u64) ^ x as u64);
        let g = rd(&m)?;
        c.check(g.same(&a), || format!("rejected {what}(x={x}) with a vector of {n} changed {} into {}", a.show(), g.show()))?;
        c.check(same_v(&rdv(&v)?, &dv), || format!("rejected {what} changed its vector argument"))?;
        // corrected retry
        if what == "add_row" && r < 4 {
            let nv = gen::vecf(&mut c.rng, k, gen::any_finite);
            let p = c.rng.us(r + 1);
            let rr = m.add_row(&mkv(&nv)?, p as u8);
            let want = Arr::from_fn(r + 1, k, |i, j| if i < p { a.d[i][j] } else if i == p { nv[j] } else { a.d[i - 1][j] });
            c.check(rr.is_ok() && rd(&m)?.same(&want), || format!("corrected add_row after a rejection: {rr:?}"))?;
            c.hit("retried");
        }
        if what == "add_col" && k < 4 {
            let nv = gen::vecf(&mut c.rng, r, gen::any_finite);
            let p = c.rng.us(k + 1);
            let rr = m.add_col(&mkv(&nv)?, p as u8);
            let want = Arr::from_fn(r, k + 1, |i, j| if j < p { a.d[i][j] } else if j == p { nv[i] } else { a.d[i][j - 1] });
            c.check(rr.is_ok() && rd(&m)?.same(&want), || format!("corrected add_col after a rejection: {rr:?}"))?;
            c.hit("retried");
        }
    }
    // singular matrices survive a refused inversion
    let s = 2 + c.rng.us(3);
    let mut sa = Arr::from_fn(s, s, |_, _| c.rng.range(-9, 9) as f32);
    let src = c.rng.us(s);
    let dst = (src + 1 + c.rng.us(s - 1)) % s;
    let f = c.rng.range(-2, 2) as f32;
    for j in 0..s {
        sa.d[dst][j] = sa.d[src][j] * f;
    }
    let mut sm = mk(&sa)?;
    c.hit("singular-inversion");
    if let Err(er) = sm.invert() {
        c.hit("singular-invert-refused");
        let g = rd(&sm)?;
        c.check(g.same(&sa), || format!("refused inversion ({er:?}) changed {} into {}", sa.show(), g.show()))?;
    }
    // inversion refused because of the huge size of the result's entries
    let big = Arr::from_fn(s, s, |_, _| (c.rng.sign() * c.rng.logu(1.0, 3.0e38)) as f32);
    let mut bm = mk(&big)?;
    c.hit("huge-inversion");
    if let Err(er) = bm.invert() {
        c.hit("huge-invert-refused");
        let g = rd(&bm)?;
        c.check(g.same(&big), || format!("refused inversion ({er:?}) changed {} into {}", big.show(), g.show()))?;
    }
    // quaternion component sets
    let q0 = [0.1f32, -0.2, 0.3, -0.4];
    let mut q = mkq(&q0)?;
    let mut four = [1.5f32, 2.5, 3.5, 4.5];
    four[c.rng.us(4)] = *c.rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
    let er = q.fillq(four[0], four[1], four[2], four[3]).is_err();
    c.check(er && rdq(&q)? == q0, || format!("rejected fillq({four:?}) left {:?}", rdq(&q)))?;
    Ok(())
}

pub const C05: &[Stratum] = &[
    Stratum { name: "programs", f: c05_programs, quick: 20_000, thorough: 800_000, need: &["rejected", "rejected:NotInit", "rejected:InvalidRow", "rejected:InvalidSize", "rejected:NotSameSize", "rejected:NotInversible"] },
    Stratum { name: "omitted", f: c05_omit, quick: 10_000, thorough: 400_000, need: &["history-with-rejections"] },
    Stratum { name: "targeted", f: c05_targeted, quick: 40_000, thorough: 1_000_000, need: &["rejected:add_row", "rejected:add_col", "rejected:del_row", "rejected:reinit", "retried", "singular-inversion", "huge-inversion"] },
];
