//! C25, C26: complex numbers and scalar utilities.
use crate::api::e;
#[cfg(feature = "std")]
use crate::api::{mk, mkv, Arr, Matrix, Vector};
use crate::core::*;
use crate::gen;
use crate::refm::*;
use dsp::complex::Complex;
#[cfg(feature = "std")]
use open_ahrs::ar::AR;
#[cfg(feature = "std")]
use open_ahrs::common::NumericalIntegrationMethod as NIM;
use utils::utils::*;

type Z = (f64, f64);

fn part(r: &mut Rng) -> f32 {
    match r.us(6) {
        0 => 0.0,
        1 => r.range(-5, 5) as f32,
        2 => (r.sign() * r.logu(1e-6, 1e-2)) as f32,
        3 => (r.sign() * r.logu(1e-2, 1e6)) as f32,
        _ => r.uni(-20.0, 20.0) as f32,
    }
}

fn mkz(z: (f32, f32)) -> Result<Complex, String> {
    e("Complex::new", Complex::new(z.0, z.1))
}
fn rdz(z: &Complex) -> Result<(f32, f32), String> {
    Ok((e("get_real_part", z.get_real_part())?, e("get_imaginary_part", z.get_imaginary_part())?))
}
fn same_z(a: (f32, f32), b: (f32, f32)) -> bool {
    a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
}

fn close_z(c: &mut Case, what: &str, g: (f32, f32), w: Z, tol: f64, ctx: &dyn Fn() -> String) -> Res {
    c.close(what, g.0 as f64, w.0, tol).map_err(|e| format!("{e} (real part): {what} {}", ctx()))?;
    c.close(what, g.1 as f64, w.1, tol).map_err(|e| format!("{e} (imaginary part): {what} {}", ctx()))
}

fn c25_pair(c: &mut Case) -> Res {
    let a = (part(&mut c.rng), part(&mut c.rng));
    let b = (part(&mut c.rng), part(&mut c.rng));
    let (za, zb) = (mkz(a)?, mkz(b)?);
    c.check(same_z(rdz(&za)?, a) && same_z(rdz(&zb)?, b), || format!("Complex::new({a:?}) reads {:?}", rdz(&za)))?;
    c.seen(mix(a.0.to_bits() as u64) ^ mix(1 + a.1.to_bits() as u64) ^ mix(2 + b.0.to_bits() as u64) ^ b.1.to_bits() as u64);
    c.sample(|| format!("{a:?} {b:?}"));
    let (x, y, u, v) = (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64);
    let ctx = || format!("of {a:?} and {b:?}");
    let (ma, mb) = (x.hypot(y), u.hypot(v));
    let dirt = (part(&mut c.rng), part(&mut c.rng));
    let mut d = mkz(dirt)?;
    e("add", d.add(&za, &zb))?;
    close_z(c, "sum", rdz(&d)?, (x + u, y + v), 2.0 * U * (ma + mb), &ctx)?;
    e("sub", d.sub(&za, &zb))?;
    close_z(c, "difference", rdz(&d)?, (x - u, y - v), 2.0 * U * (ma + mb), &ctx)?;
    e("mul", d.mul(&za, &zb))?;
    close_z(c, "product", rdz(&d)?, (x * u - y * v, x * v + y * u), 4.0 * U * ma * mb + 1e-40, &ctx)?;
    // destination previously an operand
    let mut t = za;
    let src = za;
    e("mul", t.mul(&src, &zb))?;
    let p = rdz(&t)?;
    close_z(c, "product-over-operand", p, (x * u - y * v, x * v + y * u), 4.0 * U * ma * mb + 1e-40, &ctx)?;
    let before = rdz(&d)?;
    let r = d.div(&za, &zb);
    let near = |q: f32| (q as f64).abs();
    let (nr, ni) = (near(b.0), near(b.1));
    if mb < EPS * 0.999 {
        c.hit("division-refused");
        c.check(r.is_err() && same_z(rdz(&d)?, before), || format!("division {} accepted: {r:?}", ctx()))?;
    } else if nr > EPS * 1.001 || ni > EPS * 1.001 {
        c.hit("division");
        e("div", r).map_err(|e| format!("{e}: {}", ctx()))?;
        let q = mb * mb;
        let w = ((x * u + y * v) / q, (y * u - x * v) / q);
        close_z(c, "quotient", rdz(&d)?, w, 12.0 * U * ma / mb + 1e-30, &ctx)?;
    }
    c.check(same_z(rdz(&za)?, a) && same_z(rdz(&zb)?, b), || format!("an operand was modified {}", ctx()))?;
    // swap
    let (mut s, mut t) = (za, zb);
    e("swap", s.swap(&mut t))?;
    c.hit("swap");
    c.check(same_z(rdz(&s)?, b) && same_z(rdz(&t)?, a), || format!("swap {} gives {:?} {:?}", ctx(), rdz(&s), rdz(&t)))
}

fn c25_single(c: &mut Case) -> Res {
    let a = (part(&mut c.rng), part(&mut c.rng));
    let (x, y) = (a.0 as f64, a.1 as f64);
    let mut z = mkz(a)?;
    c.seen(mix(a.0.to_bits() as u64) ^ a.1.to_bits() as u64);
    let ctx = || format!("of {a:?}");
    let m = e("calculate_module", z.calculate_module())? as f64;
    let w = x.hypot(y);
    if w < EPS * 0.999 {
        c.hit("modulus-zero");
        c.check(m == 0.0, || format!("modulus {} is {m}", ctx()))?;
    } else if w > EPS * 1.001 {
        c.hit("modulus");
        c.close("modulus", m, w, 6.0 * U * w).map_err(|e| format!("{e} {}", ctx()))?;
    }
    c.check(same_z(rdz(&z)?, a), || format!("the modulus modified {a:?}"))?;
    e("neg", z.neg())?;
    c.check(rdz(&z)? == (-a.0, -a.1), || format!("negation {} is {:?}", ctx(), rdz(&z)))?;
    let mut z = mkz(a)?;
    e("conjugate", z.conjugate())?;
    c.check(rdz(&z)? == (a.0, -a.1), || format!("conjugate {} is {:?}", ctx(), rdz(&z)))?;
    // exponential
    let ar = (c.rng.uni(-12.0, 12.0) as f32, if c.rng.chance(0.3) { part(&mut c.rng).clamp(-50.0, 50.0) } else { c.rng.uni(-20.0, 20.0) as f32 });
    let mut z = mkz(ar)?;
    e("expo", z.expo())?;
    let (r, t) = ((ar.0 as f64).exp(), ar.1 as f64);
    c.hit(if r < EPS { "exponential-small" } else { "exponential" });
    let tol = if r < EPS * 1.001 { 1.01e-4 } else { r * 2e-6 };
    close_z(c, "exponential", rdz(&z)?, (r * t.cos(), r * t.sin()), tol, &|| format!("of {ar:?}"))?;
    // polar
    let (rr, th) = (part(&mut c.rng), c.rng.uni(-25.0, 25.0) as f32);
    let mut z = mkz(a)?;
    e("convert_from_polar", z.convert_from_polar(rr, th))?;
    c.hit("polar");
    let (r, t) = (rr as f64, th as f64);
    close_z(c, "polar", rdz(&z)?, (r * t.cos(), r * t.sin()), r.abs() * 4.0 * U + 1e-40, &|| format!("{rr} at {th}"))?;
    // components
    let n = (part(&mut c.rng), part(&mut c.rng));
    let mut z = mkz(a)?;
    e("set_real_part", z.set_real_part(n.0))?;
    c.check(same_z(rdz(&z)?, (n.0, a.1)), || "set_real_part".into())?;
    e("set_imaginary_part", z.set_imaginary_part(n.1))?;
    c.check(same_z(rdz(&z)?, n), || "set_imaginary_part".into())?;
    // non-finite
    for b in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
        c.hit("non-finite-refused");
        let want = if b.is_nan() { UtilsError::Nan } else { UtilsError::Inf };
        let rs = [Complex::new(b, n.1).map(|_| ()), Complex::new(n.0, b).map(|_| ()), z.set_real_part(b), z.set_imaginary_part(b), z.convert_from_polar(b, th), z.convert_from_polar(rr, b)];
        c.check(rs.iter().all(|r| r.as_ref().err() == Some(&want)), || format!("{b} accepted or misclassified: {rs:?}"))?;
        c.check(same_z(rdz(&z)?, n), || format!("a refused {b} modified the number: {:?}", rdz(&z)))?;
    }
    Ok(())
}

/// Operands of any magnitude: what is stored is finite, what cannot be stored is refused.
fn c25_huge(c: &mut Case) -> Res {
    let any = |r: &mut Rng| match r.us(4) {
        0 => part(r),
        1 => (r.sign() * r.logu(1e18, 3.4e38)) as f32,
        2 => (r.sign() * f32::MAX as f64 * r.uni(0.4, 1.0)) as f32,
        _ => gen::any_finite(r),
    };
    let a = (any(&mut c.rng), any(&mut c.rng));
    let b = (any(&mut c.rng), any(&mut c.rng));
    let (za, zb) = (mkz(a)?, mkz(b)?);
    c.seen(mix(a.0.to_bits() as u64) ^ mix(1 + a.1.to_bits() as u64) ^ mix(2 + b.0.to_bits() as u64) ^ b.1.to_bits() as u64);
    let (x, y, u, v) = (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64);
    let dirt = (part(&mut c.rng), part(&mut c.rng));
    let max = f32::MAX as f64;
    for op in 0..4 {
        let mut d = mkz(dirt)?;
        let r = match op {
            0 => d.add(&za, &zb),
            1 => d.sub(&za, &zb),
            2 => d.mul(&za, &zb),
            _ => d.div(&za, &zb),
        };
        let what = ["sum", "difference", "product", "quotient"][op];
        let w = match op {
            0 => (x + u, y + v),
            1 => (x - u, y - v),
            2 => (x * u - y * v, x * v + y * u),
            _ => ((x * u + y * v) / (u * u + v * v), (y * u - x * v) / (u * u + v * v)),
        };
        let got = rdz(&d)?;
        c.check(got.0.is_finite() && got.1.is_finite(), || format!("{what} of {a:?} and {b:?} left {got:?} ({r:?})"))?;
        if r.is_err() {
            c.hit("overflow-refused");
            c.check(same_z(got, dirt), || format!("the refused {what} of {a:?} and {b:?} changed {dirt:?} to {got:?}"))?;
        } else {
            c.check(!(w.0.abs() > max * 1.001 || w.1.abs() > max * 1.001), || format!("{what} of {a:?} and {b:?} accepted with {got:?}"))?;
        }
        if op < 2 && w.0.abs() < max * 0.999 && w.1.abs() < max * 0.999 {
            c.hit("large-sum");
            e(what, r).map_err(|e| format!("{e}: {a:?} and {b:?}"))?;
            close_z(c, "large sum", got, w, 2.0 * U * (x.hypot(y) + u.hypot(v)) + 1e-44, &|| format!("of {a:?} and {b:?}"))?;
        }
    }
    c.check(same_z(rdz(&za)?, a) && same_z(rdz(&zb)?, b), || format!("an operand {a:?} {b:?} was modified"))?;
    // exponential
    let mut z = za;
    let r = z.expo();
    let got = rdz(&z)?;
    c.check(got.0.is_finite() && got.1.is_finite(), || format!("the exponential of {a:?} left {got:?} ({r:?})"))?;
    if r.is_err() {
        c.check(same_z(got, a), || format!("the refused exponential of {a:?} left {got:?}"))?;
    }
    if a.0 > 89.0 {
        c.hit("exponential-overflow");
        c.check(r.is_err(), || format!("the exponential of {a:?} accepted with {got:?}"))?;
    }
    // modulus
    let mut z = za;
    if let Ok(m) = z.calculate_module() {
        c.check(m.is_finite(), || format!("the modulus of {a:?} is {m}"))?;
    }
    c.check(same_z(rdz(&z)?, a), || format!("the modulus modified {a:?}"))
}

pub const C25: &[Stratum] = &[
    Stratum { name: "pair", f: c25_pair, quick: 200_000, thorough: 10_000_000, need: &["division", "division-refused", "swap"] },
    Stratum { name: "single", f: c25_single, quick: 200_000, thorough: 10_000_000, need: &["modulus", "modulus-zero", "exponential", "exponential-small", "polar", "non-finite-refused"] },
    Stratum { name: "huge", f: c25_huge, quick: 100_000, thorough: 5_000_000, need: &["overflow-refused", "large-sum", "exponential-overflow"] },
];

// ---------------------------------------------------------------- C26

const SPECIAL: [f32; 22] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.5,
    1e-4,
    -1e-4,
    2.0,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    -f32::MIN_POSITIVE,
    1e-45,
    -1e-45,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    3.4e38,
    -3.4e38,
    1.0000001,
    0.99999994,
    10.0,
];

fn float_triple(c: &mut Case, x: f32, y: f32, z: f32) -> Res {
    c.seen(mix(x.to_bits() as u64) ^ mix(1 + y.to_bits() as u64) ^ z.to_bits() as u64);
    let v = is_valid_value(x);
    let want = if x.is_nan() { Err(UtilsError::Nan) } else if x.is_infinite() { Err(UtilsError::Inf) } else { Ok(()) };
    c.check(v == want, || format!("is_valid_value({x}) is {v:?}"))?;
    // tolerance comparison
    let a = allclose(x, y, z);
    if x.is_finite() && y.is_finite() {
        if !z.is_nan() {
            c.hit("allclose");
            let d = (x - y).abs();
            let w = d <= z;
            c.check(a == Ok(w), || format!("allclose({x},{y},{z}) is {a:?}"))?;
        }
    } else {
        c.hit("allclose-refused");
        c.check(a.is_err(), || format!("allclose({x},{y},{z}) is {a:?}"))?;
    }
    c.check(in_range(x, y, z) == (x >= y && x <= z), || format!("in_range({x},{y},{z})"))?;
    if !x.is_nan() && !y.is_nan() {
        let (mn, mx) = (minf(x, y), maxf(x, y));
        c.check(mn == if x < y { x } else { y } && mx == if x > y { x } else { y }, || format!("minf/maxf({x},{y}) = {mn} {mx}"))?;
        if !z.is_nan() && y <= z {
            c.hit("clip");
            let k = clip(x, y, z);
            let w = if x < y { y } else if x > z { z } else { x };
            c.check(k == w, || format!("clip({x},{y},{z}) = {k}"))?;
        }
    }
    if !x.is_nan() {
        let s = x.sign();
        let w = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
        c.check(s == w, || format!("sign({x}) = {s}"))?;
        let d = x as f64;
        c.check(d.sign() == w as f64, || format!("sign({d}f64) = {}", d.sign()))?;
    }
    Ok(())
}

fn c26_special(c: &mut Case) -> Res {
    let x = SPECIAL[c.idx as usize % SPECIAL.len()];
    for y in SPECIAL {
        for z in SPECIAL {
            float_triple(c, x, y, z)?;
        }
    }
    Ok(())
}

fn c26_random(c: &mut Case) -> Res {
    let x = gen::wild(&mut c.rng);
    let y = if c.rng.chance(0.3) { x } else { gen::wild(&mut c.rng) };
    let z = if c.rng.chance(0.3) { (x - y).abs() } else { gen::wild(&mut c.rng) };
    float_triple(c, x, y, z)?;
    // neighbours of the tolerance boundary
    let (x, y) = (gen::moderate(&mut c.rng), gen::moderate(&mut c.rng));
    let d = (x - y).abs();
    for t in [d, f32::from_bits(d.to_bits().wrapping_add(1)), if d > 0.0 { f32::from_bits(d.to_bits() - 1) } else { -1.0 }] {
        float_triple(c, x, y, t)?;
    }
    Ok(())
}

fn c26_integers(c: &mut Case) -> Res {
    let x = (c.idx % 256) as u8;
    for y in 0..=255u8 {
        c.check(min(x, y) == if x < y { x } else { y } && max(x, y) == if x > y { x } else { y }, || format!("min/max({x},{y})"))?;
        let (a, b) = (x as i8, y as i8);
        c.check(min(a, b) == if a < b { a } else { b } && max(a, b) == if a > b { a } else { b }, || format!("min/max({a},{b})"))?;
        c.check(minf(x, y) == x.min(y) && maxf(a, b) == a.max(b), || format!("minf/maxf({x},{y})"))?;
        let z = y.wrapping_add(37);
        let (lo, hi) = if y < z { (y, z) } else { (z, y) };
        c.check(in_range(x, lo, hi) == (lo <= x && x <= hi), || format!("in_range({x},{lo},{hi})"))?;
        c.check(clip(x, lo, hi) == x.clamp(lo, hi), || format!("clip({x},{lo},{hi}) = {}", clip(x, lo, hi)))?;
        c.check(clip(x, lo, lo) == lo && in_range(lo, lo, hi) && in_range(hi, lo, hi), || format!("bounds {lo} {hi}"))?;
        c.check((a as i32).sign() == (a as i32).signum() && (b as i32 * 1_000_003).sign() == (b as i32).signum(), || format!("sign of {a} or {b}"))?;
    }
    c.check(i32::MIN.sign() == -1 && i32::MAX.sign() == 1 && 0i32.sign() == 0, || "sign at the integer limits".into())?;
    c.hit("integers");
    c.seen(x as u64);
    let mut f = 1u64;
    for n in 0..=20u8 {
        if n > 1 {
            f *= n as u64;
        }
        c.check(factorial(n) == f, || format!("{n}! = {}", factorial(n)))?;
    }
    c.hit("factorial");
    c.check(f32::from_i8(x as i8) == x as i8 as f32 && i32::from_i8(x as i8) == x as i8 as i32 && f64::from_i8(x as i8) == x as i8 as f64, || format!("from_i8({})", x as i8))
}

pub const C26: &[Stratum] = &[
    Stratum { name: "special", f: c26_special, quick: 22, thorough: 22, need: &["allclose", "allclose-refused", "clip"] },
    Stratum { name: "random", f: c26_random, quick: 400_000, thorough: 20_000_000, need: &["allclose", "allclose-refused", "clip"] },
    Stratum { name: "integers", f: c26_integers, quick: 256, thorough: 256, need: &["integers", "factorial"] },
];

// ---------------------------------------------------------------- C33

/// Objects printed by the child process for one case.
#[cfg(feature = "std")]
fn printed(seed: u64, i: u64) -> (&'static str, Arr) {
    let mut r = Rng::new(mix(seed ^ mix(i)));
    let (a, b) = gen::dims(&mut r);
    let what = *r.pick(&["matrix", "matrix", "matrix", "vector", "vector", "attitude"]);
    let (a, b) = match what {
        "matrix" => (a, b),
        "vector" => (a, 1),
        _ => (4, 1),
    };
    let f: fn(&mut Rng) -> f32 = *r.pick(&[gen::moderate as fn(&mut Rng) -> f32, gen::any_finite]);
    let mut m = gen::arr(&mut r, a, b, f);
    if what == "attitude" {
        let q = gen::unit_q(&mut r);
        (0..4).for_each(|k| m.d[k][0] = q[k] as f32);
    }
    (what, m)
}

#[cfg(feature = "std")]
const PRINTS: u64 = 200;

/// Child side: prints every object through the library between marker lines.
#[cfg(feature = "std")]
pub fn print_child(seed: u64) -> i32 {
    unsafe {
        let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    let mut code = 0;
    for i in 0..PRINTS {
        let (what, a) = printed(seed, i);
        println!("#begin {i}");
        let v: Vec<f32> = (0..a.r).map(|k| a.d[k][0]).collect();
        let ok = match what {
            "vector" => match mkv(&v) {
                Ok(v) => v.print().is_ok() && Vector::<f32>::new().print().is_err(),
                Err(_) => false,
            },
            "matrix" => match mk(&a) {
                Ok(m) => m.print().is_ok() && Matrix::new().print().is_err(),
                Err(_) => false,
            },
            _ => match AR::new() {
                Ok(mut f) => {
                    f.print_attitude().is_err()
                        && f.init(v[0], v[1], v[2], v[3], &crate::world::gcfg(&[1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]), 0.01, NIM::ClosedForm, 1).is_ok()
                        && f.print_attitude().is_ok()
                }
                Err(_) => false,
            },
        };
        println!("#end {i} {ok}");
        if !ok {
            code = 1;
        }
    }
    code
}

#[cfg(feature = "std")]
fn c33_print(c: &mut Case) -> Res {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    let seed = c.rng.u64();
    let exe = std::env::current_exe().expect("own executable");
    let mut ch = std::process::Command::new(exe)
        .args(["print-child", &seed.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("child process");
    let mut text = Vec::new();
    let mut o = ch.stdout.take().expect("pipe");
    let n = o.by_ref().take(8 << 20).read_to_end(&mut text).expect("read");
    drop(o);
    if n >= 8 << 20 {
        let _ = ch.kill();
        let _ = ch.wait();
        return Err("printing 200 small objects produced more than 8 MB of text".into());
    }
    let st = ch.wait().expect("wait");
    if st.signal() == Some(libc::SIGXCPU) {
        return Err("printing 200 small objects used more than 60 s of CPU time".into());
    }
    c.check(st.signal().is_none(), || format!("printing died from signal {:?}", st.signal()))?;
    let text = String::from_utf8_lossy(&text).into_owned();
    let mut lines = text.lines();
    for i in 0..PRINTS {
        let (what, a) = printed(seed, i);
        c.check(lines.next() == Some(&format!("#begin {i}")), || format!("output of printing stops before object {i}"))?;
        let mut rows: Vec<Vec<String>> = Vec::new();
        let mut end = String::new();
        for l in lines.by_ref() {
            if l.starts_with("#end") {
                end = l.to_string();
                break;
            }
            rows.push(l.split_whitespace().map(|s| s.to_string()).collect());
        }
        let ctx = || format!("{what} {} prints as {rows:?}", a.show());
        c.check(end == format!("#end {i} true"), || format!("print of an initialised {what} failed or print of an uninitialised one succeeded: {}", ctx()))?;
        c.check(rows.len() == a.r + 1 && rows[..a.r].iter().all(|r| r.len() == a.c) && rows[a.r].is_empty(), || format!("wrong shape: {}", ctx()))?;
        for k in 0..a.r {
            for j in 0..a.c {
                let t = &rows[k][j];
                let v: f64 = match t.parse() {
                    Ok(v) => v,
                    Err(_) => return Err(format!("not a number: {}", ctx())),
                };
                c.check(t.len() > 4 && t.as_bytes()[t.len() - 4] == b'.', || format!("not three decimals: {}", ctx()))?;
                let want = a.d[k][j] as f64;
                c.close("printed", v, want, 0.00051 + 1e-6 * want.abs()).map_err(|e| format!("{e}: {}", ctx()))?;
            }
        }
        c.hit(what);
        if a.r > 1 && a.c > 1 {
            c.hit("many-rows-and-columns");
        }
        c.seen(a.hash());
        c.sample(|| ctx());
    }
    Ok(())
}

#[cfg(feature = "std")]
pub const C33: &[Stratum] = &[Stratum { name: "print", f: c33_print, quick: 40, thorough: 2_000, need: &["vector", "matrix", "attitude", "many-rows-and-columns"] }];
