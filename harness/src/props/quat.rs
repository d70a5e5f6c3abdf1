//! C14-C18: quaternion algebra, exponential and logarithm, rotations, conversions, Euler angles.
use crate::api::*;
use crate::core::*;
use crate::gen;
use crate::refm::*;

fn hashq(q: &[f32; 4]) -> u64 {
    q.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64))
}

fn any_q(r: &mut Rng) -> [f32; 4] {
    match r.us(10) {
        0 => *r.pick(&[
            [1.0f32, 0.0, 0.0, 0.0],
            [0.0, 1.0, 0.0, 0.0],
            [0.0, 0.0, 1.0, 0.0],
            [0.0, 0.0, 0.0, 1.0],
            [-1.0, 0.0, 0.0, 0.0],
            [0.0, -1.0, 0.0, 0.0],
            [0.0, 0.0, -1.0, 0.0],
            [0.0, 0.0, 0.0, -1.0],
            [0.0, 0.0, 0.0, 0.0],
        ]),
        1 => [0.0, gen::moderate(r), gen::moderate(r), gen::moderate(r)],
        2 => [gen::moderate(r), 0.0, 0.0, 0.0],
        3 => q32(&gen::unit_q(r)),
        4 => {
            // near-threshold components
            let mut q = q32(&gen::unit_q(r));
            let k = r.us(4);
            q[k] = (r.sign() * r.logu(1e-5, 1e-3)) as f32;
            q
        }
        5 => {
            // far from unit size; three factors stay representable
            let s = if r.bool() { r.logu(1e-9, 1e-2) } else { r.logu(1e2, 3e11) };
            q32(&qscale(gen::unit_q(r), s))
        }
        6 => small_int(r),
        _ => [gen::moderate(r), gen::moderate(r), gen::moderate(r), gen::moderate(r)],
    }
}

/// Small integers, often equal ones.
fn small_int(r: &mut Rng) -> [f32; 4] {
    let k = *r.pick(&[1i64, 3, 6]);
    if r.chance(0.3) {
        let x = r.range(-k, k) as f32;
        let mut q = [x; 4];
        q[r.us(4)] *= *r.pick(&[1.0f32, 1.0, -1.0]);
        q
    } else {
        [0; 4].map(|_| r.range(-k, k) as f32)
    }
}

fn close_q(c: &mut Case, what: &str, g: &[f32; 4], w: Q4, tol: f64, ctx: &dyn Fn() -> String) -> Res {
    for i in 0..4 {
        c.close(what, g[i] as f64, w[i], tol).map_err(|e| format!("{e}: {what} gives {g:?}, expected {w:?}; {}", ctx()))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14_product(c: &mut Case) -> Res {
    let (p, q) = (any_q(&mut c.rng), any_q(&mut c.rng));
    let (vp, vq) = (mkq(&p)?, mkq(&q)?);
    c.seen(hashq(&p) ^ mix(hashq(&q)));
    c.sample(|| format!("{p:?} * {q:?}"));
    let want = qmul(q64(&p), q64(&q));
    let mag = qnorm(q64(&p)) * qnorm(q64(&q));
    let tol = 8.0 * U * mag * 2.0 + 8.0 * TINY;
    let dirt = any_q(&mut c.rng);
    let mut d = mkq(&dirt)?;
    e("quaternion mul", Quaternion::mul(&mut d, &vp, &vq))?;
    let g = rdq(&d)?;
    close_q(c, "product", &g, want, tol, &|| format!("{p:?} * {q:?}"))?;
    let n = rdq(&e("quaternion mul_new", Quaternion::mul_new(&vp, &vq))?)?;
    c.check(eq_v(&n, &g), || format!("the forms of the product differ: {g:?} / {n:?} for {p:?} * {q:?}"))?;
    // destination holds an operand's value
    let mut d = e("duplicate", vp.duplicate())?;
    let src = e("duplicate", d.duplicate())?;
    e("quaternion mul", Quaternion::mul(&mut d, &src, &vq))?;
    c.check(eq_v(&rdq(&d)?, &g), || format!("product stored over its first operand differs for {p:?} * {q:?}"))?;
    let mut d = e("duplicate", vq.duplicate())?;
    let src = e("duplicate", d.duplicate())?;
    e("quaternion mul", Quaternion::mul(&mut d, &vp, &src))?;
    c.check(eq_v(&rdq(&d)?, &g), || format!("product stored over its second operand differs for {p:?} * {q:?}"))?;
    c.check(same_v(&rdq(&vp)?, &p) && same_v(&rdq(&vq)?, &q), || "the product modified an operand".into())?;
    c.hit("product");
    // (pq)* = q* p*
    let cp = e("conjugate_new", vp.conjugate_new())?;
    let cq = e("conjugate_new", vq.conjugate_new())?;
    let l = rdq(&e("mul_new", Quaternion::mul_new(&cq, &cp))?)?;
    close_q(c, "conjugate-of-product", &l, qconj(want), tol, &|| format!("{p:?} * {q:?}"))?;
    // associativity
    let r = any_q(&mut c.rng);
    let vr = mkq(&r)?;
    let (Ok(pq), Ok(qr)) = (Quaternion::mul_new(&vp, &vq), Quaternion::mul_new(&vq, &vr)) else { return Err("product failed".into()) };
    let a = rdq(&e("mul_new", Quaternion::mul_new(&pq, &vr))?)?;
    let b = rdq(&e("mul_new", Quaternion::mul_new(&vp, &qr))?)?;
    let w = qmul(want, q64(&r));
    let tol = 40.0 * U * mag * qnorm(q64(&r)) + 1e-40;
    close_q(c, "associativity", &a, w, tol, &|| format!("({p:?}{q:?}){r:?}"))?;
    close_q(c, "associativity", &b, w, tol, &|| format!("{p:?}({q:?}{r:?})"))
}

fn c14_single(c: &mut Case) -> Res {
    let q = any_q(&mut c.rng);
    let mut v = mkq(&q)?;
    c.seen(hashq(&q));
    // access
    let (w, x, y, z) = (v.get_qw(), v.get_qx(), v.get_qy(), v.get_qz());
    c.check(w == Ok(q[0]) && x == Ok(q[1]) && y == Ok(q[2]) && z == Ok(q[3]), || format!("components of {q:?}: {w:?} {x:?} {y:?} {z:?}"))?;
    let vp = rdv(&e("get_vector_part", v.get_vector_part())?)?;
    c.check(eq_v(&vp, &q[1..]), || format!("vector part of {q:?} is {vp:?}"))?;
    let n = any_q(&mut c.rng);
    for k in 0..4 {
        let mut s = mkq(&q)?;
        let r = match k {
            0 => s.set_qw(n[0]),
            1 => s.set_qx(n[1]),
            2 => s.set_qy(n[2]),
            _ => s.set_qz(n[3]),
        };
        let mut want = q;
        want[k] = n[k];
        c.check(r.is_ok() && same_v(&rdq(&s)?, &want), || format!("setting component {k} of {q:?} to {} gives {:?}", n[k], rdq(&s)))?;
    }
    let mut s = mkq(&q)?;
    c.check(s.fillq(n[0], n[1], n[2], n[3]).is_ok() && same_v(&rdq(&s)?, &n), || format!("fillq({n:?}) gives {:?}", rdq(&s)))?;
    c.check(s.fill_identity().is_ok() && eq_v(&rdq(&s)?, &[1.0, 0.0, 0.0, 0.0]), || "fill_identity does not give the identity".into())?;
    // conjugate
    let want = [q[0], -q[1], -q[2], -q[3]];
    let cn = rdq(&e("conjugate_new", v.conjugate_new())?)?;
    c.check(eq_v(&cn, &want) && same_v(&rdq(&v)?, &q), || format!("conjugate of {q:?} is {cn:?}"))?;
    let mut s = mkq(&q)?;
    e("conjugate", s.conjugate())?;
    c.check(eq_v(&rdq(&s)?, &want), || format!("in-place conjugate of {q:?} is {:?}", rdq(&s)))?;
    // inverse
    let nn = qnorm(q64(&q));
    let mut inv = mkq(&q)?;
    e("invert", inv.invert())?;
    let gi = rdq(&inv)?;
    if nn > EPS * 1.001 {
        c.hit("inverse");
        let w = qscale(qconj(q64(&q)), 1.0 / (nn * nn));
        close_q(c, "inverse", &gi, w, 12.0 * U / nn, &|| format!("inverse of {q:?}"))?;
        let one = rdq(&e("mul_new", Quaternion::mul_new(&v, &inv))?)?;
        close_q(c, "q*inverse(q)", &one, [1.0, 0.0, 0.0, 0.0], 1e-5, &|| format!("{q:?}"))?;
    } else if nn < EPS * 0.999 {
        c.hit("inverse-of-zero");
        c.check(eq_v(&gi, &[0.0; 4]), || format!("inverse of the near-zero {q:?} is {gi:?}"))?;
    }
    // classification
    let small = |x: f32| -> Option<bool> {
        let d = (x as f64).abs();
        if d <= EPS * 0.9999 {
            Some(true)
        } else if d > EPS * 1.0001 {
            Some(false)
        } else {
            None
        }
    };
    let all = |v: &[Option<bool>]| -> Option<bool> {
        if v.iter().any(|x| *x == Some(false)) {
            Some(false)
        } else if v.iter().all(|x| *x == Some(true)) {
            Some(true)
        } else {
            None
        }
    };
    let sv = [small(q[1]), small(q[2]), small(q[3])];
    let dn = (nn - 1.0).abs();
    let unit = if dn < EPS - 1e-6 { Some(true) } else if dn > EPS + 1e-6 { Some(false) } else { None };
    let one = {
        let d = (q[0] as f64 - 1.0).abs();
        if d < EPS - 1e-6 {
            Some(true)
        } else if d > EPS + 1e-6 {
            Some(false)
        } else {
            None
        }
    };
    for (name, got, want) in [
        ("is_real", v.is_real(), all(&sv)),
        ("is_pure", v.is_pure(), small(q[0])),
        ("is_versor", v.is_versor(), unit),
        ("is_identity", v.is_identity(), all(&[one, sv[0], sv[1], sv[2]])),
        ("is_quaternion", v.is_quaternion(), Some(true)),
    ] {
        if let Some(w) = want {
            c.hit(&format!("{name}:{w}"));
            c.check(got == Ok(w), || format!("{name} of {q:?} answers {got:?}"))?;
        }
    }
    // norm multiplicativity through the library's own norm
    let p = any_q(&mut c.rng);
    let vp = mkq(&p)?;
    let pq = e("mul_new", Quaternion::mul_new(&v, &vp))?;
    let np = qnorm(q64(&p));
    if np > 1e-3 && nn > 1e-3 && np * nn > 1e-3 && np * nn < 1e19 {
        c.hit("norm-product");
        let g = e("calculate_norm", pq.calculate_norm())? as f64;
        c.close("norm-product", g, np * nn, 16.0 * U * np * nn)?;
    }
    let _ = v.fill(0.0);
    Ok(())
}

/// Near-identity and near-unit quaternions for the classification thresholds.
fn c14_classify(c: &mut Case) -> Res {
    let d = |r: &mut Rng| if r.chance(0.4) { 0.0 } else { r.sign() * r.logu(1e-5, 1e-2) };
    let base = *c.rng.pick(&[[1.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.6, 0.8]]);
    let mut q = [0.0f32; 4];
    for i in 0..4 {
        q[i] = (base[i] + d(&mut c.rng)) as f32;
    }
    let v = mkq(&q)?;
    c.seen(hashq(&q));
    let dev = [q[0] as f64 - 1.0, q[1] as f64, q[2] as f64, q[3] as f64];
    let m = dev.iter().map(|x| x.abs()).fold(0.0, f64::max);
    if (m - EPS).abs() > 1e-6 {
        let w = m < EPS;
        c.hit(if w { "near-identity:true" } else { "near-identity:false" });
        let g = v.is_identity();
        c.check(g == Ok(w), || format!("is_identity of {q:?} answers {g:?}"))?;
    }
    let nn = (qnorm(q64(&q)) - 1.0).abs();
    if (nn - EPS).abs() > 1e-6 {
        let w = nn < EPS;
        c.hit(if w { "near-unit:true" } else { "near-unit:false" });
        let g = v.is_versor();
        c.check(g == Ok(w), || format!("is_versor of {q:?} answers {g:?}"))?;
    }
    Ok(())
}

fn c14_sizes(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(3);
    let vals = gen::vecf(&mut c.rng, n, gen::moderate);
    let mut v = mkv(&vals)?;
    let q = mkq(&any_q(&mut c.rng))?;
    let mut d = mkq(&[1.0, 2.0, 3.0, 4.0])?;
    c.seen(n as u64);
    c.hit("wrong-size");
    let dcm = mk(&Arr::of(&M::eye(3)))?;
    c.check(v.is_quaternion() == Ok(false), || format!("a vector of {n} is a quaternion"))?;
    let errs = [
        v.is_real().is_err(),
        v.is_pure().is_err(),
        v.is_versor().is_err(),
        v.is_identity().is_err(),
        v.get_qw().is_err(),
        v.get_qx().is_err(),
        v.get_qy().is_err(),
        v.get_qz().is_err(),
        v.set_qw(1.0).is_err(),
        v.set_qx(1.0).is_err(),
        v.set_qy(1.0).is_err(),
        v.set_qz(1.0).is_err(),
        v.get_vector_part().is_err(),
        v.fillq(1.0, 2.0, 3.0, 4.0).is_err(),
        v.conjugate().is_err(),
        v.conjugate_new().is_err(),
        Quaternion::mul(&mut d, &v, &q).is_err(),
        Quaternion::mul(&mut d, &q, &v).is_err(),
        Quaternion::mul(&mut v, &q, &q).is_err(),
        Quaternion::mul_new(&v, &q).is_err(),
        Quaternion::mul_new(&q, &v).is_err(),
        Quaternion::fill_identity(&mut v).is_err(),
        v.invert().is_err(),
        v.convert_to_dcm().is_err(),
        v.exp().is_err(),
        v.exp_new().is_err(),
        v.hughes(&dcm).is_err(),
        v.chiaverini(&dcm).is_err(),
        v.sarabandi(&dcm, None).is_err(),
        v.convert_to_euler().is_err(),
    ];
    c.check(errs.iter().all(|x| *x), || format!("a quaternion operation accepted a vector of {n} components: {errs:?}"))?;
    c.check(same_v(&rdv(&v)?, &vals) && eq_v(&rdv(&d)?, &[1.0, 2.0, 3.0, 4.0]), || "a rejected quaternion operation modified its operand".into())
}

pub const C14: &[Stratum] = &[
    Stratum { name: "product", f: c14_product, quick: 100_000, thorough: 5_000_000, need: &["product"] },
    Stratum {
        name: "single",
        f: c14_single,
        quick: 100_000,
        thorough: 4_000_000,
        need: &["inverse", "inverse-of-zero", "norm-product", "is_real:true", "is_real:false", "is_pure:true", "is_pure:false", "is_versor:true", "is_versor:false", "is_identity:true", "is_identity:false"],
    },
    Stratum { name: "classify", f: c14_classify, quick: 60_000, thorough: 2_000_000, need: &["near-identity:true", "near-identity:false", "near-unit:true", "near-unit:false"] },
    Stratum { name: "sizes", f: c14_sizes, quick: 300, thorough: 5000, need: &["wrong-size"] },
];

// ---------------------------------------------------------------- C15

fn c15_exp(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let w = match r.us(5) {
        0 => 0.0,
        1 => r.sign() * r.logu(1e-6, 1e-2),
        2 => r.range(-6, 6) as f64,
        _ => r.uni(-20.0, 20.0),
    };
    let len = match r.us(6) {
        0 => 0.0,
        1 => r.logu(1e-6, 1e-2),
        2 => r.range(0, 12) as f64 * std::f64::consts::FRAC_PI_2,
        3 => r.range(0, 12) as f64,
        _ => r.uni(0.0, 20.0),
    };
    let n = gen::unit_v(r);
    let q = if r.chance(0.1) { small_int(r) } else { [w as f32, (n[0] * len) as f32, (n[1] * len) as f32, (n[2] * len) as f32] };
    c.seen(hashq(&q));
    c.sample(|| format!("exp {q:?}"));
    let qd = q64(&q);
    let l = vnorm([qd[1], qd[2], qd[3]]);
    let ew = qd[0].exp();
    let want = if l == 0.0 { [ew, 0.0, 0.0, 0.0] } else { [ew * l.cos(), ew * qd[1] / l * l.sin(), ew * qd[2] / l * l.sin(), ew * qd[3] / l * l.sin()] };
    let small_v = q[1..].iter().all(|x| x.abs() <= 1.01e-4);
    let small_w = q[0].abs() <= 1.01e-4;
    let tol = ew * (6e-6 + 4e-7 * l + if small_v { 2e-4 } else { 0.0 } + if small_w { 1.1e-4 } else { 0.0 });
    let v = mkq(&q)?;
    let g = rdq(&e("exp_new", v.exp_new()).map_err(|e| format!("{e}: {q:?}"))?)?;
    close_q(c, "exp_new", &g, want, tol, &|| format!("exp of {q:?}"))?;
    c.check(same_v(&rdq(&v)?, &q), || "exp_new modified its operand".into())?;
    let mut v = v;
    e("exp", v.exp()).map_err(|e| format!("{e}: {q:?}"))?;
    let p = rdq(&v)?;
    close_q(c, "exp", &p, want, tol, &|| format!("in-place exp of {q:?}"))?;
    c.check(eq_v(&p, &g), || format!("the two forms of exp differ for {q:?}: {p:?} / {g:?}"))?;
    c.hit(match (l < 1e-4, q[0].abs() < 1e-4) {
        (true, true) => "exp-zero",
        (true, false) => "exp-real",
        (false, true) => "exp-pure",
        _ => "exp-general",
    });
    if l.cos().abs() < 1e-4 && !small_w {
        c.hit("exp-quarter-turn");
    }
    Ok(())
}

fn c15_log(c: &mut Case) -> Res {
    let mut n = gen::unit_v(&mut c.rng);
    let mut th = match c.rng.us(5) {
        0 => 0.0,
        1 => c.rng.logu(1e-7, 1.0),
        2 => c.rng.uni(2.5, 3.0),
        _ => c.rng.uni(0.0, 3.0),
    };
    let mut m = qdcm(axis_angle(n, th));
    if c.rng.chance(0.1) {
        // quarter and third turns whose matrix is a signed permutation
        let v = [c.rng.range(-1, 1) as f64, c.rng.range(-1, 1) as f64, c.rng.range(-1, 1) as f64];
        let l = vnorm(v);
        if l > 0.0 && l != 2f64.sqrt() {
            th = 2.0 * l.atan2(1.0);
            n = v.map(|x| x / l);
            m = qdcm(axis_angle(n, th));
            m = M::from_fn(3, 3, |i, j| m.a[i][j].round());
            c.hit("log-permutation");
        }
    }
    let a = Arr::of(&m);
    c.seen(a.hash());
    let w = M::from_fn(3, 3, |i, j| match (i, j) {
        (0, 1) => -n[2] * th,
        (0, 2) => n[1] * th,
        (1, 0) => n[2] * th,
        (1, 2) => -n[0] * th,
        (2, 0) => -n[1] * th,
        (2, 1) => n[0] * th,
        _ => 0.0,
    });
    // rounding of the elements, and of the angle recovered from the trace
    let t = th.max(1e-3);
    let tol = 4e-7 + 3.0 * U * t / t.sin() + 12.0 * U / t.sin() * (t.sin() - t * t.cos()) / t.sin();
    let ma = mk(&a)?;
    let g = rd(&e("log", ma.log()).map_err(|e| format!("{e}: rotation by {th} about {n:?}"))?)?;
    c.hit(if th == 0.0 {
        "log-identity"
    } else if th < 1e-3 {
        "log-small"
    } else if th > 2.5 {
        "log-large"
    } else {
        "log"
    });
    c.check(g.r == 3 && g.c == 3, || "log of a rotation has the wrong size".into())?;
    for i in 0..3 {
        for j in 0..3 {
            c.close("log", g.d[i][j] as f64, w.a[i][j], tol).map_err(|e| format!("{e} at ({i},{j}): log of the rotation by {th} about {n:?} is {}", g.show()))?;
        }
    }
    c.check(rd(&ma)?.same(&a), || "log modified its operand".into())?;
    let mut ip = mk(&a)?;
    e("log_in_place", ip.log_in_place()).map_err(|e| format!("{e}: rotation by {th} about {n:?}"))?;
    let gi = rd(&ip)?;
    for i in 0..3 {
        for j in 0..3 {
            c.close("log_in_place", gi.d[i][j] as f64, w.a[i][j], tol).map_err(|e| format!("{e} at ({i},{j}): in-place log of the rotation by {th} about {n:?} is {}", gi.show()))?;
        }
    }
    Ok(())
}

pub const C15: &[Stratum] = &[
    Stratum { name: "exp", f: c15_exp, quick: 150_000, thorough: 6_000_000, need: &["exp-zero", "exp-real", "exp-pure", "exp-general", "exp-quarter-turn"] },
    Stratum { name: "log", f: c15_log, quick: 100_000, thorough: 4_000_000, need: &["log", "log-identity", "log-small", "log-large", "log-permutation"] },
];

// ---------------------------------------------------------------- C16

fn c16_rotate(c: &mut Case) -> Res {
    let q = q32(&gen::unit_q(&mut c.rng));
    let qd = q64(&q);
    let v = mkq(&q)?;
    c.seen(hashq(&q));
    c.sample(|| format!("{q:?}"));
    let d = rd(&e("convert_to_dcm", v.convert_to_dcm())?)?;
    c.check(d.r == 3 && d.c == 3, || "rotation matrix is not 3x3".into())?;
    let w = qdcm(qd);
    for i in 0..3 {
        for j in 0..3 {
            c.close("dcm", d.d[i][j] as f64, w.a[i][j], 1e-6).map_err(|e| format!("{e} at ({i},{j}): matrix of {q:?}"))?;
        }
    }
    let dm = d.m64();
    c.close("dcm-determinant", dm.det(), 1.0, 3e-6)?;
    c.close("dcm-orthogonality", dm.mul(&dm.t()).sub(&M::eye(3)).max_abs(), 0.0, 3e-6)?;
    c.hit("matrix");
    if qd[0].abs() < 1e-6 {
        c.hit("half-turn");
    }
    // rotating vectors
    let s = c.rng.logu(1e-6, 1e15);
    let x = gen::unit_v(&mut c.rng);
    let (x, s) = if c.rng.chance(0.1) {
        let i = small_int(&mut c.rng);
        c.hit(if i[1..].iter().all(|v| *v == 0.0) { "zero-vector" } else { "integer-vector" });
        ([i[1], i[2], i[3]], vnorm([i[1] as f64, i[2] as f64, i[3] as f64]).max(1e-12))
    } else {
        ([(x[0] * s) as f32, (x[1] * s) as f32, (x[2] * s) as f32], s)
    };
    let y0 = gen::unit_v(&mut c.rng);
    let y = [y0[0] as f32, y0[1] as f32, y0[2] as f32];
    let (vx, vy) = (mkv(&x)?, mkv(&y)?);
    let rx = rdv(&e("rotate", v.rotate(&vx))?)?;
    let ry = rdv(&e("rotate", v.rotate(&vy))?)?;
    c.check(rx.len() == 3 && ry.len() == 3, || "a rotated vector has the wrong size".into())?;
    let xd = [x[0] as f64, x[1] as f64, x[2] as f64];
    let wx = qrot(qd, xd);
    for i in 0..3 {
        c.close("rotate", rx[i] as f64, wx[i], 2e-6 * s).map_err(|e| format!("{e}: {q:?} rotates {x:?} to {rx:?}, expected {wx:?}"))?;
    }
    let rxd = [rx[0] as f64, rx[1] as f64, rx[2] as f64];
    let ryd = [ry[0] as f64, ry[1] as f64, ry[2] as f64];
    c.close("length", vnorm(rxd), vnorm(xd), 3e-6 * s)?;
    c.close("angle", vdot(rxd, ryd), vdot(xd, [y[0] as f64, y[1] as f64, y[2] as f64]), 4e-6 * s)?;
    let mut ip = mkv(&x)?;
    e("rotate_in_place", v.rotate_in_place(&mut ip))?;
    c.check(eq_v(&rdv(&ip)?, &rx), || format!("in-place rotation of {x:?} by {q:?} differs: {:?} / {rx:?}", rdv(&ip)))?;
    c.check(same_v(&rdv(&vx)?, &x) && same_v(&rdq(&v)?, &q), || "a rotation modified its operand".into())?;
    // the matrix of the library applied to the vector
    for i in 0..3 {
        let m: f64 = (0..3).map(|j| d.d[i][j] as f64 * xd[j]).sum();
        c.close("rotate-vs-matrix", rx[i] as f64, m, 1e-6 * s)?;
    }
    // product, conjugate, opposite
    let p = q32(&gen::unit_q(&mut c.rng));
    let vp = mkq(&p)?;
    let pq = e("mul_new", Quaternion::mul_new(&v, &vp))?;
    let dpq = rd(&e("convert_to_dcm", pq.convert_to_dcm())?)?.m64();
    let dp = rd(&e("convert_to_dcm", vp.convert_to_dcm())?)?.m64();
    c.close("matrix-of-product", dpq.sub(&dm.mul(&dp)).max_abs(), 0.0, 4e-6).map_err(|e| format!("{e}: {q:?} {p:?}"))?;
    let dc = rd(&e("convert_to_dcm", e("conjugate_new", v.conjugate_new())?.convert_to_dcm())?)?.m64();
    c.close("matrix-of-conjugate", dc.sub(&dm.t()).max_abs(), 0.0, 2e-6).map_err(|e| format!("{e}: {q:?}"))?;
    let mn = mkq(&[-q[0], -q[1], -q[2], -q[3]])?;
    let dn = rd(&e("convert_to_dcm", mn.convert_to_dcm())?)?.m64();
    c.close("matrix-of-opposite", dn.sub(&dm).max_abs(), 0.0, 2e-6).map_err(|e| format!("{e}: {q:?}"))?;
    // wrong sizes
    let n = *c.rng.pick(&[1usize, 2, 4]);
    let bad = gen::vecf(&mut c.rng, n, gen::moderate);
    let mut b = mkv(&bad)?;
    c.hit("wrong-size");
    c.check(v.rotate(&b).is_err() && v.rotate_in_place(&mut b).is_err() && same_v(&rdv(&b)?, &bad), || format!("rotation of a vector of {n} components accepted"))?;
    let nq = mkv(&[1.0, 0.0, 0.0])?;
    let mut t = mkv(&x)?;
    c.check(nq.rotate(&vx).is_err() && nq.rotate_in_place(&mut t).is_err() && same_v(&rdv(&t)?, &x), || "rotation by a vector of 3 components accepted".into())
}

pub const C16: &[Stratum] = &[Stratum { name: "rotate", f: c16_rotate, quick: 120_000, thorough: 5_000_000, need: &["matrix", "half-turn", "wrong-size", "zero-vector", "integer-vector"] }];

// ---------------------------------------------------------------- C17

fn c17_convert(c: &mut Case) -> Res {
    let qd = gen::unit_q(&mut c.rng);
    let q = q32(&qd);
    let lib = c.rng.bool();
    let dcm = if lib { rd(&e("convert_to_dcm", mkq(&q)?.convert_to_dcm())?)? } else { Arr::of(&qdcm(qd)) };
    let m = mk(&dcm)?;
    c.seen(dcm.hash());
    c.sample(|| format!("matrix of {q:?}"));
    let w = qd[0].abs();
    let angle = 2.0 * vnorm([qd[1], qd[2], qd[3]]).atan2(w);
    c.hit(if angle == 0.0 || angle < 1e-6 {
        "identity"
    } else if angle < 0.02 {
        "small-angle"
    } else if (angle - std::f64::consts::PI).abs() < 1e-6 {
        "half-turn"
    } else if angle > 3.0 {
        "near-half-turn"
    } else {
        "rotation"
    });
    let etas = [None, Some(0.0), Some(c.rng.uni(-0.5, 0.5) as f32), Some(*c.rng.pick(&[-0.5f32, 0.5]))];
    let dirt = any_q(&mut c.rng);
    let near_id = 3.0 - (dcm.d[0][0] + dcm.d[1][1] + dcm.d[2][2]) as f64;
    // every component is a square root on its own, of an argument known within a few roundings
    let chi = qd.iter().map(|x| (5e-6f64 + 4.0 * U / x.abs().max(1e-9)).min(1e-3).powi(2)).sum::<f64>().sqrt();
    for k in 0..6 {
        let mut g = mkq(&dirt)?;
        let (name, r, tol) = match k {
            0 => ("hughes", g.hughes(&m), if near_id < 1.1e-4 { 5.3e-3 } else { 5e-6 }),
            1 => ("chiaverini", g.chiaverini(&m), chi),
            _ => ("sarabandi", g.sarabandi(&m, etas[k - 2]), 5e-6),
        };
        let ctx = || format!("{name} (threshold {:?}) of the matrix of {q:?} {}", if k > 1 { etas[k - 2] } else { None }, dcm.show());
        e(name, r).map_err(|e| format!("{e}: {}", ctx()))?;
        let got = rdq(&g)?;
        let gd = q64(&got);
        let dist = qdist_pm(gd, qunit(qd));
        c.close(name, dist, 0.0, tol).map_err(|e| format!("{e}: {} gives {got:?}", ctx()))?;
        c.close("unit-norm", qnorm(gd), 1.0, if k == 1 { 2e-6 } else { 2e-5 }).map_err(|e| format!("{e}: {} gives {got:?}", ctx()))?;
    }
    c.check(rd(&m)?.same(&dcm), || "a conversion modified the matrix".into())
}

pub const C17: &[Stratum] = &[Stratum { name: "convert", f: c17_convert, quick: 150_000, thorough: 6_000_000, need: &["identity", "small-angle", "half-turn", "near-half-turn", "rotation"] }];

// ---------------------------------------------------------------- C18

fn euler_q(phi: f64, th: f64, psi: f64) -> Q4 {
    qmul(qmul(axis_angle([0.0, 0.0, 1.0], psi), axis_angle([0.0, 1.0, 0.0], th)), axis_angle([1.0, 0.0, 0.0], phi))
}

fn c18_euler(c: &mut Case) -> Res {
    let pi = std::f64::consts::PI;
    let qd = match c.rng.us(6) {
        0 => gen::unit_q(&mut c.rng),
        1 => {
            // at and around gimbal lock
            let s = c.rng.sign();
            let d = if c.rng.bool() { 0.0 } else { c.rng.logu(1e-8, 1e-2) };
            let (a, b) = (c.rng.uni(-pi, pi), c.rng.uni(-pi, pi));
            euler_q(a, s * (pi / 2.0 - d), b)
        }
        2 => {
            // multiples of quarter and eighth turns
            let (a, b, d) = (c.rng.range(-4, 4) as f64, c.rng.range(-2, 2) as f64, c.rng.range(-4, 4) as f64);
            gen::exact(euler_q(a * pi / 4.0, b * pi / 4.0, d * pi / 4.0))
        }
        _ => {
            let (a, b, d) = (c.rng.uni(-pi, pi), c.rng.uni(-pi / 2.0, pi / 2.0), c.rng.uni(-pi, pi));
            euler_q(a, b, d)
        }
    };
    let s = c.rng.sign();
    let mut q = q32(&qscale(qd, s));
    if c.rng.chance(0.2) {
        // unit within rounding only
        let k = 1.0 + c.rng.uni(-3e-7, 3e-7) as f32;
        q.iter_mut().for_each(|x| *x *= k);
    }
    let v = mkq(&q)?;
    c.seen(hashq(&q));
    c.sample(|| format!("{q:?}"));
    let (phi, th, psi) = e("convert_to_euler", v.convert_to_euler())?;
    c.check(phi.is_finite() && th.is_finite() && psi.is_finite(), || format!("Euler angles of {q:?} are {phi} {th} {psi}"))?;
    let lim = pi + 1e-6;
    c.check((phi as f64).abs() <= lim && (psi as f64).abs() <= lim && (th as f64).abs() <= pi / 2.0 + 1e-6, || format!("Euler angles of {q:?} are out of range: {phi} {th} {psi}"))?;
    let u = qunit(q64(&q));
    let sp = (2.0 * (u[0] * u[2] - u[3] * u[1])).clamp(-1.0, 1.0);
    let cp = (1.0 - sp * sp).sqrt();
    // pitch: the arcsine loses accuracy as its argument approaches one
    let ptol = 2e-6 + (2e-6 / cp.max(1e-12)).min(3e-3);
    c.close("pitch", th as f64, sp.asin(), ptol).map_err(|e| format!("{e}: pitch of {q:?}"))?;
    if cp > 2e-3 {
        c.hit("regular");
        let r = euler_q(phi as f64, th as f64, psi as f64);
        c.close("euler", qdist_pm(r, u), 0.0, 1.5e-6 + 1.5e-6 / cp).map_err(|e| format!("{e}: angles ({phi},{th},{psi}) of {q:?} rebuild {r:?}"))?;
        c.hit(&format!("octant {}{}{}", (phi > 0.0) as u8, (th > 0.0) as u8, (psi > 0.0) as u8));
        if phi.abs() > 1.6 {
            c.hit("roll-beyond-quarter");
        }
    } else {
        c.hit("gimbal-lock");
    }
    c.check(same_v(&rdq(&v)?, &q), || "convert_to_euler modified the quaternion".into())
}

pub const C18: &[Stratum] = &[Stratum { name: "euler", f: c18_euler, quick: 200_000, thorough: 8_000_000, need: &["regular", "gimbal-lock", "roll-beyond-quarter", "octant 000", "octant 111", "octant 101", "octant 010"] }];
