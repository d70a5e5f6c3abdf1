//! C06-C13: element-wise arithmetic, products, determinants, solving, factorisations, eigenvalues,
//! predicates, normalisation and interpolation.
use crate::api::*;
use crate::core::*;
use crate::gen;
use crate::refm::*;
use linalg::linalg::{eigen, lup, solve};

type LR<T> = Result<T, LinalgError>;

// ---------------------------------------------------------------- C06

fn value(r: &mut Rng) -> f32 {
    if r.chance(0.6) {
        gen::moderate(r)
    } else {
        gen::any_finite(r)
    }
}

/// Scalar operand: now and then not finite, which must never be accepted (0 * inf is not 0).
fn scalar(r: &mut Rng) -> f32 {
    if r.chance(0.04) {
        *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY])
    } else {
        value(r)
    }
}

/// Judge one form of an element-wise operation on a matrix-like object.
fn judge(c: &mut Case, what: &str, res: LR<Arr>, want: &Arr, operands: &str) -> Res {
    let fin = want.finite();
    if fin {
        c.hit("finite-result");
        match res {
            Ok(g) => c.check(g.eq(want), || format!("{what} gives {}, expected {} for {operands}", g.show(), want.show())),
            Err(e) => Err(format!("{what} failed with {e:?} for {operands}")),
        }
    } else {
        c.hit("overflowing-result");
        c.check(matches!(res, Err(LinalgError::UtilsError(_))), || format!("{what} returned {:?} although a result is not finite, {operands}", res.map(|a| a.show())))
    }
}

fn rdl(m: &Matrix) -> LR<Arr> {
    rd(m).map_err(|_| LinalgError::NotInit)
}
fn rdvl(v: &Vector<f32>) -> LR<Arr> {
    let d = rdv(v).map_err(|_| LinalgError::NotInit)?;
    Ok(Arr::from_fn(d.len(), 1, |i, _| d[i]))
}

fn c06_matrix(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let a = gen::arr(&mut c.rng, r, k, value);
    let b = gen::arr(&mut c.rng, r, k, value);
    let s = scalar(&mut c.rng);
    let dirt = gen::arr(&mut c.rng, r, k, gen::moderate);
    let (ma, mb) = (mk(&a)?, mk(&b)?);
    let txt = format!("a={} b={} s={s}", a.show(), b.show());
    c.seen(a.hash() ^ mix(b.hash()));
    c.sample(|| txt.clone());
    let sum = Arr::from_fn(r, k, |i, j| a.d[i][j] + b.d[i][j]);
    let dif = Arr::from_fn(r, k, |i, j| a.d[i][j] - b.d[i][j]);
    let sas = Arr::from_fn(r, k, |i, j| a.d[i][j] + s);
    let sss = Arr::from_fn(r, k, |i, j| a.d[i][j] - s);
    let pro = Arr::from_fn(r, k, |i, j| a.d[i][j] * s);
    let mut m = mk(&dirt)?;
    let x = m.add(&ma, &mb).and_then(|_| rdl(&m));
    judge(c, "add", x, &sum, &txt)?;
    let mut m = mk(&a)?;
    let x = m.add_in_place(&mb).and_then(|_| rdl(&m));
    judge(c, "add_in_place", x, &sum, &txt)?;
    let x = ma.add_new(&mb).and_then(|m| rdl(&m));
    judge(c, "add_new", x, &sum, &txt)?;
    let mut m = mk(&dirt)?;
    let x = m.sub(&ma, &mb).and_then(|_| rdl(&m));
    judge(c, "sub", x, &dif, &txt)?;
    let mut m = mk(&a)?;
    let x = m.sub_in_place(&mb).and_then(|_| rdl(&m));
    judge(c, "sub_in_place", x, &dif, &txt)?;
    let x = ma.sub_new(&mb).and_then(|m| rdl(&m));
    judge(c, "sub_new", x, &dif, &txt)?;
    let mut m = mk(&dirt)?;
    let x = m.add_scalar(&ma, s).and_then(|_| rdl(&m));
    judge(c, "add_scalar", x, &sas, &txt)?;
    let mut m = mk(&a)?;
    let x = m.add_scalar_in_place(s).and_then(|_| rdl(&m));
    judge(c, "add_scalar_in_place", x, &sas, &txt)?;
    let x = ma.add_scalar_new(s).and_then(|m| rdl(&m));
    judge(c, "add_scalar_new", x, &sas, &txt)?;
    let mut m = mk(&dirt)?;
    let x = m.sub_scalar(&ma, s).and_then(|_| rdl(&m));
    judge(c, "sub_scalar", x, &sss, &txt)?;
    let mut m = mk(&a)?;
    let x = m.sub_scalar_in_place(s).and_then(|_| rdl(&m));
    judge(c, "sub_scalar_in_place", x, &sss, &txt)?;
    let x = ma.sub_scalar_new(s).and_then(|m| rdl(&m));
    judge(c, "sub_scalar_new", x, &sss, &txt)?;
    let mut m = mk(&a)?;
    let x = m.mul_by_scalar_in_place(s).and_then(|_| rdl(&m));
    judge(c, "mul_by_scalar_in_place", x, &pro, &txt)?;
    c.check(rd(&ma)?.same(&a) && rd(&mb)?.same(&b), || format!("an operand was modified: {txt}"))?;
    // different sizes
    let (r2, k2) = gen::dims(&mut c.rng);
    if (r2, k2) != (r, k) {
        let o = gen::arr(&mut c.rng, r2, k2, gen::moderate);
        let mut mo = mk(&o)?;
        c.hit("size-mismatch");
        let mut d = mk(&dirt)?;
        let errs = [
            d.add(&ma, &mo).is_err(),
            d.add(&mo, &ma).is_err(),
            d.sub(&ma, &mo).is_err(),
            d.sub(&mo, &ma).is_err(),
            d.add_in_place(&mo).is_err(),
            d.sub_in_place(&mo).is_err(),
            d.add_new(&mo).is_err(),
            d.sub_new(&mo).is_err(),
            d.add_scalar(&mo, s).is_err(),
            d.sub_scalar(&mo, s).is_err(),
            mo.add(&ma, &mb).is_err(),
            mo.sub(&ma, &mb).is_err(),
        ];
        c.check(errs.iter().all(|x| *x), || format!("size mismatch {r}x{k} against {r2}x{k2} accepted: {errs:?}"))?;
        c.check(rd(&d)?.same(&dirt) && rd(&mo)?.same(&o), || "a size mismatch modified an operand".into())?;
    }
    Ok(())
}

fn c06_vector(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let va = gen::vecf(&mut c.rng, n, value);
    let vb = gen::vecf(&mut c.rng, n, value);
    let s = scalar(&mut c.rng);
    let dirt = gen::vecf(&mut c.rng, n, gen::moderate);
    let (a, b) = (mkv(&va)?, mkv(&vb)?);
    let txt = format!("a={va:?} b={vb:?} s={s}");
    let col = |f: &dyn Fn(usize) -> f32| Arr::from_fn(n, 1, |i, _| f(i));
    let sum = col(&|i| va[i] + vb[i]);
    let dif = col(&|i| va[i] - vb[i]);
    let sas = col(&|i| va[i] + s);
    let sss = col(&|i| va[i] - s);
    let pro = col(&|i| va[i] * s);
    c.seen(sum.hash() ^ mix(dif.hash()));
    let mut m = mkv(&dirt)?;
    let x = m.add(&a, &b).and_then(|_| rdvl(&m));
    judge(c, "v.add", x, &sum, &txt)?;
    let mut m = mkv(&va)?;
    let x = m.add_in_place(&b).and_then(|_| rdvl(&m));
    judge(c, "v.add_in_place", x, &sum, &txt)?;
    let x = a.add_new(&b).and_then(|m| rdvl(&m));
    judge(c, "v.add_new", x, &sum, &txt)?;
    let mut m = mkv(&dirt)?;
    let x = m.sub(&a, &b).and_then(|_| rdvl(&m));
    judge(c, "v.sub", x, &dif, &txt)?;
    let mut m = mkv(&va)?;
    let x = m.sub_in_place(&b).and_then(|_| rdvl(&m));
    judge(c, "v.sub_in_place", x, &dif, &txt)?;
    let x = a.sub_new(&b).and_then(|m| rdvl(&m));
    judge(c, "v.sub_new", x, &dif, &txt)?;
    let mut m = mkv(&dirt)?;
    let x = m.add_scalar(&a, s).and_then(|_| rdvl(&m));
    judge(c, "v.add_scalar", x, &sas, &txt)?;
    let mut m = mkv(&va)?;
    let x = m.add_scalar_in_place(s).and_then(|_| rdvl(&m));
    judge(c, "v.add_scalar_in_place", x, &sas, &txt)?;
    let x = a.add_scalar_new(s).and_then(|m| rdvl(&m));
    judge(c, "v.add_scalar_new", x, &sas, &txt)?;
    let mut m = mkv(&dirt)?;
    let x = m.sub_scalar(&a, s).and_then(|_| rdvl(&m));
    judge(c, "v.sub_scalar", x, &sss, &txt)?;
    let mut m = mkv(&va)?;
    let x = m.sub_scalar_in_place(s).and_then(|_| rdvl(&m));
    judge(c, "v.sub_scalar_in_place", x, &sss, &txt)?;
    let x = a.sub_scalar_new(s).and_then(|m| rdvl(&m));
    judge(c, "v.sub_scalar_new", x, &sss, &txt)?;
    let mut m = mkv(&dirt)?;
    let x = m.mul_by_scalar(&a, s).and_then(|_| rdvl(&m));
    judge(c, "v.mul_by_scalar", x, &pro, &txt)?;
    let mut m = mkv(&va)?;
    let x = m.mul_by_scalar_in_place(s).and_then(|_| rdvl(&m));
    judge(c, "v.mul_by_scalar_in_place", x, &pro, &txt)?;
    let x = a.mul_by_scalar_new(s).and_then(|m| rdvl(&m));
    judge(c, "v.mul_by_scalar_new", x, &pro, &txt)?;
    c.check(same_v(&rdv(&a)?, &va) && same_v(&rdv(&b)?, &vb), || format!("an operand was modified: {txt}"))?;
    let n2 = 1 + c.rng.us(4);
    if n2 != n {
        let vo = gen::vecf(&mut c.rng, n2, gen::moderate);
        let mut o = mkv(&vo)?;
        let mut d = mkv(&dirt)?;
        c.hit("size-mismatch");
        let errs = [
            d.add(&a, &o).is_err(),
            d.add(&o, &a).is_err(),
            d.sub(&a, &o).is_err(),
            d.sub(&o, &a).is_err(),
            d.add_in_place(&o).is_err(),
            d.sub_in_place(&o).is_err(),
            d.add_new(&o).is_err(),
            d.sub_new(&o).is_err(),
            d.add_scalar(&o, s).is_err(),
            d.sub_scalar(&o, s).is_err(),
            d.mul_by_scalar(&o, s).is_err(),
            o.add(&a, &b).is_err(),
            o.sub(&a, &b).is_err(),
        ];
        c.check(errs.iter().all(|x| *x), || format!("size mismatch {n} against {n2} accepted: {errs:?}"))?;
        c.check(same_v(&rdv(&d)?, &dirt) && same_v(&rdv(&o)?, &vo), || "a size mismatch modified an operand".into())?;
    }
    Ok(())
}

fn c06_power(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let p = match c.rng.us(4) {
        0 => *c.rng.pick(&[0.0f32, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        1 => c.rng.range(-6, 12) as f32,
        _ => c.rng.uni(-3.0, 5.0) as f32,
    };
    let pos = c.rng.chance(0.6);
    let a = Arr::from_fn(r, k, |_, _| {
        let v = value(&mut c.rng);
        if pos {
            v.abs()
        } else {
            v
        }
    });
    let mut m = mk(&a)?;
    let res = m.power_elements(p).and_then(|_| rdl(&m));
    let mut v = mkv(&(0..r).map(|i| a.d[i][0]).collect::<Vec<_>>())?;
    let resv = v.power_elements(p).and_then(|_| rdvl(&v));
    c.seen(a.hash() ^ p.to_bits() as u64);
    let cls = |x: f32| -> (f64, bool, bool) {
        let w = (x as f64).powf(p as f64);
        // (value, certainly finite in f32, certainly not)
        (w, w.abs() < FMAX * 0.999, w.is_nan() || w.abs() > FMAX * 1.001)
    };
    let mut judge_pow = |what: &str, res: &LR<Arr>, cols: usize| -> Res {
        let mut all_fin = true;
        let mut some_bad = false;
        for i in 0..r {
            for j in 0..cols {
                let (_, f, b) = cls(a.d[i][j]);
                all_fin &= f;
                some_bad |= b;
            }
        }
        if all_fin {
            c.hit("power-finite");
            match res {
                Ok(g) => {
                    for i in 0..r {
                        for j in 0..cols {
                            let (w, _, _) = cls(a.d[i][j]);
                            c.close(what, g.d[i][j] as f64, w, w.abs() * 1e-6 + 2e-38)?;
                        }
                    }
                }
                Err(e) => return Err(format!("{what}({p}) failed with {e:?} on {}", a.show())),
            }
        } else if some_bad {
            c.hit("power-undefined");
            c.check(res.is_err(), || format!("{what}({p}) accepted on {}", a.show()))?;
        }
        Ok(())
    };
    judge_pow("power_elements", &res, k)?;
    judge_pow("v.power_elements", &resv, 1)
}

pub const C06: &[Stratum] = &[
    Stratum { name: "matrix", f: c06_matrix, quick: 40_000, thorough: 2_000_000, need: &["finite-result", "overflowing-result", "size-mismatch"] },
    Stratum { name: "vector", f: c06_vector, quick: 40_000, thorough: 2_000_000, need: &["finite-result", "overflowing-result", "size-mismatch"] },
    Stratum { name: "power", f: c06_power, quick: 30_000, thorough: 1_000_000, need: &["power-finite", "power-undefined"] },
];

// ---------------------------------------------------------------- C07

fn wide(r: &mut Rng) -> f32 {
    match r.us(4) {
        0 => (r.logu(1e-12, 1e12) * r.sign()) as f32,
        1 => gen::any_finite(r),
        _ => gen::moderate(r),
    }
}

fn c07_mul(c: &mut Case) -> Res {
    let (m, k) = gen::dims(&mut c.rng);
    let n = 1 + c.rng.us(4);
    let f: fn(&mut Rng) -> f32 = if c.rng.bool() { gen::moderate } else { wide };
    let a = gen::arr(&mut c.rng, m, k, f);
    let b = gen::arr(&mut c.rng, k, n, f);
    let (ma, mb) = (mk(&a)?, mk(&b)?);
    let mut d = mk(&gen::arr(&mut c.rng, m, n, gen::moderate))?;
    let r1 = d.mul(&ma, &mb).and_then(|_| rdl(&d));
    let r2 = ma.mul_new(&mb).and_then(|x| rdl(&x));
    let want = a.m64().mul(&b.m64());
    let mag = a.m64().abs().mul(&b.m64().abs());
    c.seen(a.hash() ^ mix(b.hash()));
    let (mut safe, mut over) = (true, false);
    for i in 0..m {
        for j in 0..n {
            safe &= mag.a[i][j] < FMAX * 0.99;
            over |= want.a[i][j].abs() > FMAX * 1.01 + 4.0 * U * mag.a[i][j];
        }
    }
    if over {
        c.hit("product-overflow");
    }
    for (what, res) in [("mul", r1), ("mul_new", r2)] {
        match res {
            Ok(g) => {
                c.check(!over, || format!("{what} overflows but returned {} for {} x {}", g.show(), a.show(), b.show()))?;
                c.check(g.r == m && g.c == n, || format!("{what} gives {}x{}", g.r, g.c))?;
                if safe {
                    c.hit("product");
                    for i in 0..m {
                        for j in 0..n {
                            c.close(what, g.d[i][j] as f64, want.a[i][j], (k as f64 + 2.0) * U * mag.a[i][j] * 2.0 + 8.0 * TINY).map_err(|e| format!("{e} at ({i},{j}) of {} x {}", a.show(), b.show()))?;
                        }
                    }
                }
            }
            Err(e) => {
                c.hit("product-refused");
                c.check(!safe, || format!("{what} refused ({e:?}) {} x {}", a.show(), b.show()))?;
            }
        }
    }
    c.check(rd(&ma)?.same(&a) && rd(&mb)?.same(&b), || "product modified an operand".into())?;
    // non-conformable shapes
    let (m2, k2) = gen::dims(&mut c.rng);
    let o = mk(&gen::arr(&mut c.rng, m2, k2, gen::moderate))?;
    if k != m2 {
        c.hit("non-conformable");
        c.check(ma.mul_new(&o).is_err(), || format!("{m}x{k} times {m2}x{k2} accepted"))?;
    }
    if (m2, k2) != (m, n) {
        let before = rd(&o)?;
        let mut o = o;
        c.hit("wrong-destination");
        c.check(o.mul(&ma, &mb).is_err() && rd(&o)?.same(&before), || format!("product {m}x{n} stored into {m2}x{k2}"))?;
    }
    Ok(())
}

fn c07_vec(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let m = 1 + c.rng.us(4);
    let f: fn(&mut Rng) -> f32 = if c.rng.bool() { gen::moderate } else { wide };
    let a = gen::vecf(&mut c.rng, n, f);
    let b = gen::vecf(&mut c.rng, n, f);
    let o = gen::vecf(&mut c.rng, m, f);
    let (va, vb, vo) = (mkv(&a)?, mkv(&b)?, mkv(&o)?);
    c.seen(Arr::from_fn(n, 2, |i, j| if j == 0 { a[i] } else { b[i] }).hash());
    // dot product
    let want: f64 = (0..n).map(|i| a[i] as f64 * b[i] as f64).sum();
    let mag: f64 = (0..n).map(|i| (a[i] as f64 * b[i] as f64).abs()).sum();
    let d = va.dot_product(&vb);
    if mag < FMAX * 0.99 {
        c.hit("dot");
        let d = e("dot_product", d)?;
        c.close("dot_product", d as f64, want, (n as f64 + 2.0) * U * mag * 2.0 + 8.0 * TINY).map_err(|e| format!("{e} for {a:?} . {b:?}"))?;
    }
    if m != n {
        c.hit("dot-mismatch");
        c.check(va.dot_product(&vo).is_err(), || format!("dot product of sizes {n} and {m} accepted"))?;
    }
    // outer product
    let op = va.outer_product(&vo);
    let w = Arr::from_fn(n, m, |i, j| a[i] * o[j]);
    if w.finite() {
        c.hit("outer");
        let g = rd(&e("outer_product", op)?)?;
        c.check(g.eq(&w), || format!("outer product {} expected {}", g.show(), w.show()))?;
    } else {
        c.check(op.is_err(), || "overflowing outer product accepted".into())?;
    }
    // norm
    let mut a = a;
    if c.rng.chance(0.3) {
        // small vectors around the threshold
        let l = c.rng.logu(1e-6, 1e-2) as f32;
        for x in a.iter_mut() {
            *x = (c.rng.uni(-1.0, 1.0) as f32) * l;
        }
    }
    let va = mkv(&a)?;
    let ss: f64 = a.iter().map(|x| (*x as f64) * (*x as f64)).sum();
    let want = ss.sqrt();
    let nn = va.calculate_norm();
    if ss < FMAX * 0.99 {
        let g = e("calculate_norm", nn)? as f64;
        if want < EPS * 0.9999 {
            c.hit("norm-below-threshold");
            c.check(g == 0.0, || format!("norm of {a:?} is {g}, expected 0"))?;
        } else if want > EPS * 1.0001 {
            c.hit("norm");
            c.close("calculate_norm", g, want, want * 6.0 * U * 2.0).map_err(|e| format!("{e} for {a:?}"))?;
        } else {
            c.hit("norm-threshold-zone");
            c.check(g == 0.0 || (g - want).abs() < want * 1e-5, || format!("norm of {a:?} is {g}"))?;
        }
    } else {
        c.hit("norm-overflow");
        c.check(matches!(&nn, Err(_)) || matches!(&nn, Ok(g) if (*g as f64 - want).abs() < want * 1e-5), || format!("norm of {a:?} is {nn:?}"))?;
    }
    Ok(())
}

fn c07_mat(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let f: fn(&mut Rng) -> f32 = if c.rng.bool() { gen::moderate } else { wide };
    let mut a = gen::arr(&mut c.rng, r, k, f);
    if c.rng.chance(0.05) {
        let x = f(&mut c.rng);
        a = Arr::from_fn(r, k, |_, _| x);
    }
    let m = mk(&a)?;
    c.seen(a.hash());
    let ss: f64 = (0..r).map(|i| (0..k).map(|j| (a.d[i][j] as f64).powi(2)).sum::<f64>()).sum();
    let fr = m.calculate_frobenius_norm();
    if ss < FMAX * 0.99 {
        c.hit("frobenius");
        let w = ss.sqrt();
        let g = e("calculate_frobenius_norm", fr)? as f64;
        c.close("frobenius", g, w, w * 20.0 * U + 1e-18).map_err(|e| format!("{e} for {}", a.show()))?;
    }
    let t = m.trace();
    if r == k {
        let w: f64 = (0..r).map(|i| a.d[i][i] as f64).sum();
        let mag: f64 = (0..r).map(|i| (a.d[i][i] as f64).abs()).sum();
        if mag < FMAX * 0.99 {
            c.hit("trace");
            let g = e("trace", t)? as f64;
            c.close("trace", g, w, 10.0 * U * mag).map_err(|e| format!("{e} for {}", a.show()))?;
        }
    } else {
        c.hit("trace-not-square");
        c.check(t.is_err(), || format!("trace of a {r}x{k} matrix accepted"))?;
    }
    let lim = if c.idx % 16 == 0 { 128i32 } else { 6 };
    for d in -lim..=lim.min(127) {
        let d = d as i8;
        let n = if d >= 0 { (r as i32).min(k as i32 - d as i32) } else { (r as i32 + d as i32).min(k as i32) };
        for opt in [Some(d), None] {
            if opt.is_none() && d != 0 {
                continue;
            }
            let g = m.diag(opt);
            if n <= 0 {
                c.hit("diag-refused");
                c.check(g.is_err(), || format!("diag({d}) of {r}x{k} accepted"))?;
            } else {
                c.hit("diag");
                let g = rdv(&e("diag", g)?)?;
                let w: Vec<f32> = (0..n as usize).map(|q| if d >= 0 { a.d[q][q + d as usize] } else { a.d[q + (-d) as usize][q] }).collect();
                c.check(same_v(&g, &w), || format!("diag({opt:?}) of {} gives {g:?}", a.show()))?;
            }
        }
    }
    // transposition identities
    let mut t = m.duplicate().map_err(|e| format!("duplicate {e:?}"))?;
    e("transpose", t.transpose())?;
    let tn = rd(&e("transpose_new", m.transpose_new())?)?;
    let w = Arr::from_fn(k, r, |i, j| a.d[j][i]);
    c.check(rd(&t)?.same(&w) && tn.same(&w), || format!("transpose of {} gives {} / {}", a.show(), rd(&t).map(|x| x.show()).unwrap_or_default(), tn.show()))?;
    e("transpose", t.transpose())?;
    c.check(rd(&t)?.same(&a), || "double transpose is not the identity".into())
}

pub const C07: &[Stratum] = &[
    Stratum { name: "product", f: c07_mul, quick: 80_000, thorough: 4_000_000, need: &["product", "product-overflow", "non-conformable", "wrong-destination"] },
    Stratum { name: "vector", f: c07_vec, quick: 80_000, thorough: 4_000_000, need: &["dot", "dot-mismatch", "outer", "norm", "norm-below-threshold", "norm-overflow"] },
    Stratum { name: "matrix", f: c07_mat, quick: 60_000, thorough: 2_000_000, need: &["frobenius", "trace", "trace-not-square", "diag", "diag-refused"] },
];

// ---------------------------------------------------------------- C08

fn scaled(r: &mut Rng, n: usize) -> (Arr, &'static str) {
    let (mut a, fam) = gen::square(r, n);
    match r.us(7) {
        k @ (0 | 6) => {
            let s = if k == 0 { r.logu(0.01, 100.0) } else { r.logu(100.0, 1e8) } as f32;
            for i in 0..n {
                for j in 0..n {
                    a.d[i][j] *= s;
                }
            }
        }
        1 => {
            for i in 0..n {
                let s = (r.logu(0.1, 10.0) * r.sign()) as f32;
                for j in 0..n {
                    a.d[i][j] *= s;
                }
            }
        }
        2 => {
            for j in 0..n {
                let s = (r.logu(0.1, 10.0) * r.sign()) as f32;
                for i in 0..n {
                    a.d[i][j] *= s;
                }
            }
        }
        _ => {}
    }
    (a, fam)
}

fn growth(n: usize) -> f64 {
    (1u32 << (n - 1)) as f64
}

/// Error bound for a determinant obtained by elimination with partial pivoting.
fn det_tol(m: &M, n: usize) -> f64 {
    let d = 6.0 * U * n as f64 * growth(n) * m.max_abs();
    let cof = m.cof().abs();
    let mut first = 0.0;
    for i in 0..n {
        for j in 0..n {
            first += cof.a[i][j];
        }
    }
    let nf = [1.0, 1.0, 2.0, 6.0, 24.0][n];
    let mut t = d * first;
    for k in 2..=n {
        t += nf * nf * d.powi(k as i32) * m.max_abs().powi((n - k) as i32);
    }
    t + 1e-37
}

fn c08_case(c: &mut Case, a: &Arr, n: usize) -> Res {
    let m = mk(a)?;
    let r = a.m64();
    let want = r.det();
    let perm = r.perm_abs();
    let g = e("det_naive", m.det_naive())? as f64;
    c.close("det_naive", g, want, 30.0 * U * perm + 1e-37).map_err(|e| format!("{e} for {}", a.show()))?;
    if want == 0.0 {
        c.hit("singular");
    }
    match m.det() {
        Ok(g) => {
            c.hit("det-value");
            if want < 0.0 {
                c.hit("negative-det");
            }
            c.close("det", g as f64, want, det_tol(&r, n)).map_err(|e| format!("{e} for {}", a.show()))?;
        }
        Err(er) => {
            c.hit("det-singular");
            let s = r.sigma_min();
            c.check(n > 1 && s < 2.5e-4 + 100.0 * U * r.max_abs(), || format!("det refused ({er:?}) a matrix with smallest singular value {s:e}: {}", a.show()))?;
        }
    }
    c.check(rd(&m)?.same(a), || "determinant modified its matrix".into())
}

fn c08_square(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let (a, fam) = scaled(&mut c.rng, n);
    c.hit(&format!("family:{fam}"));
    c.seen(a.hash());
    c.sample(|| format!("{fam} {}", a.show()));
    c08_case(c, &a, n)
}

/// All permutation matrices with all sign patterns: determinant is the signature.
fn c08_perms(c: &mut Case) -> Res {
    let n = 1 + (c.idx as usize % 4);
    let mut perms = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for p in perms {
            for i in 0..n {
                if !p.contains(&i) {
                    let mut q = p.clone();
                    q.push(i);
                    nx.push(q);
                }
            }
        }
        perms = nx;
    }
    for p in perms {
        for signs in 0..(1u32 << n) {
            let sc = if c.idx < 4 { 1.0 } else { c.rng.uni(0.5, 4.0) as f32 };
            let a = Arr::from_fn(n, n, |i, j| if p[i] == j { if signs >> i & 1 == 1 { -sc } else { sc } } else { 0.0 });
            c.seen(a.hash());
            c.hit("signed-permutation");
            let m = mk(&a)?;
            let d = e("det of a permutation", m.det()).map_err(|e| format!("{e}: {}", a.show()))?;
            let w = a.m64().det();
            c.close("det", d as f64, w, 1e-5 * w.abs()).map_err(|e| format!("{e} for {}", a.show()))?;
            c08_case(c, &a, n)?;
        }
    }
    Ok(())
}

fn c08_rect(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    if r == k {
        return Ok(());
    }
    let m = mk(&gen::arr(&mut c.rng, r, k, gen::moderate))?;
    c.hit("not-square");
    c.seen((r * 8 + k) as u64);
    c.check(m.det().is_err() && m.det_naive().is_err(), || format!("determinant of a {r}x{k} matrix accepted"))
}

pub const C08: &[Stratum] = &[
    Stratum { name: "square", f: c08_square, quick: 150_000, thorough: 6_000_000, need: &["det-value", "singular", "negative-det", "family:permutation", "family:zero-diagonal", "family:all-negative"] },
    Stratum { name: "permutations", f: c08_perms, quick: 8, thorough: 400, need: &["signed-permutation"] },
    Stratum { name: "not-square", f: c08_rect, quick: 300, thorough: 5000, need: &["not-square"] },
];

// ---------------------------------------------------------------- C09

fn regular(c: &mut Case, n: usize) -> (Arr, M) {
    loop {
        let (a, fam) = scaled(&mut c.rng, n);
        let m = a.m64();
        if m.sigma_min() > 5e-4 + 200.0 * U * m.max_abs() {
            if let Some(i) = m.inv() {
                c.hit(&format!("family:{fam}"));
                return (a, i);
            }
        }
    }
}

fn c09_regular(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let (a, inv) = regular(c, n);
    let am = a.m64();
    c.seen(a.hash());
    c.sample(|| a.show());
    let m = mk(&a)?;
    let (lu, p) = e("lup", lup(&m)).map_err(|e| format!("{e}: regular matrix {}", a.show()))?;
    let lua = rd(&lu)?;
    c.check(rd(&m)?.same(&a), || "lup modified its argument".into())?;
    // permutation
    let mut pi = [0usize; 4];
    let mut seen = [false; 4];
    for i in 0..n {
        let x = e("permutation element", p.get_element(i as u8))? as usize;
        c.check(x < n && !seen[x], || format!("lup permutation is not a permutation at {i}: {x}; {}", a.show()))?;
        seen[x] = true;
        pi[i] = x;
        if x != i {
            c.hit("row-exchange");
        }
    }
    let l = M::from_fn(n, n, |i, j| if i == j { 1.0 } else if j < i { lua.d[pi[i]][j] as f64 } else { 0.0 });
    let u = M::from_fn(n, n, |i, j| if j >= i { lua.d[pi[i]][j] as f64 } else { 0.0 });
    let prod = l.mul(&u);
    let mag = l.abs().mul(&u.abs());
    for i in 0..n {
        for j in 0..n {
            c.close("PA=LU", prod.a[i][j], am.a[pi[i]][j], 3.0 * (n as f64 + 2.0) * U * mag.a[i][j] + 1e-37).map_err(|e| format!("{e} at ({i},{j}), {}", a.show()))?;
        }
    }
    // solve
    let d = 6.0 * U * n as f64 * growth(n) * am.max_abs();
    let ninv = inv.norm_inf();
    if d * ninv * n as f64 > 0.05 {
        c.hit("ill-conditioned(skipped)");
        return Ok(());
    }
    let s = if c.rng.chance(0.2) { c.rng.logu(1e-12, 1e12) as f32 } else { 1.0 };
    let b: Vec<f32> = gen::vecf(&mut c.rng, n, gen::moderate).iter().map(|x| x * s).collect();
    let x = rdv(&e("solve", solve(&lu, &mkv(&b)?, &p)).map_err(|e| format!("{e}: regular matrix {}", a.show()))?)?;
    let sx: f64 = (0..n).map(|i| (0..n).map(|j| inv.a[i][j] * b[j] as f64).sum::<f64>().abs()).sum();
    for i in 0..n {
        let w: f64 = (0..n).map(|j| inv.a[i][j] * b[j] as f64).sum();
        let ra: f64 = (0..n).map(|j| inv.a[i][j].abs()).sum();
        c.close("solve", x[i] as f64, w, 2.0 * d * ra * sx + 8.0 * U * w.abs() + 1e-37).map_err(|e| format!("{e} for b={b:?}, {}", a.show()))?;
    }
    c.hit("solved");
    let other = 1 + c.rng.us(4);
    if other != n {
        c.hit("other-size-refused");
        let b = gen::vecf(&mut c.rng, other, gen::moderate);
        c.check(solve(&lu, &mkv(&b)?, &p).is_err(), || format!("solve accepted a right-hand side of {other} elements for {}", a.show()))?;
    }
    // inverse
    let mut im = mk(&a)?;
    e("invert", im.invert()).map_err(|e| format!("{e}: regular matrix {}", a.show()))?;
    let g = rd(&im)?;
    for i in 0..n {
        for j in 0..n {
            let ra: f64 = (0..n).map(|q| inv.a[i][q].abs()).sum();
            let rb: f64 = (0..n).map(|q| inv.a[q][j].abs()).sum();
            c.close("inverse", g.d[i][j] as f64, inv.a[i][j], 2.0 * d * ra * rb + 8.0 * U * inv.a[i][j].abs() + 1e-37).map_err(|e| format!("{e} at ({i},{j}) of the inverse of {}", a.show()))?;
        }
    }
    c.hit("inverted");
    Ok(())
}

/// Bound of the rounding error single precision elimination with row pivoting leaves in a pivot.
/// A singular matrix can be told from a regular one only when this is below the pivot tolerance.
fn elimination_error(a: &Arr) -> f64 {
    let n = a.r;
    let mut w: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| a.d[i][j] as f64).collect()).collect();
    let mut e = 0.0f64;
    for k in 0..n {
        let p = (k..n).max_by(|x, y| w[*x][k].abs().total_cmp(&w[*y][k].abs())).unwrap_or(k);
        w.swap(k, p);
        let v = w[k][k].abs();
        if v < 1e-9 {
            break;
        }
        let big = w[k..].iter().flat_map(|r| r[k..].iter()).fold(0.0f64, |m, x| m.max(x.abs()));
        e = e * (2.0 + 2.0 * big / v) + 3.0 * U * big;
        for i in k + 1..n {
            let l = w[i][k] / v * w[k][k].signum();
            for j in k..n {
                w[i][j] -= l * w[k][j];
            }
        }
    }
    e
}

fn c09_singular(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let mut a = Arr::from_fn(n, n, |_, _| c.rng.range(-9, 9) as f32);
    let how = c.rng.us(5);
    let i = c.rng.us(n);
    let j = if n > 1 { (i + 1 + c.rng.us(n - 1)) % n } else { i };
    match how {
        0 => (0..n).for_each(|q| a.d[i][q] = 0.0),
        1 => (0..n).for_each(|q| a.d[q][i] = 0.0),
        2 if n > 1 => {
            let s = if c.rng.bool() { 1.0 } else { -1.0 };
            (0..n).for_each(|q| a.d[i][q] = s * a.d[j][q])
        }
        3 if n > 1 => {
            let s = if c.rng.bool() { 1.0 } else { -1.0 };
            (0..n).for_each(|q| a.d[q][i] = s * a.d[q][j])
        }
        4 if n > 2 => {
            let k = (0..n).find(|q| *q != i && *q != j).unwrap_or(0);
            (0..n).for_each(|q| a.d[i][q] = ((a.d[j][q] + a.d[k][q]) * 0.5).trunc());
        }
        _ => (0..n).for_each(|q| a.d[i][q] = 0.0),
    }
    if a.m64().det_int() != 0 {
        c.hit("not-singular(skipped)");
        return Ok(());
    }
    if elimination_error(&a) > 5e-5 {
        c.hit("singular-within-rounding(skipped)");
        return Ok(());
    }
    c.hit("singular");
    c.seen(a.hash());
    let m = mk(&a)?;
    let b = gen::vecf(&mut c.rng, n, gen::moderate);
    let r = match lup(&m) {
        Err(_) => Err(()),
        Ok((lu, p)) => solve(&lu, &mkv(&b)?, &p).map(|_| ()).map_err(|_| ()),
    };
    c.check(r.is_err(), || format!("a system with the singular matrix {} was solved", a.show()))?;
    let mut m = mk(&a)?;
    let r = m.invert();
    c.check(r.is_err(), || format!("the singular matrix {} was inverted", a.show()))?;
    c.check(rd(&m)?.same(&a), || format!("refused inversion modified {}", a.show()))?;
    // rectangular
    let (p, q) = gen::dims(&mut c.rng);
    if p != q {
        let ra = gen::arr(&mut c.rng, p, q, gen::moderate);
        let mut rm = mk(&ra)?;
        c.hit("rectangular");
        c.check(rm.invert().is_err() && rd(&rm)?.same(&ra), || format!("{p}x{q} matrix inverted"))?;
    }
    Ok(())
}

pub const C09: &[Stratum] = &[
    Stratum { name: "regular", f: c09_regular, quick: 80_000, thorough: 3_000_000, need: &["row-exchange", "solved", "other-size-refused", "inverted", "family:permutation", "family:zero-diagonal", "family:all-negative", "family:lower"] },
    Stratum { name: "singular", f: c09_singular, quick: 40_000, thorough: 1_000_000, need: &["singular", "rectangular"] },
];

// ---------------------------------------------------------------- C10

fn lu_nopivot(a: &M) -> Option<(M, M)> {
    let n = a.r;
    let mut l = M::eye(n);
    let mut u = *a;
    for k in 0..n {
        if u.a[k][k].abs() < (5e-4 * a.max_abs()).max(2e-3) {
            return None;
        }
        for i in (k + 1)..n {
            let f = u.a[i][k] / u.a[k][k];
            l.a[i][k] = f;
            for j in k..n {
                u.a[i][j] -= f * u.a[k][j];
            }
            u.a[i][k] = 0.0;
        }
    }
    if l.max_abs() > 100.0 || u.max_abs() > 100.0 * a.max_abs() {
        return None;
    }
    Some((l, u))
}

fn c10_lu(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let (a, l, u) = loop {
        let a = if c.rng.bool() {
            scaled(&mut c.rng, n).0
        } else {
            let l = M::from_fn(n, n, |i, j| if i == j { 1.0 } else if j < i { if c.rng.chance(0.2) { 0.0 } else { c.rng.uni(-3.0, 3.0) } } else { 0.0 });
            let u = M::from_fn(n, n, |i, j| if i == j { c.rng.sign() * c.rng.uni(0.1, 4.0) } else if j > i { if c.rng.chance(0.2) { 0.0 } else { c.rng.uni(-3.0, 3.0) } } else { 0.0 });
            let s = if c.rng.chance(0.3) { c.rng.logu(0.01, 1e8) } else { 1.0 };
            Arr::of(&l.mul(&u).scale(s))
        };
        if let Some((l, u)) = lu_nopivot(&a.m64()) {
            break (a, l, u);
        }
    };
    c.seen(a.hash());
    c.sample(|| a.show());
    let m = mk(&a)?;
    let _ = (l, u);
    for (what, res) in [("lr", m.lr()), ("lu_crout", m.lu_crout())] {
        let (l, u) = e(what, res).map_err(|e| format!("{e}: {}", a.show()))?;
        let (l, u) = (rd(&l)?, rd(&u)?);
        c.hit(what);
        c.check(l.r == n && l.c == n && u.r == n && u.c == n, || format!("{what} factor sizes"))?;
        for i in 0..n {
            c.check(l.d[i][i] == 1.0, || format!("{what}: L has {} on its diagonal, {}", l.d[i][i], a.show()))?;
            for j in (i + 1)..n {
                c.check(l.d[i][j] == 0.0 && u.d[j][i] == 0.0, || format!("{what}: factors are not triangular: L={} U={}", l.show(), u.show()))?;
            }
        }
        let prod = l.m64().mul(&u.m64());
        let mag = l.m64().abs().mul(&u.m64().abs());
        for i in 0..n {
            for j in 0..n {
                c.close(what, prod.a[i][j], a.d[i][j] as f64, 4.0 * (n as f64 + 2.0) * U * mag.a[i][j] + 1e-37).map_err(|e| format!("{e}: L*U differs from {} at ({i},{j})", a.show()))?;
            }
        }
    }
    c.check(rd(&m)?.same(&a), || "a factorisation modified its input".into())?;
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        let m = mk(&gen::arr(&mut c.rng, r, k, gen::moderate))?;
        c.hit("lu-rectangular");
        c.check(m.lr().is_err() && m.lu_crout().is_err() && m.chol().is_err(), || format!("square-only factorisation accepted a {r}x{k} matrix"))?;
    }
    Ok(())
}

/// Symmetric matrix with prescribed eigenvalues.
fn sym_with(r: &mut Rng, n: usize, ev: &[f64]) -> Arr {
    let q = gen::rot_n(r, n);
    let a = q.mul(&M::diag(ev)).mul(&q.t());
    let mut x = Arr::of(&a);
    for i in 0..n {
        for j in 0..i {
            x.d[i][j] = x.d[j][i];
        }
    }
    x
}

fn c10_chol(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let a = match c.rng.us(4) {
        0 => {
            let s = if c.rng.chance(0.3) { c.rng.logu(100.0, 1e8) } else { c.rng.logu(0.02, 100.0) };
            let d: Vec<f64> = (0..n).map(|_| s * c.rng.uni(0.1, 3.0)).collect();
            Arr::of(&M::diag(&d))
        }
        1 => {
            // integer Gram matrix plus identity
            let b = M::from_fn(n, n, |_, _| c.rng.range(-3, 3) as f64);
            Arr::of(&b.mul(&b.t()).add(&M::eye(n)))
        }
        _ => {
            let s = if c.rng.chance(0.2) { c.rng.logu(50.0, 1e8) } else { c.rng.logu(0.05, 50.0) };
            let ev: Vec<f64> = (0..n).map(|_| s * c.rng.logu(0.02, 2.0)).collect();
            sym_with(&mut c.rng, n, &ev)
        }
    };
    let (ev, _) = a.m64().jacobi();
    let lo = ev[..n].iter().cloned().fold(f64::MAX, f64::min);
    let hi = ev[..n].iter().cloned().fold(0.0, f64::max);
    if lo < 1e-3 || lo < hi * 1e-3 {
        c.hit("ill-conditioned(skipped)");
        return Ok(());
    }
    c.seen(a.hash());
    let m = mk(&a)?;
    let l = rd(&e("chol", m.chol()).map_err(|e| format!("{e}: {}", a.show()))?)?;
    c.hit("cholesky");
    for i in 0..n {
        c.check(l.d[i][i] > 0.0, || format!("Cholesky factor diagonal {} of {}", l.show(), a.show()))?;
        for j in (i + 1)..n {
            c.check((l.d[i][j] as f64).abs() <= 1e-6 * hi.sqrt(), || format!("Cholesky factor of {} is not lower triangular: {}", a.show(), l.show()))?;
        }
    }
    let p = l.m64().mul(&l.m64().t());
    let mag = l.m64().abs().mul(&l.m64().abs().t());
    for i in 0..n {
        for j in 0..n {
            c.close("chol", p.a[i][j], a.d[i][j] as f64, 6.0 * (n as f64 + 2.0) * U * mag.a[i][j] * (1.0 + 0.02 * hi / lo) + 4.0 * U * hi).map_err(|e| format!("{e}: L*L^T differs from {}", a.show()))?;
        }
    }
    c.check(rd(&m)?.same(&a), || "chol modified its input".into())
}

fn minors_clear(a: &Arr) -> bool {
    (1..=a.r).all(|k| {
        let m = M::from_fn(k, k, |i, j| a.d[i][j] as f64);
        m.det().abs() > 1e-2
    })
}

/// Matrices that are not symmetric positive definite: returns None when the draw is unclear.
fn not_spd(c: &mut Case) -> Option<(Arr, &'static str)> {
    let (mut a, kind) = not_spd_unit(c)?;
    if c.rng.chance(0.2) {
        let s = c.rng.logu(1.0, 1e8) as f32;
        for i in 0..a.r {
            for j in 0..a.c {
                a.d[i][j] *= s;
            }
        }
    }
    Some((a, kind))
}

fn not_spd_unit(c: &mut Case) -> Option<(Arr, &'static str)> {
    let n = 1 + c.rng.us(4);
    match c.rng.us(4) {
        3 => {
            // integers, with a diagonal element that is not positive
            let mut a = Arr::from_fn(n, n, |_, _| c.rng.range(-3, 3) as f32);
            let k = c.rng.us(n);
            for i in 0..n {
                for j in 0..i {
                    a.d[i][j] = a.d[j][i];
                }
                a.d[i][i] = a.d[i][i].abs();
            }
            a.d[k][k] = -(c.rng.range(0, 2) as f32);
            let clear = a.d[0][0] <= 0.0 || (1..=n).any(|k| M::from_fn(k, k, |i, j| a.d[i][j] as f64).det() < -0.5);
            if clear {
                Some((a, "diagonal-not-positive"))
            } else {
                None
            }
        }
        0 if n > 1 => {
            let ev: Vec<f64> = (0..n).map(|_| c.rng.uni(0.5, 4.0)).collect();
            let mut a = sym_with(&mut c.rng, n, &ev);
            let i = c.rng.us(n);
            let j = (i + 1 + c.rng.us(n - 1)) % n;
            a.d[i][j] += (c.rng.sign() * c.rng.logu(3e-4, 2.0)) as f32;
            Some((a, "not-symmetric"))
        }
        1 => {
            let mut ev: Vec<f64> = (0..n).map(|_| c.rng.uni(0.3, 4.0) * if c.rng.chance(0.3) { -1.0 } else { 1.0 }).collect();
            let k = c.rng.us(n);
            ev[k] = -c.rng.uni(0.3, 4.0);
            let a = sym_with(&mut c.rng, n, &ev);
            if minors_clear(&a) {
                Some((a, "indefinite"))
            } else {
                None
            }
        }
        _ => {
            // exactly singular, positive semi-definite
            let v: Vec<f64> = (0..n).map(|_| *c.rng.pick(&[0.0, 1.0, -1.0, 2.0, -2.0])).collect();
            let a = if n == 1 {
                Arr::zero(1, 1)
            } else if c.rng.bool() {
                Arr::of(&M::from_fn(n, n, |i, j| v[i] * v[j]))
            } else {
                let mut d: Vec<f64> = (0..n).map(|_| *c.rng.pick(&[1.0, 2.0, 0.5, 3.0])).collect();
                let k = c.rng.us(n);
                d[k] = 0.0;
                Arr::of(&M::diag(&d))
            };
            Some((a, "semidefinite"))
        }
    }
}

fn c10_refuse(c: &mut Case) -> Res {
    if let Some((a, kind)) = not_spd(c) {
        c.hit(kind);
        c.seen(a.hash());
        let m = mk(&a)?;
        let g = m.chol();
        c.check(g.is_err(), || format!("chol accepted the {kind} matrix {}", a.show()))?;
    }
    Ok(())
}

fn c10_qr(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let m = n + c.rng.us(5 - n);
    let f: fn(&mut Rng) -> f32 = if c.rng.bool() { gen::moderate } else { |r| r.uni(-3.0, 3.0) as f32 };
    let a = if m == n && c.rng.bool() { scaled(&mut c.rng, n).0 } else { gen::arr(&mut c.rng, m, n, f) };
    let mut a = a;
    if c.rng.chance(0.1) {
        let s = c.rng.logu(1.0, 1e8) as f32;
        a = Arr::from_fn(m, n, |i, j| a.d[i][j] * s);
    }
    let am = a.m64();
    let g = am.t().mul(&am);
    let (ev, _) = g.jacobi();
    let lo = ev[..n].iter().cloned().fold(f64::MAX, f64::min).max(0.0).sqrt();
    let hi = ev[..n].iter().cloned().fold(0.0, f64::max).sqrt();
    if lo < 0.01 || lo < hi * 0.003 || hi > 1e12 {
        c.hit("ill-conditioned(skipped)");
        return Ok(());
    }
    let kappa = hi / lo;
    c.seen(a.hash());
    let mm = mk(&a)?;
    let (q, r) = e("qr_decomp", mm.qr_decomp()).map_err(|e| format!("{e}: {}", a.show()))?;
    let (q, r) = (rd(&q)?, rd(&r)?);
    c.hit(if m == n { "qr-square" } else { "qr-tall" });
    c.check(q.r == m && q.c == n && r.r == n && r.c == n, || format!("QR of {m}x{n} gives Q {}x{} and R {}x{}", q.r, q.c, r.r, r.c))?;
    let qq = q.m64().t().mul(&q.m64());
    for i in 0..n {
        for j in 0..n {
            c.close("qr-orthonormal", qq.a[i][j], if i == j { 1.0 } else { 0.0 }, 30.0 * U * n as f64 * kappa).map_err(|e| format!("{e}: Q of {}", a.show()))?;
            if j < i {
                c.close("qr-triangular", r.d[i][j] as f64, 0.0, 30.0 * U * n as f64 * kappa * hi).map_err(|e| format!("{e}: R of {}", a.show()))?;
            }
        }
    }
    let p = q.m64().mul(&r.m64());
    for i in 0..m {
        for j in 0..n {
            c.close("qr", p.a[i][j], a.d[i][j] as f64, 30.0 * U * n as f64 * kappa * hi).map_err(|e| format!("{e}: Q*R differs from {}", a.show()))?;
        }
    }
    c.check(rd(&mm)?.same(&a), || "qr modified its input".into())
}

/// Singular and nearly singular matrices: Q stays orthonormal and the product stays the input.
fn c10_qr_dependent(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let m = n + c.rng.us(5 - n);
    let mut a = if c.rng.bool() { gen::arr(&mut c.rng, m, n, |r| r.range(-2, 2) as f32) } else { gen::arr(&mut c.rng, m, n, |r| r.uni(-3.0, 3.0) as f32) };
    let eps = if c.rng.bool() { 0.0 } else { c.rng.logu(1e-7, 1e-2) };
    let at = c.rng.us(n);
    for i in 0..m {
        let mut x = if c.rng.bool() || n == 1 { 0.0 } else { a.d[i][(at + 1) % n] };
        if eps > 0.0 {
            x += (eps * c.rng.uni(-1.0, 1.0)) as f32;
        }
        a.d[i][at] = x;
    }
    if n > 1 && c.rng.bool() {
        // exact multiple of another column
        let k = *c.rng.pick(&[1.0f32, -1.0, 2.0, 0.5]);
        for i in 0..m {
            a.d[i][at] = k * a.d[i][(at + 1) % n];
        }
    }
    let s = if c.rng.chance(0.3) { c.rng.logu(1.0, 1e8) } else { 1.0 };
    if s > 1e3 {
        c.hit("qr-large-dependent");
    }
    let a = Arr::from_fn(m, n, |i, j| a.d[i][j] * s as f32);
    let low = if s > 1.0 { 4e-6 * a.m64().max_abs() } else { 0.0 };
    c.seen(a.hash());
    let mm = mk(&a)?;
    let (q, r) = e("qr_decomp", mm.qr_decomp()).map_err(|e| format!("{e}: {}", a.show()))?;
    let (q, r) = (rd(&q)?, rd(&r)?);
    c.hit(if eps == 0.0 { "qr-dependent" } else { "qr-nearly-dependent" });
    c.check(q.r == m && q.c == n && r.r == n && r.c == n, || format!("QR of {m}x{n} gives Q {}x{} and R {}x{}", q.r, q.c, r.r, r.c))?;
    let qq = q.m64().t().mul(&q.m64());
    let p = q.m64().mul(&r.m64());
    for i in 0..n {
        for j in 0..n {
            c.close("qr-orthonormal-dependent", qq.a[i][j], if i == j { 1.0 } else { 0.0 }, 2e-5).map_err(|e| format!("{e}: Q of {}", a.show()))?;
            if j < i {
                c.close("qr-triangular-dependent", r.d[i][j] as f64, 0.0, 2e-4 + low).map_err(|e| format!("{e}: R of {}", a.show()))?;
            }
        }
    }
    for i in 0..m {
        for j in 0..n {
            c.close("qr-dependent", p.a[i][j], a.d[i][j] as f64, 4e-4 + 2.0 * low).map_err(|e| format!("{e}: Q*R differs from {}", a.show()))?;
        }
    }
    c.check(rd(&mm)?.same(&a), || "qr modified its input".into())
}

pub const C10: &[Stratum] = &[
    Stratum { name: "lu", f: c10_lu, quick: 60_000, thorough: 2_500_000, need: &["lr", "lu_crout", "lu-rectangular"] },
    Stratum { name: "cholesky", f: c10_chol, quick: 40_000, thorough: 1_500_000, need: &["cholesky"] },
    Stratum { name: "cholesky-refused", f: c10_refuse, quick: 20_000, thorough: 500_000, need: &["not-symmetric", "indefinite", "semidefinite"] },
    Stratum { name: "qr-dependent", f: c10_qr_dependent, quick: 60_000, thorough: 2_500_000, need: &["qr-dependent", "qr-nearly-dependent", "qr-large-dependent"] },
    Stratum { name: "qr", f: c10_qr, quick: 60_000, thorough: 2_500_000, need: &["qr-square", "qr-tall"] },
];

// ---------------------------------------------------------------- C11

fn eigen_ok(c: &mut Case, a: &Arr, vals: &[f32], vecs: &Arr) -> Res {
    let n = a.r;
    let am = a.m64();
    let (ev, _) = am.jacobi();
    let mut want: Vec<f64> = ev[..n].to_vec();
    let mut got: Vec<f64> = vals.iter().map(|x| *x as f64).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    got.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let norm = want.iter().map(|x| x.abs()).fold(0.0, f64::max);
    for i in 0..n {
        c.close("eigenvalue", got[i], want[i], 4e-3 * norm + 1e-4).map_err(|e| format!("{e}: eigenvalues {vals:?} of {}", a.show()))?;
    }
    for k in 0..n {
        let v: Vec<f64> = (0..n).map(|i| vecs.d[i][k] as f64).collect();
        let nv = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        c.close("eigenvector-norm", nv, 1.0, 4e-5).map_err(|e| format!("{e}: eigenvector {k} of {}", a.show()))?;
        let mut res = 0.0f64;
        for i in 0..n {
            let av: f64 = (0..n).map(|j| am.a[i][j] * v[j]).sum();
            res += (av - vals[k] as f64 * v[i]).powi(2);
        }
        c.close("eigen-residual", res.sqrt(), 0.0, 0.01 * norm + 2e-4).map_err(|e| format!("{e}: eigenpair {k} ({}, {v:?}) of {}", vals[k], a.show()))?;
        for l in 0..k {
            let d: f64 = (0..n).map(|i| vecs.d[i][k] as f64 * vecs.d[i][l] as f64).sum();
            c.close("eigenvector-orthogonality", d, 0.0, 4e-5).map_err(|e| format!("{e}: eigenvectors {l},{k} of {}", a.show()))?;
        }
    }
    Ok(())
}

fn separated(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut ev = Vec::new();
    let mut m = r.logu(0.5, 20.0);
    for _ in 0..n {
        ev.push(m * r.sign());
        m *= r.uni(0.1, 0.65);
    }
    if *ev.last().map(|x: &f64| x).unwrap_or(&1.0) != 0.0 && n > 1 && r.chance(0.1) {
        ev[n - 1] = 0.0;
    }
    ev
}

fn c11_converges(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let mut ev = separated(&mut c.rng, n);
    // keep every eigenvalue well above the absolute tolerance of the library
    let least = if ev[n - 1] == 0.0 && n > 1 { ev[n - 2].abs() } else { ev[n - 1].abs() };
    if least < 0.02 {
        for x in ev.iter_mut() {
            *x *= 0.02 / least;
        }
    }
    if c.rng.chance(0.2) {
        c.hit("large-eigenvalues");
        let s = c.rng.logu(1.0, 1e8);
        for x in ev.iter_mut() {
            *x *= s;
        }
    }
    if ev[n - 1] == 0.0 {
        c.hit("zero-eigenvalue");
    }
    let kind = c.rng.us(6);
    let a = match kind {
        0 => {
            let p = gen::perm(&mut c.rng, n);
            let d: Vec<f64> = p.iter().map(|i| ev[*i]).collect();
            Arr::of(&M::diag(&d))
        }
        _ => sym_with(&mut c.rng, n, &ev),
    };
    c.seen(a.hash());
    c.sample(|| format!("eigenvalues {ev:?}: {}", a.show()));
    let m = mk(&a)?;
    let niter = *c.rng.pick(&[300u16, 1000]);
    // the shifted iteration is only certain to converge when nothing is left after its first deflation
    let shifted = n <= 2 && c.rng.chance(0.3);
    if shifted {
        c.hit("shifted");
    }
    let (vals, vecs) = e("eigen", eigen(&m, niter, shifted)).map_err(|e| format!("{e} after {niter} iterations on {} with eigenvalues {ev:?}", a.show()))?;
    let (vals, vecs) = (rdv(&vals)?, rd(&vecs)?);
    c.check(vals.len() == n && vecs.r == n && vecs.c == n, || "eigen result sizes".into())?;
    c.hit("converged");
    eigen_ok(c, &a, &vals, &vecs)?;
    c.check(rd(&m)?.same(&a), || "eigen modified its input".into())
}

/// Too few iterations, equal magnitudes, multiple eigenvalues: a result must be right, else an error.
fn c11_limit(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let ev: Vec<f64> = match c.rng.us(4) {
        0 => separated(&mut c.rng, n),
        1 => {
            let m = c.rng.logu(0.5, 10.0);
            (0..n).map(|_| m * c.rng.sign()).collect()
        }
        2 => (0..n).map(|_| c.rng.range(-3, 3) as f64).collect(),
        _ => (0..n).map(|_| c.rng.uni(-5.0, 5.0)).collect(),
    };
    let a = if c.rng.chance(0.3) {
        let mut x = Arr::zero(n, n);
        for i in 0..n {
            for j in i..n {
                let v = c.rng.range(-2, 2) as f32;
                x.d[i][j] = v;
                x.d[j][i] = v;
            }
        }
        x
    } else {
        sym_with(&mut c.rng, n, &ev)
    };
    let s = if c.rng.chance(0.2) { c.rng.logu(1e-3, 1e8) as f32 } else { 1.0 };
    let a = Arr::from_fn(n, n, |i, j| a.d[i][j] * s);
    let niter = *c.rng.pick(&[0u16, 1, 1, 2, 3, 5, 10, 40]);
    let m = mk(&a)?;
    let shifted = c.rng.chance(0.4);
    if niter < 2 {
        c.hit("low-limit");
    }
    c.seen(a.hash() ^ niter as u64 ^ (shifted as u64) << 32);
    match eigen(&m, niter, shifted) {
        Ok((v, w)) => {
            c.hit(if shifted { "shifted-result" } else { "limit-result" });
            let (v, w) = (rdv(&v)?, rd(&w)?);
            eigen_ok(c, &a, &v, &w).map_err(|e| format!("with a limit of {niter} iterations (shifted: {shifted}): {e}"))?;
        }
        Err(_) => c.hit("limit-error"),
    }
    c.check(rd(&m)?.same(&a), || "eigen modified its input".into())?;
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        c.hit("rectangular");
        let m = mk(&gen::arr(&mut c.rng, r, k, gen::moderate))?;
        c.check(eigen(&m, 20, false).is_err(), || format!("eigen accepted a {r}x{k} matrix"))?;
    }
    Ok(())
}

pub const C11: &[Stratum] = &[
    Stratum { name: "converges", f: c11_converges, quick: 30_000, thorough: 1_000_000, need: &["converged", "zero-eigenvalue", "shifted", "large-eigenvalues"] },
    Stratum { name: "limit", f: c11_limit, quick: 30_000, thorough: 1_000_000, need: &["limit-result", "shifted-result", "low-limit", "rectangular"] },
];

// ---------------------------------------------------------------- C12

fn ask(c: &mut Case, what: &str, got: LR<bool>, want: bool, err_counts_as_false: bool, a: &Arr) -> Res {
    c.hit(if want { "expects-true" } else { "expects-false" });
    c.hit(&format!("{what}:{want}"));
    let ok = match &got {
        Ok(b) => *b == want,
        Err(_) => !want && err_counts_as_false,
    };
    c.check(ok, || format!("{what} answers {got:?}, expected {want}, for {}", a.show()))
}

fn c12_shape(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let (r2, k2) = if c.rng.bool() { (r, k) } else { gen::dims(&mut c.rng) };
    let a = gen::arr(&mut c.rng, r, k, gen::any_finite);
    let b = gen::arr(&mut c.rng, r2, k2, gen::any_finite);
    let (ma, mb) = (mk(&a)?, mk(&b)?);
    c.seen((r * 64 + k * 16 + r2 * 4 + k2) as u64);
    ask(c, "is_square", ma.is_square(), r == k, false, &a)?;
    ask(c, "is_same_size_as", ma.is_same_size_as(&mb), r == r2 && k == k2, false, &a)?;
    let (va, vb) = (mkv(&gen::vecf(&mut c.rng, r, gen::any_finite))?, mkv(&gen::vecf(&mut c.rng, r2, gen::any_finite))?);
    ask(c, "v.is_same_size_as", va.is_same_size_as(&vb), r == r2, false, &a)?;
    c.check(rd(&ma)?.same(&a) && rd(&mb)?.same(&b), || "predicate modified operand".into())
}

fn c12_equal(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let mut a = gen::arr(&mut c.rng, r, k, gen::moderate);
    if c.rng.chance(0.1) {
        let s = c.rng.logu(1e-6, 1e20) as f32;
        a = Arr::from_fn(r, k, |i, j| a.d[i][j] * s);
    }
    let tol = *c.rng.pick(&[1e-4f32, 1e-3, 0.1, 0.5, 1.0, 0.0, 1e-5, 1e-6]);
    let mut b = a;
    let inside = c.rng.bool();
    if tol > 0.0 {
        for i in 0..r {
            for j in 0..k {
                b.d[i][j] = (a.d[i][j] as f64 + c.rng.uni(-0.9, 0.9) * tol as f64) as f32;
            }
        }
    }
    let (i, j) = (c.rng.us(r), c.rng.us(k));
    if !inside {
        b.d[i][j] = (a.d[i][j] as f64 + c.rng.sign() * (tol as f64 * c.rng.uni(1.01, 4.0) + if tol < 1e-4 || c.rng.bool() { c.rng.logu(1e-7, 1e-3) } else { 0.0 })) as f32;
    }
    // judge from the actual rounded values
    let mut maxd = 0.0f64;
    for i in 0..r {
        for j in 0..k {
            maxd = maxd.max((a.d[i][j] as f64 - b.d[i][j] as f64).abs());
        }
    }
    let slack = 4.0 * U * a.m64().max_abs().max(tol as f64);
    let want = if maxd <= tol as f64 - slack || maxd == 0.0 {
        true
    } else if maxd > tol as f64 + slack {
        false
    } else {
        return Ok(());
    };
    c.seen(a.hash() ^ (i * 4 + j) as u64);
    let (ma, mb) = (mk(&a)?, mk(&b)?);
    ask(c, "is_equal_to", ma.is_equal_to(&mb, tol), want, false, &b).map_err(|e| format!("{e} (tolerance {tol}, other {})", a.show()))?;
    ask(c, "is_equal_to", mb.is_equal_to(&ma, tol), want, false, &a)?;
    let row = c.rng.us(r);
    let x: Vec<f32> = a.d[row][..k].to_vec();
    let y: Vec<f32> = b.d[row][..k].to_vec();
    let md = (0..k).map(|q| (x[q] as f64 - y[q] as f64).abs()).fold(0.0, f64::max);
    if md <= tol as f64 - slack || md == 0.0 || md > tol as f64 + slack {
        let w = md <= tol as f64;
        let ax = Arr::from_fn(1, k, |_, q| x[q]);
        ask(c, "v.is_equal_to", mkv(&x)?.is_equal_to(&mkv(&y)?, tol), w, false, &ax).map_err(|e| format!("{e} against {y:?} tolerance {tol}"))?;
    }
    // different sizes are never equal (an error or false)
    let (r2, k2) = gen::dims(&mut c.rng);
    if (r2, k2) != (r, k) {
        let o = mk(&Arr::zero(r2, k2))?;
        let z = mk(&Arr::zero(r, k))?;
        let g = z.is_equal_to(&o, 1.0);
        c.check(!matches!(g, Ok(true)), || format!("{r}x{k} equals {r2}x{k2}"))?;
        // same leading elements
        let o = mk(&Arr::from_fn(r2, k2, |i, j| a.d[i][j]))?;
        let g = ma.is_equal_to(&o, 1.0);
        c.check(!matches!(g, Ok(true)), || format!("{r}x{k} equals {r2}x{k2} with the same leading elements"))?;
    }
    if k != k2 {
        let o = mkv(&a.d[row][..k2])?;
        let g = mkv(&x)?.is_equal_to(&o, 1.0);
        c.hit("v.is_equal_to:sizes");
        c.check(!matches!(g, Ok(true)), || format!("vector of {k} components equals one of {k2} components"))?;
    }
    c.check(rd(&ma)?.same(&a) && rd(&mb)?.same(&b), || "predicate modified operand".into())
}

/// Magnitude of a violation: clearly above the documented 1e-4 tolerance, or clearly inside rounding.
fn defect(r: &mut Rng) -> f32 {
    (r.sign() * if r.bool() { r.uni(1.2e-4, 4e-4) } else { r.logu(2e-4, 5.0) }) as f32
}

fn c12_triangular(c: &mut Case) -> Res {
    let (r, k) = gen::dims(&mut c.rng);
    let noise = c.rng.chance(0.4);
    let large = if c.rng.chance(0.1) { c.rng.logu(10.0, 1e20) as f32 } else { 1.0 };
    let mut gen_tri = |upper: bool| {
        Arr::from_fn(r, k, |i, j| {
            let zero = if upper { j < i } else { j > i };
            if zero {
                if noise {
                    c.rng.uni(-0.8e-4, 0.8e-4) as f32
                } else {
                    0.0
                }
            } else {
                gen::moderate(&mut c.rng) * large
            }
        })
    };
    let up = gen_tri(true);
    let lo = gen_tri(false);
    ask(c, "is_upper_triangular", mk(&up)?.is_upper_triangular(), true, false, &up)?;
    ask(c, "is_lower_triangular", mk(&lo)?.is_lower_triangular(), true, false, &lo)?;
    // break each forbidden position in turn
    for i in 0..r {
        for j in 0..k {
            if j < i {
                let mut b = up;
                b.d[i][j] = defect(&mut c.rng);
                c.seen(b.hash());
                ask(c, "is_upper_triangular", mk(&b)?.is_upper_triangular(), false, false, &b)?;
            }
            if j > i {
                let mut b = lo;
                b.d[i][j] = defect(&mut c.rng);
                c.seen(b.hash());
                ask(c, "is_lower_triangular", mk(&b)?.is_lower_triangular(), false, false, &b)?;
            }
        }
    }
    Ok(())
}

fn c12_symmetric(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let s = if c.rng.chance(0.2) { c.rng.logu(1e-6, 1e12) as f32 } else { 1.0 };
    let mut a = gen::arr(&mut c.rng, n, n, gen::moderate);
    for i in 0..n {
        for j in 0..n {
            a.d[i][j] *= s;
        }
    }
    for i in 0..n {
        for j in 0..i {
            a.d[i][j] = a.d[j][i];
        }
    }
    ask(c, "is_symmetric", mk(&a)?.is_symmetric(), true, false, &a)?;
    // asymmetry inside the tolerance
    let mut b = a;
    for i in 0..n {
        for j in 0..i {
            b.d[i][j] = (a.d[j][i] as f64 + c.rng.uni(-0.8e-4, 0.8e-4)) as f32;
        }
    }
    if (0..n).all(|i| (0..i).all(|j| (b.d[i][j] as f64 - b.d[j][i] as f64).abs() < 0.95e-4)) {
        c.hit("within-tolerance");
        ask(c, "is_symmetric", mk(&b)?.is_symmetric(), true, false, &b)?;
    }
    for i in 0..n {
        for j in 0..n {
            if i != j {
                let mut b = a;
                b.d[i][j] = (a.d[i][j] as f64 + defect(&mut c.rng) as f64 * s.max(1.0) as f64) as f32;
                if (b.d[i][j] as f64 - a.d[i][j] as f64).abs() > 1.1e-4 {
                    c.seen(b.hash());
                    ask(c, "is_symmetric", mk(&b)?.is_symmetric(), false, false, &b)?;
                }
            }
        }
    }
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        let z = if c.rng.bool() { Arr::zero(r, k) } else { gen::arr(&mut c.rng, r, k, gen::moderate) };
        ask(c, "is_symmetric", mk(&z)?.is_symmetric(), false, false, &z)?;
    }
    Ok(())
}

fn c12_posdef(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let s = if c.rng.chance(0.2) { c.rng.logu(20.0, 1e8) } else { c.rng.logu(0.1, 20.0) };
    let ev: Vec<f64> = (0..n).map(|_| s * c.rng.logu(0.05, 2.0)).collect();
    let a = sym_with(&mut c.rng, n, &ev);
    c.seen(a.hash());
    ask(c, "is_positive_definite", mk(&a)?.is_positive_definite(), true, false, &a)?;
    if let Some((b, kind)) = not_spd(c) {
        c.hit(kind);
        c.seen(b.hash());
        ask(c, "is_positive_definite", mk(&b)?.is_positive_definite(), false, kind == "not-symmetric", &b)?;
    }
    Ok(())
}

fn c12_orthogonal(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let mut q = gen::rot_n(&mut c.rng, n);
    let mut so = true;
    if c.rng.bool() {
        let i = c.rng.us(n);
        for j in 0..n {
            q.a[i][j] = -q.a[i][j];
        }
        so = false;
    }
    if c.rng.chance(0.2) {
        // exact signed permutation
        let p = gen::perm(&mut c.rng, n);
        q = M::from_fn(n, n, |i, j| if p[i] == j { c.rng.sign() } else { 0.0 });
        so = q.det() > 0.0;
    }
    let a = Arr::of(&q);
    let m = mk(&a)?;
    c.seen(a.hash());
    ask(c, "is_orthogonal", m.is_orthogonal(), true, false, &a)?;
    ask(c, "is_so_n", m.is_so_n(), so, false, &a)?;
    c.check(rd(&m)?.same(&a), || "predicate modified operand".into())?;
    // clear violations
    let d = c.rng.logu(1e-5, 1.0);
    let b = match c.rng.us(5) {
        4 => {
            // nowhere near orthogonal: equal elements, a lone element, ordered elements, tiny elements
            let x = c.rng.sign() * if c.rng.chance(0.3) { 1.0 } else { c.rng.logu(1e-9, 1e8) };
            let (p, k) = (c.rng.us(n), c.rng.us(n));
            match c.rng.us(4) {
                0 => M::from_fn(n, n, |_, _| x),
                1 => M::from_fn(n, n, |i, j| if i == p && j == k { x } else { 0.0 }),
                2 => M::from_fn(n, n, |i, j| x * (1.0 + (i * n + j) as f64)),
                _ => M::from_fn(n, n, |_, _| c.rng.gauss() * x),
            }
        }
        0 => {
            let i = c.rng.us(n);
            let mut b = q;
            for j in 0..n {
                b.a[i][j] *= 1.0 + d;
            }
            b
        }
        1 if n > 1 => {
            let mut b = q;
            let i = c.rng.us(n);
            let k = (i + 1 + c.rng.us(n - 1)) % n;
            for j in 0..n {
                b.a[i][j] += d * q.a[k][j];
            }
            b
        }
        2 if n > 1 => {
            // determinant stays 1
            let i = c.rng.us(n);
            let k = (i + 1 + c.rng.us(n - 1)) % n;
            let mut b = q;
            for j in 0..n {
                b.a[i][j] *= 1.0 + d;
                b.a[k][j] /= 1.0 + d;
            }
            b
        }
        _ => {
            let k = if c.rng.bool() { 1.0 + d * c.rng.sign() * 0.9 } else { c.rng.logu(1e-2, 1e8) };
            q.scale(k)
        }
    };
    let b = Arr::of(&b);
    let bd = b.m64();
    let (g1, g2) = (bd.mul(&bd.t()).sub(&M::eye(n)).max_abs(), bd.t().mul(&bd).sub(&M::eye(n)).max_abs());
    if g1.max(g2) < 0.5e-4 && (bd.det().abs() - 1.0).abs() < 0.8e-4 {
        c.hit("within-tolerance");
        ask(c, "is_orthogonal", mk(&b)?.is_orthogonal(), true, false, &b)?;
        ask(c, "is_so_n", mk(&b)?.is_so_n(), bd.det() > 0.0, false, &b)?;
    }
    if g1.min(g2) > 1.2e-4 {
        c.hit("orthogonality-violation");
        let singular = bd.det().abs() < 1e-3 || bd.det().abs() < 1e-4 * bd.perm_abs(); // reported as such
        ask(c, "is_orthogonal", mk(&b)?.is_orthogonal(), false, singular, &b)?;
        ask(c, "is_so_n", mk(&b)?.is_so_n(), false, singular, &b)?;
    }
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        let z = Arr::from_fn(r, k, |i, j| if i == j { 1.0 } else { 0.0 });
        ask(c, "is_orthogonal", mk(&z)?.is_orthogonal(), false, true, &z)?;
        ask(c, "is_so_n", mk(&z)?.is_so_n(), false, true, &z)?;
    }
    Ok(())
}

pub const C12: &[Stratum] = &[
    Stratum { name: "shape", f: c12_shape, quick: 8000, thorough: 200_000, need: &["is_square:true", "is_square:false", "is_same_size_as:true", "is_same_size_as:false"] },
    Stratum { name: "equality", f: c12_equal, quick: 60_000, thorough: 2_000_000, need: &["is_equal_to:true", "is_equal_to:false", "v.is_equal_to:true", "v.is_equal_to:false", "v.is_equal_to:sizes"] },
    Stratum { name: "triangular", f: c12_triangular, quick: 30_000, thorough: 800_000, need: &["is_upper_triangular:true", "is_upper_triangular:false", "is_lower_triangular:true", "is_lower_triangular:false"] },
    Stratum { name: "symmetric", f: c12_symmetric, quick: 30_000, thorough: 800_000, need: &["is_symmetric:true", "is_symmetric:false", "within-tolerance"] },
    Stratum { name: "definite", f: c12_posdef, quick: 30_000, thorough: 800_000, need: &["is_positive_definite:true", "is_positive_definite:false", "indefinite", "semidefinite"] },
    Stratum { name: "orthogonal", f: c12_orthogonal, quick: 40_000, thorough: 1_500_000, need: &["is_orthogonal:true", "is_orthogonal:false", "is_so_n:true", "is_so_n:false", "orthogonality-violation"] },
];

// ---------------------------------------------------------------- C13

fn c13_normalize(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let v: Vec<f32> = match c.rng.us(4) {
        0 => gen::vecf(&mut c.rng, n, gen::any_finite),
        1 => {
            let l = c.rng.logu(1e-6, 1e-2);
            (0..n).map(|_| (c.rng.uni(-1.0, 1.0) * l) as f32).collect()
        }
        2 => {
            let l = c.rng.logu(1e-3, 1e18);
            (0..n).map(|_| (c.rng.uni(-1.0, 1.0) * l) as f32).collect()
        }
        _ => gen::vecf(&mut c.rng, n, gen::moderate),
    };
    let ss: f64 = v.iter().map(|x| (*x as f64) * (*x as f64)).sum();
    let nn = ss.sqrt();
    let mut m = mkv(&v)?;
    let r = m.normalize();
    if ss > FMAX {
        c.hit("huge");
    }
    c.seen(Arr::from_fn(n, 1, |i, _| v[i]).hash());
    if r.is_err() {
        c.hit("normalise-refused");
        return c.check(ss > FMAX * 0.9, || format!("normalize of {v:?} refused: {r:?}"));
    }
    let g = rdv(&m)?;
    let zero = g.iter().all(|x| *x == 0.0);
    if nn < EPS * 0.9999 {
        c.hit("short");
        return c.check(zero && g.len() == n, || format!("normalize of the short {v:?} gives {g:?}"));
    }
    if nn < EPS * 1.0001 && zero {
        return Ok(());
    }
    c.hit("unit");
    c.check(g.len() == n, || "normalize changed the size".into())?;
    for i in 0..n {
        c.close("normalize", g[i] as f64, v[i] as f64 / nn, 8.0 * U).map_err(|e| format!("{e}: normalize of {v:?} gives {g:?}"))?;
    }
    Ok(())
}

fn unit_n(r: &mut Rng, n: usize) -> Vec<f64> {
    loop {
        let mut v: Vec<f64> = (0..n).map(|_| if r.chance(0.15) { 0.0 } else { r.gauss() }).collect();
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 1e-3 {
            v.iter_mut().for_each(|x| *x /= l);
            return v;
        }
    }
}

fn alpha(r: &mut Rng) -> f32 {
    match r.us(5) {
        0 => *r.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.75]),
        1 => r.logu(1e-6, 1.0) as f32,
        2 => (1.0 - r.logu(1e-6, 1.0)) as f32,
        _ => r.f() as f32,
    }
}

fn bad_alpha(r: &mut Rng) -> f32 {
    *r.pick(&[-0.1f32, 1.1, -1e-3, 1.001, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 2.0, -1e-30, 1.0000002, 1e30])
}

fn c13_lerp(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let f: fn(&mut Rng) -> f32 = if c.rng.chance(0.8) { gen::moderate } else { |r| (r.logu(1e-20, 1e30) * r.sign()) as f32 };
    let (a, b) = (gen::vecf(&mut c.rng, n, f), gen::vecf(&mut c.rng, n, f));
    let al = alpha(&mut c.rng);
    let (va, vb) = (mkv(&a)?, mkv(&b)?);
    let dirt = gen::vecf(&mut c.rng, n, gen::moderate);
    let mut d = mkv(&dirt)?;
    e("lerp", d.lerp(&va, &vb, al)).map_err(|e| format!("{e}: {a:?} {b:?} {al}"))?;
    let g = rdv(&d)?;
    c.hit("lerp");
    c.seen(Arr::from_fn(n, 2, |i, j| if j == 0 { a[i] } else { b[i] }).hash() ^ al.to_bits() as u64);
    for i in 0..n {
        let (x, y) = ((1.0 - al as f64) * a[i] as f64, al as f64 * b[i] as f64);
        c.close("lerp", g[i] as f64, x + y, 4.0 * U * (x.abs() + y.abs()) + U * a[i].abs() as f64 + 4.0 * TINY).map_err(|e| format!("{e}: lerp({a:?},{b:?},{al})"))?;
    }
    if al == 0.0 {
        c.hit("lerp-start");
        c.check(eq_v(&g, &a), || format!("lerp at 0 gives {g:?} instead of {a:?}"))?;
    }
    if al == 1.0 {
        c.hit("lerp-end");
        c.check(eq_v(&g, &b), || format!("lerp at 1 gives {g:?} instead of {b:?}"))?;
    }
    let bad = bad_alpha(&mut c.rng);
    let mut d = mkv(&dirt)?;
    let (r1, r2) = (d.lerp(&va, &vb, bad), d.slerp(&va, &vb, bad));
    c.hit("alpha-refused");
    c.check(r1.is_err() && r2.is_err() && same_v(&rdv(&d)?, &dirt), || format!("interpolation parameter {bad} accepted: {r1:?} {r2:?}"))?;
    let n2 = 1 + c.rng.us(4);
    if n2 != n {
        let o = mkv(&gen::vecf(&mut c.rng, n2, gen::moderate))?;
        let mut oo = mkv(&gen::vecf(&mut c.rng, n2, gen::moderate))?;
        c.hit("size-mismatch");
        let es = [d.lerp(&va, &o, al).is_err(), d.lerp(&o, &va, al).is_err(), d.slerp(&va, &o, al).is_err(), d.slerp(&o, &va, al).is_err(), oo.lerp(&va, &vb, al).is_err(), oo.slerp(&va, &vb, al).is_err()];
        c.check(es.iter().all(|x| *x), || format!("interpolation of sizes {n} and {n2} accepted: {es:?}"))?;
    }
    c.check(same_v(&rdv(&va)?, &a) && same_v(&rdv(&vb)?, &b), || "interpolation modified an operand".into())
}

fn c13_slerp(c: &mut Case) -> Res {
    let n = 2 + c.rng.us(3);
    let a = unit_n(&mut c.rng, n);
    // second vector at a chosen angle
    let th = match c.rng.us(7) {
        0 => 0.0,
        1 => c.rng.logu(1e-8, 1e-1),
        2 => std::f64::consts::FRAC_PI_2,
        3 => c.rng.uni(2.5, 3.0),
        4 => std::f64::consts::PI - c.rng.logu(2e-3, 0.5),
        _ => c.rng.uni(0.01, 3.0),
    };
    let p = loop {
        let o = unit_n(&mut c.rng, n);
        let d: f64 = (0..n).map(|i| a[i] * o[i]).sum();
        let w: Vec<f64> = (0..n).map(|i| o[i] - d * a[i]).collect();
        let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 0.05 {
            break w.iter().map(|x| x / l).collect::<Vec<f64>>();
        }
    };
    let b: Vec<f64> = (0..n).map(|i| a[i] * th.cos() + p[i] * th.sin()).collect();
    let (a32, b32): (Vec<f32>, Vec<f32>) = (a.iter().map(|x| *x as f32).collect(), b.iter().map(|x| *x as f32).collect());
    let b32 = if th == 0.0 { a32.clone() } else { b32 };
    let al = alpha(&mut c.rng);
    let (va, vb) = (mkv(&a32)?, mkv(&b32)?);
    let mut d = mkv(&gen::vecf(&mut c.rng, n, gen::moderate))?;
    e("slerp", d.slerp(&va, &vb, al)).map_err(|e| format!("{e}: {a32:?} {b32:?} {al} (angle {th})"))?;
    let g = rdv(&d)?;
    c.hit(if th < 1e-3 { "slerp-near-equal" } else if th > 3.0 { "slerp-almost-opposite" } else if th > 2.5 { "slerp-wide" } else { "slerp" });
    c.seen(Arr::from_fn(n, 2, |i, j| if j == 0 { a32[i] } else { b32[i] }).hash() ^ al.to_bits() as u64);
    let (s, co) = ((al as f64) * th).sin_cos();
    // the angle is known from the dot product only: what its error does to the result, then the rounding of the two weights
    let al64 = al as f64;
    let t = th.max(2e-3);
    let dt = (8.0 * U / t.sin() + 4.0 * U).min(1e-3);
    let at = |t: f64| [((1.0 - al64) * t).sin() / t.sin(), (al64 * t).sin() / t.sin()];
    let (w, lo, hi) = (at(t), at(t - dt), at(t + dt));
    let moved = |o: [f64; 2]| (0..n).map(|i| (a[i] * (o[0] - w[0]) + b[i] * (o[1] - w[1])).abs()).fold(0.0, f64::max);
    let tol = 2e-6 + 1.5 * moved(lo).max(moved(hi)) + 12.0 * U * t / t.sin() + 6.0 * U * (w[0].abs() + w[1].abs());
    let nn = g.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
    c.close("slerp-norm", nn, 1.0, tol).map_err(|e| format!("{e}: slerp({a32:?},{b32:?},{al})={g:?}"))?;
    for i in 0..n {
        c.close("slerp", g[i] as f64, a[i] * co + p[i] * s, tol).map_err(|e| format!("{e}: slerp({a32:?},{b32:?},{al})={g:?} angle {th}"))?;
    }
    if al == 0.0 || al == 1.0 {
        c.hit("slerp-endpoint");
    }
    c.check(same_v(&rdv(&va)?, &a32) && same_v(&rdv(&vb)?, &b32), || "slerp modified an operand".into())
}

pub const C13: &[Stratum] = &[
    Stratum { name: "normalize", f: c13_normalize, quick: 80_000, thorough: 4_000_000, need: &["unit", "short", "huge"] },
    Stratum { name: "lerp", f: c13_lerp, quick: 60_000, thorough: 3_000_000, need: &["lerp", "lerp-start", "lerp-end", "alpha-refused", "size-mismatch"] },
    Stratum { name: "slerp", f: c13_slerp, quick: 80_000, thorough: 4_000_000, need: &["slerp", "slerp-near-equal", "slerp-wide", "slerp-almost-opposite", "slerp-endpoint"] },
];

// ---------------------------------------------------------------- C31

fn c31_adjugate(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    let (mut a, kind) = gen::square(&mut c.rng, n);
    let top = a.m64().max_abs();
    if top > 0.0 && c.rng.chance(0.2) {
        // the products of three elements stay representable
        let s = (c.rng.logu(1e-9, 1e11) / top) as f32;
        for i in 0..n {
            for j in 0..n {
                a.d[i][j] *= s;
            }
        }
        c.hit("scaled");
    }
    if n > 1 && c.rng.chance(0.2) {
        // rank deficient: one row is a multiple of another
        let i = c.rng.us(n);
        let k = (i + 1 + c.rng.us(n - 1)) % n;
        let f = c.rng.range(-2, 2) as f32;
        for j in 0..n {
            a.d[i][j] = f * a.d[k][j];
        }
        c.hit("rank-deficient");
    }
    let mut m = mk(&a)?;
    e("adjugate_in_place", m.adjugate_in_place()).map_err(|e| format!("{e}: {}", a.show()))?;
    let g = rd(&m)?;
    let ad = a.m64();
    c.check(g.r == n && g.c == n, || format!("the adjugate of a {n}x{n} matrix is {}x{}", g.r, g.c))?;
    c.seen(a.hash());
    c.hit(kind);
    c.sample(|| format!("adjugate of {} is {}", a.show(), g.show()));
    for i in 0..n {
        for j in 0..n {
            let (want, size) = if n == 1 {
                (1.0, 1.0)
            } else {
                let mi = ad.minor(j, i);
                (mi.det() * if (i + j) % 2 == 0 { 1.0 } else { -1.0 }, mi.perm_abs())
            };
            c.close("adjugate", g.d[i][j] as f64, want, 16.0 * U * size + 1e-38).map_err(|e| format!("{e}: element ({i},{j}) of the adjugate of {}", a.show()))?;
        }
    }
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        let z = gen::arr(&mut c.rng, r, k, gen::moderate);
        let mut m = mk(&z)?;
        c.hit("rectangular");
        c.check(m.adjugate_in_place().is_err(), || format!("adjugate of a {r}x{k} matrix accepted"))?;
        c.check(rd(&m)?.same(&z), || "a refused adjugate changed the matrix".into())?;
    }
    Ok(())
}

pub const C31: &[Stratum] =
    &[Stratum { name: "adjugate", f: c31_adjugate, quick: 60_000, thorough: 3_000_000, need: &["rank-deficient", "scaled", "rectangular", "rotation", "reflection", "dense", "permutation"] }];

// ---------------------------------------------------------------- C32

fn c32_lyapunov(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    // stable A, symmetric positive definite Q
    let mut a = gen::arr(&mut c.rng, n, n, |r| r.uni(-1.0, 1.0) as f32);
    let s = 0.9 / a.m64().norm_inf().max(1e-3);
    for i in 0..n {
        for j in 0..n {
            a.d[i][j] = (a.d[i][j] as f64 * s) as f32;
        }
    }
    let ev: Vec<f64> = (0..n).map(|_| c.rng.uni(0.5, 3.0)).collect();
    let q = sym_with(&mut c.rng, n, &ev);
    let (ma, mq) = (mk(&a)?, mk(&q)?);
    let p = e("dlyap", ma.dlyap(&mq)).map_err(|e| format!("{e}: A {} Q {}", a.show(), q.show()))?;
    let g = rd(&p)?;
    c.seen(a.hash() ^ q.hash());
    c.hit("accepted");
    c.sample(|| format!("A {} Q {} gives {}", a.show(), q.show(), g.show()));
    c.check(g.r == n && g.c == n, || format!("solution of a {n}x{n} problem is {}x{}", g.r, g.c))?;
    c.check(rd(&ma)?.same(&a) && rd(&mq)?.same(&q), || "dlyap modified an operand".into())?;
    if g.m64().max_abs() == 0.0 {
        c.hit("null-result(known)"); // listed in known_findings.txt, reproduced by the probe
    } else {
        let x = g.m64();
        let res = a.m64().mul(&x).mul(&a.m64().t()).sub(&x).add(&q.m64()).max_abs();
        c.close("lyapunov-residual", res, 0.0, 1e-2 * x.max_abs()).map_err(|e| format!("{e}: A {} Q {} P {}", a.show(), q.show(), g.show()))?;
    }
    // operands outside the domain
    if let Some((b, kind)) = not_spd(c) {
        let z = gen::arr(&mut c.rng, b.r, b.c, gen::moderate);
        c.hit(kind);
        let r = mk(&z)?.dlyap(&mk(&b)?);
        c.check(r.is_err(), || format!("dlyap accepted Q = {}", b.show()))?;
    }
    let (r, k) = gen::dims(&mut c.rng);
    if r != k {
        c.hit("rectangular");
        let z = gen::arr(&mut c.rng, r, k, gen::moderate);
        c.check(mk(&z)?.dlyap(&mq).is_err(), || format!("dlyap accepted a {r}x{k} matrix"))?;
    } else if r != n {
        c.hit("size-mismatch");
        let z = gen::arr(&mut c.rng, r, r, gen::moderate);
        c.check(mk(&z)?.dlyap(&mq).is_err(), || format!("dlyap accepted sizes {r} and {n}"))?;
    }
    Ok(())
}

pub const C32: &[Stratum] =
    &[Stratum { name: "lyapunov", f: c32_lyapunov, quick: 40_000, thorough: 1_000_000, need: &["accepted", "rectangular", "size-mismatch", "not-symmetric", "indefinite", "semidefinite"] }];
