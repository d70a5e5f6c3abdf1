//! C19-C24, C28: sensors, filters and the attitude generator.
use crate::api::*;
use crate::core::*;
use crate::gen;
use crate::refm::*;
use crate::world::{acfg, acfg_arr, gcfg, gcfg_arr, mcfg, mcfg_arr};
use open_ahrs::accelerometer::Accelerometer;
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as NIM, OpenAHRSError};
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::Gyrometer;
use open_ahrs::magnetometer::Magnetometer;

type OR<T> = Result<T, OpenAHRSError>;
const NEUTRAL: [f32; 12] = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

const LONG: &[&str] = &["history-above-65536", "history-up-to-10000"];

/// Calibration matrix of a coefficient list. `swap` is true for the magnetometer, whose coefficient
/// 'ij' takes the j input into the i output.
fn calib(s: &[f32; 12], mag: bool) -> M {
    let mut m = M::zero(3, 3);
    for i in 0..3 {
        m.a[i][i] = s[i] as f64;
    }
    for (k, (i, j)) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].iter().enumerate() {
        let v = s[3 + k] as f64;
        if mag {
            m.a[*i][*j] = v;
        } else {
            m.a[*j][*i] = v;
        }
    }
    m
}

/// (corrected, error bound per component)
fn correct(s: &[f32; 12], mag: bool, raw: [f32; 3]) -> (V3, V3) {
    let m = calib(s, mag);
    let mut out = [0.0; 3];
    let mut tol = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            let d = raw[j] as f64 - s[9 + j] as f64;
            out[i] += m.a[i][j] * d;
            tol[i] += (m.a[i][j] * d).abs();
        }
        tol[i] = 12.0 * U * tol[i] + 1e-40;
    }
    (out, tol)
}

// ---------------------------------------------------------------- C19

enum Sensor {
    G(Gyrometer),
    A(Accelerometer),
    M(Magnetometer),
}

impl Sensor {
    fn new(k: usize) -> OR<Sensor> {
        Ok(match k {
            0 => Sensor::G(Gyrometer::new()?),
            1 => Sensor::A(Accelerometer::new()?),
            _ => Sensor::M(Magnetometer::new()?),
        })
    }
    fn init(&mut self, s: &[f32; 12]) -> OR<()> {
        match self {
            Sensor::G(x) => x.init(&gcfg(s)),
            Sensor::A(x) => x.init(&acfg(s)),
            Sensor::M(x) => x.init(&mcfg(s)),
        }
    }
    fn set(&mut self, s: &[f32; 12]) -> OR<()> {
        match self {
            Sensor::G(x) => x.set_config(&gcfg(s)),
            Sensor::A(x) => x.set_config(&acfg(s)),
            Sensor::M(x) => x.set_config(&mcfg(s)),
        }
    }
    fn cfg(&mut self) -> OR<[f32; 12]> {
        match self {
            Sensor::G(x) => x.get_config().map(|c| gcfg_arr(&c)),
            Sensor::A(x) => x.get_config().map(|c| acfg_arr(&c)),
            Sensor::M(x) => x.get_config().map(|c| mcfg_arr(&c)),
        }
    }
    fn update(&mut self, v: [f32; 3]) -> OR<()> {
        match self {
            Sensor::G(x) => x.update(v[0], v[1], v[2]),
            Sensor::A(x) => x.update(v[0], v[1], v[2]),
            Sensor::M(x) => x.update(v[0], v[1], v[2]),
        }
    }
    fn out(&self) -> [OR<f32>; 3] {
        match self {
            Sensor::G(x) => [x.get_x_angular_rate(), x.get_y_angular_rate(), x.get_z_angular_rate()],
            Sensor::A(x) => [x.get_x_acceleration(), x.get_y_acceleration(), x.get_z_acceleration()],
            Sensor::M(x) => [x.get_x_magnetic_field(), x.get_y_magnetic_field(), x.get_z_magnetic_field()],
        }
    }
    fn out3(&self) -> Result<[f32; 3], String> {
        let o = self.out();
        let mut r = [0.0; 3];
        for (i, x) in o.into_iter().enumerate() {
            r[i] = e("sensor output", x)?;
        }
        Ok(r)
    }
}

fn coeffs(r: &mut Rng) -> [f32; 12] {
    let mut s = NEUTRAL;
    match r.us(5) {
        0 => {
            // one coefficient only
            let k = r.us(12);
            s[k] = r.uni(-3.0, 3.0) as f32;
        }
        1 => {
            for k in 0..12 {
                s[k] = (k as f32 + 1.0) * 0.25 * if r.bool() { 1.0 } else { -1.0 };
            }
        }
        2 => s = near(r),
        _ => {
            for x in s.iter_mut() {
                *x = gen::moderate(r);
            }
        }
    }
    s
}

/// Coefficients near the neutral ones (invertible and well conditioned).
fn near(r: &mut Rng) -> [f32; 12] {
    let mut s = NEUTRAL;
    for x in s.iter_mut().take(3) {
        *x = r.uni(0.8, 1.25) as f32;
    }
    for x in s.iter_mut().skip(3).take(6) {
        *x = if r.chance(0.3) { 0.0 } else { r.uni(-0.1, 0.1) as f32 };
    }
    for x in s.iter_mut().skip(9) {
        *x = if r.chance(0.3) { 0.0 } else { r.uni(-0.05, 0.05) as f32 };
    }
    s
}

fn bad(r: &mut Rng) -> f32 {
    *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY])
}

/// Number of calls of a long history on one object (beyond the range of 8 and 16 bit counters).
fn long(c: &mut Case) -> usize {
    let n = [140_000, 100, 300, 1_000, 3_000, 10_000][c.idx as usize % 6];
    c.hit(if n > 65_536 { "history-above-65536" } else { "history-up-to-10000" });
    n
}

fn c19_history(c: &mut Case) -> Res {
    let n = 4 + c.rng.us(20);
    c19_run(c, n)
}

fn c19_long(c: &mut Case) -> Res {
    let n = long(c);
    c19_run(c, n)
}

fn c19_run(c: &mut Case, steps: usize) -> Res {
    let kind = c.rng.us(3);
    let mag = kind == 2;
    let mut s = e("sensor new", Sensor::new(kind))?;
    let mut model: Option<[f32; 12]> = None;
    let mut last: Option<[f32; 3]> = None; // outputs that must persist
    for _ in 0..steps {
        match c.rng.us(9) {
            0 | 1 => {
                let mut k = coeffs(&mut c.rng);
                let broken = c.rng.chance(0.3);
                if broken {
                    let i = c.rng.us(12);
                    k[i] = bad(&mut c.rng);
                }
                let r = s.init(&k);
                if model.is_some() {
                    c.hit("double-init");
                    c.check(r.is_err(), || "second initialisation of a sensor accepted".into())?;
                } else if broken {
                    c.hit("init-refused");
                    c.check(r.is_err(), || format!("sensor {kind} initialised with {k:?}"))?;
                    let u = s.out();
                    c.check(u.iter().all(|x| x.is_err()), || format!("sensor {kind} usable after a failed initialisation"))?;
                } else {
                    c.hit("init");
                    e("sensor init", r)?;
                    model = Some(k);
                    last = Some(s.out3()?);
                }
            }
            2 => {
                let mut k = coeffs(&mut c.rng);
                let broken = c.rng.bool();
                if broken {
                    let i = c.rng.us(12);
                    k[i] = bad(&mut c.rng);
                }
                let r = s.set(&k);
                if model.is_none() {
                    c.hit("set-uninitialised");
                    c.check(r.is_err(), || "configuration of an uninitialised sensor accepted".into())?;
                } else if broken {
                    c.hit("set-refused");
                    c.check(r.is_err(), || format!("sensor {kind} accepted configuration {k:?}"))?;
                } else {
                    c.hit("set");
                    e("sensor set_config", r)?;
                    model = Some(k);
                    last = None; // outputs are refreshed by the next sample
                }
            }
            3 => {
                // rejected sample
                let mut v = [gen::moderate(&mut c.rng), gen::moderate(&mut c.rng), gen::moderate(&mut c.rng)];
                let i = c.rng.us(3);
                v[i] = bad(&mut c.rng);
                c.hit("sample-refused");
                c.check(s.update(v).is_err(), || format!("sensor {kind} accepted sample {v:?}"))?;
            }
            4 => {
                // samples that may overflow
                let v = [gen::any_finite(&mut c.rng), gen::any_finite(&mut c.rng), gen::any_finite(&mut c.rng)];
                let r = s.update(v);
                if model.is_some() {
                    if r.is_ok() {
                        last = Some(s.out3()?);
                        let (w, t) = correct(&model.unwrap_or(NEUTRAL), mag, v);
                        let l = last.unwrap_or([0.0; 3]);
                        for q in 0..3 {
                            c.close("sensor-extreme", l[q] as f64, w[q], t[q] + 1e-38).map_err(|e| format!("{e}: sensor {kind} sample {v:?} config {model:?}"))?;
                        }
                    } else {
                        c.hit("sample-overflow");
                        let k = model.unwrap_or(NEUTRAL);
                        let (_, t) = correct(&k, mag, v);
                        let d = (0..3).map(|j| (v[j] as f64 - k[9 + j] as f64).abs()).fold(0.0, f64::max);
                        c.check(d > 3e38 || t.iter().any(|x| x / (12.0 * U) > 3e38), || format!("sensor {kind} refused the sample {v:?} whose correction is representable, config {k:?}"))?;
                    }
                }
            }
            _ => {
                let v = [gen::moderate(&mut c.rng), gen::moderate(&mut c.rng), gen::moderate(&mut c.rng)];
                let r = s.update(v);
                match &model {
                    None => {
                        c.hit("sample-uninitialised");
                        c.check(r.is_err(), || "sample accepted by an uninitialised sensor".into())?;
                    }
                    Some(k) => {
                        e("sensor update", r).map_err(|e| format!("{e}: {v:?} config {k:?}"))?;
                        let o = s.out3()?;
                        let (w, t) = correct(k, mag, v);
                        for q in 0..3 {
                            c.close("sensor", o[q] as f64, w[q], t[q]).map_err(|e| format!("{e}: output {q} of sensor {kind} for sample {v:?}, config {k:?}"))?;
                        }
                        c.hit(["gyrometer", "accelerometer", "magnetometer"][kind]);
                        c.seen(mix(o[0].to_bits() as u64) ^ mix(o[1].to_bits() as u64 + 7) ^ o[2].to_bits() as u64);
                        last = Some(o);
                    }
                }
            }
        }
        // state after every call
        match &model {
            None => {
                let u = s.out();
                c.check(u.iter().all(|x| x.is_err()) && s.cfg().is_err(), || "an uninitialised sensor answers".into())?;
            }
            Some(k) => {
                let g = e("sensor get_config", s.cfg())?;
                c.check(same_v(&g, k), || format!("sensor {kind} reports configuration {g:?}, last accepted {k:?}"))?;
                if let Some(l) = &last {
                    let o = s.out3()?;
                    c.check(same_v(&o, l), || format!("sensor {kind} output changed from {l:?} to {o:?} without an accepted sample"))?;
                }
            }
        }
    }
    Ok(())
}

/// The default configurations pass every sample through unchanged.
fn c19_default(c: &mut Case) -> Res {
    let mut s = e("sensor new", Sensor::new(c.rng.us(3)))?;
    let (r, name) = match &mut s {
        Sensor::G(x) => (x.init(&Default::default()), "default-gyrometer"),
        Sensor::A(x) => (x.init(&Default::default()), "default-accelerometer"),
        Sensor::M(x) => (x.init(&Default::default()), "default-magnetometer"),
    };
    e("sensor init", r)?;
    let k = e("sensor get_config", s.cfg())?;
    c.check(eq_v(&k, &NEUTRAL), || format!("{name} configuration {k:?}"))?;
    for _ in 0..4 {
        let v = [gen::moderate(&mut c.rng), gen::moderate(&mut c.rng), gen::moderate(&mut c.rng)];
        e("sensor update", s.update(v))?;
        let o = s.out3()?;
        c.seen(v.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
        c.check(eq_v(&o, &v), || format!("{name}: sample {v:?} becomes {o:?}"))?;
    }
    c.hit(name);
    Ok(())
}

pub const C19: &[Stratum] = &[Stratum { name: "default", f: c19_default, quick: 2_000, thorough: 100_000, need: &["default-gyrometer", "default-accelerometer", "default-magnetometer"] }, Stratum {
    name: "history",
    f: c19_history,
    quick: 200_000,
    thorough: 4_000_000,
    need: &["gyrometer", "accelerometer", "magnetometer", "double-init", "init-refused", "set-refused", "sample-refused", "sample-overflow", "sample-uninitialised", "set-uninitialised"],
}, Stratum { name: "long", f: c19_long, quick: 3, thorough: 100, need: LONG }];

// ---------------------------------------------------------------- C20

fn attitude(a: &AR) -> Result<[f32; 4], String> {
    rdq(&e("get_attitude", a.get_attitude())?)
}

/// Reference step in f64; None when the reference itself is not well defined.
fn ar_step(q: Q4, w: V3, ts: f64, method: usize, order: u8) -> Option<(Q4, f64)> {
    let n = vnorm(w);
    let th = n * ts / 2.0;
    let u = if n > 0.0 { vscale(w, 1.0 / n) } else { [0.0; 3] };
    match method {
        0 => Some((qmul(q, [th.cos(), u[0] * th.sin(), u[1] * th.sin(), u[2] * th.sin()]), 2e-6 + 5e-7 * th)),
        1 => {
            let (mut cs, mut sn) = (0.0, 0.0);
            let mut t = 1.0;
            for k in 0..=order as usize {
                if k > 0 {
                    t *= th / k as f64;
                }
                match k % 4 {
                    0 => cs += t,
                    1 => sn += t,
                    2 => cs -= t,
                    _ => sn -= t,
                }
                if t == 0.0 {
                    break;
                }
            }
            let r = qmul(q, [cs, u[0] * sn, u[1] * sn, u[2] * sn]);
            let l = qnorm(r);
            if l < 0.2 || th > 4.0 {
                return None;
            }
            Some((qscale(r, 1.0 / l), 1e-6 * th.exp() / l))
        }
        _ => {
            let d = qmul(q, [0.0, w[0] * ts / 2.0, w[1] * ts / 2.0, w[2] * ts / 2.0]);
            Some((qunit(qadd(q, d)), 2e-6))
        }
    }
}

fn nim(k: usize) -> NIM {
    match k {
        0 => NIM::ClosedForm,
        1 => NIM::TaylorSeries,
        2 => NIM::Euler,
        3 => NIM::AdamsBashforth,
        _ => NIM::RungeKutta,
    }
}
const NIMS: [&str; 5] = ["closed-form", "series", "euler", "adams-bashforth", "runge-kutta"];

fn rate(r: &mut Rng, ts: f64) -> [f32; 3] {
    let u = gen::unit_v(r);
    let l = match r.us(8) {
        0 => 0.0,
        1 => r.logu(1e-6, 1e-3),
        2 => r.uni(0.5e-4, 2e-4),
        3 => r.logu(0.1, 4.0) / ts, // large angle per sample
        _ => r.logu(1e-3, 20.0),
    };
    [(u[0] * l) as f32, (u[1] * l) as f32, (u[2] * l) as f32]
}

fn period(r: &mut Rng) -> f32 {
    match r.us(8) {
        0 | 1 => *r.pick(&[0.01f32, 0.001, 0.1, 1.0, 0.02]),
        2 => r.logu(1.0, 100.0) as f32,
        _ => r.logu(1e-4, 1.0) as f32,
    }
}

fn one_ar_step(c: &mut Case, ar: &mut AR, k: &[f32; 12], raw: [f32; 3], ts: f32, method: usize, order: u8) -> Res {
    let before = attitude(ar)?;
    let (w, wt) = correct(k, false, raw);
    let r = ar.update(raw[0], raw[1], raw[2]);
    let ctx = || format!("{} order {order}, period {ts}, sample {raw:?}, config {k:?}, attitude {before:?}", NIMS[method]);
    let n = vnorm(w);
    let dn = vnorm(wt) + 1e-6 * n;
    if n + dn < EPS {
        c.hit("below-threshold");
        c.check(r.is_ok(), || format!("update failed: {r:?}; {}", ctx()))?;
        let a = attitude(ar)?;
        return c.check(same_v(&a, &before), || format!("attitude changed to {a:?} below the rate threshold; {}", ctx()));
    }
    if n - dn <= EPS {
        return Ok(()); // at the threshold within rounding
    }
    if method > 2 {
        c.hit("unsupported-method");
        c.check(r.is_err(), || format!("unsupported method accepted; {}", ctx()))?;
        let a = attitude(ar)?;
        return c.check(same_v(&a, &before), || format!("unsupported method changed the attitude; {}", ctx()));
    }
    e("AR update", r).map_err(|e| format!("{e}; {}", ctx()))?;
    let a = attitude(ar)?;
    c.close("ar-unit", qnorm(q64(&a)), 1.0, 1e-6).map_err(|e| format!("{e}: attitude {a:?}; {}", ctx()))?;
    c.hit(NIMS[method]);
    if let Some((want, tol)) = ar_step(q64(&before), w, ts as f64, method, order) {
        c.close(NIMS[method], qdist_pm(q64(&a), qunit(want)), 0.0, tol + 0.5 * ts as f64 * vnorm(wt)).map_err(|e| format!("{e}: attitude {a:?}, expected {want:?}; {}", ctx()))?;
        if method == 1 && n * ts as f64 / 2.0 > 0.3 {
            c.hit(if order > 20 {
                "series-high-order"
            } else if order > 1 {
                "series-mid-order"
            } else {
                "series-low-order"
            });
        }
    }
    Ok(())
}

fn c20_step(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(12);
    c20_run(c, n)
}

/// Every sample of a long history judged from the attitude before it.
fn c20_history(c: &mut Case) -> Res {
    let n = long(c);
    let n = if c.rng.bool() { n } else { 3 * n };
    c20_run(c, n)
}

fn c20_run(c: &mut Case, n: usize) -> Res {
    let q = q32(&gen::unit_q(&mut c.rng));
    let k = if c.rng.bool() { NEUTRAL } else { near(&mut c.rng) };
    let ts = period(&mut c.rng);
    let method = if c.rng.chance(0.1) { 3 + c.rng.us(2) } else { c.rng.us(3) };
    let order = match c.rng.us(4) {
        0 => c.rng.us(256) as u8,
        1 => *c.rng.pick(&[0u8, 1, 19, 20, 21, 22, 34, 35, 255]),
        _ => c.rng.us(8) as u8,
    };
    let mut ar = e("AR new", AR::new())?;
    e("AR init", ar.init(q[0], q[1], q[2], q[3], &gcfg(&k), ts, nim(method), order))?;
    let a = attitude(&ar)?;
    c.check(same_v(&a, &q), || format!("initial attitude {a:?} instead of {q:?}"))?;
    for _ in 0..n {
        let mut raw = rate(&mut c.rng, ts as f64);
        if ts > 1.0 {
            c.hit("long-period");
            let l = vnorm([raw[0] as f64, raw[1] as f64, raw[2] as f64]) * ts as f64;
            if l > 20.0 {
                raw = raw.map(|x| x / ts); // the series overflows beyond about 80 radians
            }
        }
        c.seen(mix(raw[0].to_bits() as u64) ^ raw[1].to_bits() as u64);
        one_ar_step(c, &mut ar, &k, raw, ts, method, order)?;
    }
    c.sample(|| format!("{} order {order} period {ts} from {q:?}", NIMS[method]));
    Ok(())
}

/// Long histories: constant rate against the closed form, random rates against an f64 integration.
fn c20_long(c: &mut Case) -> Res {
    let q = q32(&gen::unit_q(&mut c.rng));
    let ts = *c.rng.pick(&[0.01f32, 0.001, 0.02]);
    let method = c.rng.us(3);
    let order = 4u8;
    let mut ar = e("AR new", AR::new())?;
    e("AR init", ar.init(q[0], q[1], q[2], q[3], &gcfg(&NEUTRAL), ts, nim(method), order))?;
    let n = if c.thorough { 300_000 } else { 20_000 };
    let constant = c.rng.bool();
    let mut w = rate(&mut c.rng, 1.0);
    let mut reference = q64(&q);
    let mut drift = 0.0f64;
    for i in 0..n {
        if !constant {
            for x in w.iter_mut() {
                *x = (*x as f64 * 0.99 + c.rng.gauss() * 0.1) as f32;
            }
        } else if vnorm([w[0] as f64, w[1] as f64, w[2] as f64]) < 1e-2 {
            w = [0.7, -0.4, 0.3];
        }
        let wd = [w[0] as f64, w[1] as f64, w[2] as f64];
        if (vnorm(wd) - EPS).abs() < 1e-6 {
            continue;
        }
        e("AR update", ar.update(w[0], w[1], w[2]))?;
        if vnorm(wd) > EPS {
            if let Some((r, t)) = ar_step(reference, wd, ts as f64, method, order) {
                reference = qunit(r);
                drift += t * 0.2;
            }
        }
        if i % 97 == 0 || i + 1 == n {
            let a = q64(&attitude(&ar)?);
            c.close("ar-long-unit", qnorm(a), 1.0, 1e-6).map_err(|e| format!("{e} after {i} samples"))?;
            c.close("ar-long", qdist_pm(a, reference), 0.0, drift + 1e-6).map_err(|e| format!("{e}: after {i} samples {} attitude {a:?}, integrated {reference:?}", NIMS[method]))?;
        }
    }
    c.hit(if constant { "long-constant" } else { "long-random" });
    c.seen(reference[0].to_bits());
    Ok(())
}

pub const C20: &[Stratum] = &[
    Stratum {
        name: "step",
        f: c20_step,
        quick: 80_000,
        thorough: 3_000_000,
        need: &["closed-form", "series", "euler", "unsupported-method", "below-threshold", "series-high-order", "series-mid-order", "series-low-order", "long-period"],
    },
    Stratum { name: "long", f: c20_long, quick: 64, thorough: 200, need: &["long-constant", "long-random"] },
    Stratum { name: "history", f: c20_history, quick: 10, thorough: 200, need: LONG },
];

// ---------------------------------------------------------------- Aqua helpers

#[derive(Clone, Debug)]
struct Par {
    gk: [f32; 12],
    ak: [f32; 12],
    mk: [f32; 12],
    ts: f32,
    adaptive: bool,
    alpha: f32,
    beta: f32,
    t1: f32,
    t2: f32,
    tacc: f32,
    tmag: f32,
    g: Option<f32>,
    h: Option<f32>,
}

impl Par {
    fn random(r: &mut Rng) -> Par {
        let cal = r.chance(0.4);
        let gain = |r: &mut Rng| match r.us(4) {
            0 => *r.pick(&[0.0f32, 1.0, 0.5]),
            1 => r.logu(1e-3, 1.0) as f32,
            _ => r.f() as f32,
        };
        let thr = |r: &mut Rng| match r.us(3) {
            0 => *r.pick(&[0.0f32, 1.0, 0.9, 0.5]),
            _ => r.f() as f32,
        };
        let t1 = match r.us(8) {
            0 => 0.0,
            1 => r.logu(1e-3, 0.02),
            2 => r.uni(0.3, 2.0),
            _ => r.uni(0.02, 0.3),
        };
        let gap = if r.chance(0.15) { r.uni(0.4, 5.0) } else { r.uni(0.03, 0.4) };
        Par {
            gk: if cal { near(r) } else { NEUTRAL },
            ak: if cal { near(r) } else { NEUTRAL },
            mk: if cal { near(r) } else { NEUTRAL },
            ts: period(r).min(0.05),
            adaptive: false,
            alpha: gain(r),
            beta: gain(r),
            t1: t1 as f32,
            t2: (t1 + gap) as f32,
            tacc: thr(r),
            tmag: thr(r),
            g: match r.us(4) {
                0 | 1 => None,
                2 => Some(r.uni(1.0, 20.0) as f32),
                _ => Some(r.logu(0.1, 1e3) as f32),
            },
            h: if r.bool() { None } else { Some(r.uni(20.0, 60.0) as f32) },
        }
    }
    fn start(&self, am: bool, q: Option<[f32; 4]>) -> Result<Aqua, String> {
        let mut a = e("Aqua new", Aqua::new())?;
        e("Aqua init", self.init(&mut a, am, q))?;
        Ok(a)
    }
    fn init(&self, a: &mut Aqua, am: bool, q: Option<[f32; 4]>) -> OR<()> {
        let o = |i: usize| q.map(|q| q[i]);
        let g = gcfg(&self.gk);
        a.init(
            if am { Mode::AM } else { Mode::MARG },
            o(0),
            o(1),
            o(2),
            o(3),
            if am { None } else { Some(&g) },
            &acfg(&self.ak),
            &mcfg(&self.mk),
            self.ts,
            self.adaptive,
            self.alpha,
            self.beta,
            self.t1,
            self.t2,
            self.tacc,
            self.tmag,
            self.g,
            self.h,
        )
    }
}

fn feed(a: &mut Aqua, am: bool, g: [f32; 3], ac: [f32; 3], m: [f32; 3]) -> OR<()> {
    let o = |x: f32| if am { None } else { Some(x) };
    a.update(o(g[0]), o(g[1]), o(g[2]), ac[0], ac[1], ac[2], m[0], m[1], m[2])
}

fn att(a: &Aqua) -> Result<[f32; 4], String> {
    rdq(&e("get_attitude", a.get_attitude())?)
}

fn f3(v: V3) -> [f32; 3] {
    [v[0] as f32, v[1] as f32, v[2] as f32]
}

/// Raw sample whose calibrated value is `want`.
fn raw_for(k: &[f32; 12], mag: bool, want: V3) -> [f32; 3] {
    let inv = calib(k, mag).inv().unwrap_or(M::eye(3));
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = (0..3).map(|j| inv.a[i][j] * want[j]).sum::<f64>() + k[9 + i] as f64;
    }
    f3(r)
}

const DOWN: V3 = [0.0, 0.0, -1.0];

/// A global field in the x-z plane with the given inclination.
fn field(r: &mut Rng) -> V3 {
    let d = match r.us(8) {
        0 | 1 => 0.0,
        2 => r.sign() * (std::f64::consts::FRAC_PI_2 - r.logu(3e-3, 0.2)), // almost vertical
        _ => r.uni(-1.4, 1.4),
    };
    [f64::cos(d), 0.0, -f64::sin(d)]
}

// ---------------------------------------------------------------- C21

fn c21_am(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(6);
    c21_run(c, n)
}

fn c21_long(c: &mut Case) -> Res {
    let n = long(c);
    c21_run(c, n)
}

fn c21_run(c: &mut Case, n: usize) -> Res {
    let p = Par::random(&mut c.rng);
    let start = if c.rng.bool() { Some(q32(&gen::unit_q(&mut c.rng))) } else { None };
    let mut p = p;
    p.adaptive = c.rng.bool();
    let mut f = p.start(true, start)?;
    for _ in 0..n {
        let truth = gen::unit_q(&mut c.rng);
        let fld = field(&mut c.rng);
        let top = if c.rng.chance(0.1) { 1e17 } else { 1e6 };
        let (sa, sm) = (c.rng.logu(2e-4, top), c.rng.logu(2e-4, top));
        let ra = raw_for(&p.ak, false, vscale(qrot(truth, DOWN), sa));
        let rm = raw_for(&p.mk, true, vscale(qrot(truth, fld), sm));
        let (a, at) = correct(&p.ak, false, ra);
        let (m, mt) = correct(&p.mk, true, rm);
        let (na, nm) = (vnorm(a), vnorm(m));
        let hor = vnorm(vcross(vscale(a, 1.0 / na), vscale(m, 1.0 / nm)));
        let noise = 3e-6 + vnorm(at) / na + vnorm(mt) / nm;
        if hor < 2e-3 || hor < 10.0 * noise || na < 1.2e-4 || nm < 1.2e-4 {
            continue;
        }
        e("Aqua AM update", feed(&mut f, true, [0.0; 3], ra, rm)).map_err(|e| format!("{e}: acceleration {ra:?} field {rm:?}"))?;
        let g = att(&f)?;
        let gd = q64(&g);
        let ctx = || format!("attitude {g:?} for calibrated acceleration {a:?} and field {m:?} (truth {truth:?})");
        c.close("am-unit", qnorm(gd), 1.0, 1e-6).map_err(|e| format!("{e}: {}", ctx()))?;
        let d = qrot(gd, DOWN);
        for i in 0..3 {
            c.close("am-gravity", d[i], a[i] / na, 0.35 * noise).map_err(|e| format!("{e}: {}", ctx()))?;
        }
        let l = qrot(qconj(gd), vscale(m, 1.0 / nm));
        c.close("am-heading", l[1], 0.0, 0.4 * noise).map_err(|e| format!("{e}: {}", ctx()))?;
        c.check(l[0] > 0.0, || format!("the field points backwards: {l:?}, {}", ctx()))?;
        c.hit(if truth[1] * truth[1] + truth[2] * truth[2] > 0.5 { "upside-down" } else { "upright" });
        if a[2].abs() < 1e-6 * na {
            c.hit("level-boundary");
        }
        if hor < 0.05 {
            c.hit("almost-vertical-field");
        }
        if na < 0.01 {
            c.hit("weak-acceleration");
        }
        if nm < 0.01 {
            c.hit("weak-field");
        }
        c.seen(g.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
        c.sample(|| ctx());
        // independence of history
        let mut fresh = p.start(true, None)?;
        e("Aqua AM update", feed(&mut fresh, true, [0.0; 3], ra, rm))?;
        let h = att(&fresh)?;
        c.check(same_v(&h, &g), || format!("gyro-less update depends on history: {g:?} / fresh {h:?}"))?;
    }
    Ok(())
}

pub const C21: &[Stratum] = &[Stratum { name: "two-vector", f: c21_am, quick: 150_000, thorough: 5_000_000, need: &["upside-down", "upright", "level-boundary", "almost-vertical-field", "weak-acceleration", "weak-field"] }, Stratum { name: "long", f: c21_long, quick: 1, thorough: 40, need: LONG }];

// ---------------------------------------------------------------- C22 / C23

/// Correction quaternion moved from the identity by `gain`; half angle `h` about `axis`.
fn partial(h: f64, axis: V3, gain: f64, thr: f64) -> Vec<Q4> {
    let mk = |x: f64| [x.cos(), axis[0] * x.sin(), axis[1] * x.sin(), axis[2] * x.sin()];
    let lerp = mk((gain * h.sin()).atan2(1.0 - gain + gain * h.cos()));
    let slerp = mk(gain * h);
    if (h.cos() - thr).abs() < 1e-5 {
        vec![lerp, slerp]
    } else if h.cos() > thr {
        vec![lerp]
    } else {
        vec![slerp]
    }
}

struct MargRef {
    cands: Vec<Q4>,
    predicted: Q4,
    tilt: f64,
    heading: f64,
    cond: f64,
}

/// Reference of one nine-axis update; the tilt part is only defined below 90 degrees of tilt error.
fn marg_step(q: Q4, w: V3, a: V3, m: V3, p: &Par, gain: f64) -> Option<MargRef> {
    let ts = p.ts as f64;
    let d = qmul(q, [0.0, w[0] * ts / 2.0, w[1] * ts / 2.0, w[2] * ts / 2.0]);
    let pr = qunit(qadd(q, d));
    let na = vnorm(a);
    let ag = if na == 0.0 { DOWN } else { qrot(qconj(pr), vscale(a, 1.0 / na)) }; // no direction, no correction
    // rotation taking DOWN onto ag
    let ax = vcross(DOWN, ag);
    let s = vnorm(ax);
    let tilt = s.atan2(vdot(DOWN, ag));
    let axis = if s > 1e-12 { vscale(ax, 1.0 / s) } else { [1.0, 0.0, 0.0] };
    let mut r = MargRef { cands: vec![], predicted: pr, tilt, heading: 0.0, cond: 1.0 };
    if tilt > std::f64::consts::FRAC_PI_2 - 1e-4 {
        return Some(r);
    }
    for t in partial(tilt / 2.0, axis, gain, p.tacc as f64) {
        let a1 = qmul(pr, t);
        if vnorm(m) == 0.0 {
            r.cands.push(a1);
            continue;
        }
        let l = qrot(qconj(a1), vscale(m, 1.0 / vnorm(m)));
        let hor = (l[0] * l[0] + l[1] * l[1]).sqrt();
        if hor < 2e-3 {
            return None;
        }
        let psi = l[1].atan2(l[0]);
        r.heading = psi;
        r.cond = r.cond.min(hor);
        if psi.abs() > std::f64::consts::PI - 1e-3 && p.beta > 0.0 {
            return None; // exactly opposite heading: either way round is right
        }
        for u in partial(psi.abs() / 2.0, [0.0, 0.0, psi.signum()], p.beta as f64, p.tmag as f64) {
            r.cands.push(qunit(qmul(a1, u)));
        }
    }
    Some(r)
}

/// Sensor readings for a true attitude, disturbed by an error rotation.
fn readings(r: &mut Rng, p: &Par, truth: Q4, scale: f64) -> ([f32; 3], [f32; 3]) {
    let fld = field(r);
    let sm = if r.chance(0.2) { r.logu(2e-4, 1e5) } else { r.logu(1.0, 100.0) };
    let ra = raw_for(&p.ak, false, vscale(qrot(truth, DOWN), scale));
    let rm = raw_for(&p.mk, true, vscale(qrot(truth, fld), sm));
    (ra, rm)
}

/// One update checked against the reference. `gain` is the expected accelerometer gain.
fn marg_checked(c: &mut Case, f: &mut Aqua, p: &Par, w: [f32; 3], ra: [f32; 3], rm: [f32; 3], gain: f64, gerr: f64) -> Res {
    let before = att(f)?;
    let (wd, wt) = correct(&p.gk, false, w);
    let (a, at) = correct(&p.ak, false, ra);
    let (m, mt) = correct(&p.mk, true, rm);
    let (na, nm) = (vnorm(a), vnorm(m));
    // around the threshold below which there is no direction, with and without the correction are both right
    let unclear = |n: f64| n > 0.0 && n < 1.2e-4;
    let mut step = marg_step(q64(&before), wd, a, m, p, gain);
    for (no_a, no_m) in [(true, false), (false, true), (true, true)] {
        if (unclear(na) || !no_a) && (unclear(nm) || !no_m) {
            let o = marg_step(q64(&before), wd, if no_a { [0.0; 3] } else { a }, if no_m { [0.0; 3] } else { m }, p, gain);
            step = match (step, o) {
                (Some(mut x), Some(y)) if !x.cands.is_empty() && !y.cands.is_empty() => {
                    x.cands.extend(y.cands);
                    x.cond = x.cond.min(y.cond);
                    c.hit("faint-direction");
                    Some(x)
                }
                _ => None,
            };
        }
    }
    let Some(r) = step else {
        c.hit("ill-posed(skipped)");
        let _ = feed(f, false, w, ra, rm);
        return Ok(());
    };
    let ctx = |g: &[f32; 4]| format!("attitude {g:?} from {before:?}, rate {wd:?}, acceleration {a:?}, field {m:?}, tilt error {:.6}, heading error {:.6}, gain {gain}, {p:?}", r.tilt, r.heading);
    e("Aqua MARG update", feed(f, false, w, ra, rm)).map_err(|e| format!("{e}: {}", ctx(&before)))?;
    let g = att(f)?;
    let gd = q64(&g);
    c.close("marg-unit", qnorm(gd), 1.0, 1e-6).map_err(|e| format!("{e}: {}", ctx(&g)))?;
    c.seen(g.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
    let rel = |t: V3, n: f64| if n > 0.0 { vnorm(t) / n } else { 0.0 };
    let noise = 4e-6 + rel(at, na) + rel(mt, nm) + p.ts as f64 * vnorm(wt);
    if !r.cands.is_empty() {
        let want = r.cands.iter().cloned().fold((r.predicted, f64::MAX), |b, q| {
            let d = qdist_pm(q, gd);
            if d < b.1 {
                (q, d)
            } else {
                b
            }
        });
        // the heading correction amplifies noise when the horizontal field is small
        let amp = 1.0 + p.beta as f64 / r.cond;
        c.close("marg-step", want.1, 0.0, 0.35 * noise * amp + gerr * r.tilt * 2.0 * amp).map_err(|e| format!("{e}: expected {:?}, {}", want.0, ctx(&g)))?;
        c.hit("marg-step");
        if r.tilt > 0.5 {
            c.hit("large-tilt-error");
        }
        if r.heading.abs() > 1.7 {
            c.hit("large-heading-error");
        }
        if r.cond < 0.05 {
            c.hit("almost-vertical-field");
        }
        if na < 0.01 {
            c.hit("weak-acceleration");
        }
    } else if gain == 1.0 {
        // beyond 90 degrees of tilt error: unit gain must still explain gravity
        c.hit("tilt-beyond-90");
        let d = qrot(gd, DOWN);
        for i in 0..3 {
            c.close("marg-gravity", d[i], a[i] / na, 1.5 * noise).map_err(|e| format!("{e}: {}", ctx(&g)))?;
        }
    }
    if gain == 0.0 && p.beta == 0.0 {
        c.hit("zero-gains");
        c.close("marg-gyro-only", qdist_pm(gd, r.predicted), 0.0, 8e-6).map_err(|e| format!("{e}: {}", ctx(&g)))?;
    }
    if p.beta == 1.0 && nm > 0.0 && !unclear(nm) {
        c.hit("unit-heading-gain");
        let l = qrot(qconj(gd), vscale(m, 1.0 / nm));
        let hor = (l[0] * l[0] + l[1] * l[1]).sqrt();
        if hor > 2e-3 && hor > 10.0 * noise && (gain == 0.0 || gain == 1.0) {
            c.close("marg-heading", l[1], 0.0, 3.0 * noise).map_err(|e| format!("{e}: {}", ctx(&g)))?;
            c.check(l[0] > 0.0, || format!("unit heading gain leaves the field backwards: {}", ctx(&g)))?;
        }
    }
    Ok(())
}

fn c22_step(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(8);
    c22_run(c, n)
}

fn c22_long(c: &mut Case) -> Res {
    let n = long(c);
    c22_run(c, n)
}

fn c22_run(c: &mut Case, n: usize) -> Res {
    let mut p = Par::random(&mut c.rng);
    if c.rng.chance(0.1) {
        p.ts = c.rng.logu(0.05, 3.0) as f32;
        c.hit("long-period");
    }
    let q = q32(&gen::unit_q(&mut c.rng));
    let mut f = p.start(false, Some(q))?;
    c.sample(|| format!("nine-axis steps from {q:?} with {p:?}"));
    for _ in 0..n {
        let cur = q64(&att(&f)?);
        // true attitude: small, medium or arbitrary error
        let err = match c.rng.us(4) {
            0 => gen::unit_q(&mut c.rng),
            1 => [1.0, 0.0, 0.0, 0.0],
            2 => {
                let n = gen::unit_v(&mut c.rng);
                let a = c.rng.logu(1e-4, 0.5);
                axis_angle(n, a)
            }
            _ => {
                let n = gen::unit_v(&mut c.rng);
                let a = c.rng.uni(0.0, 2.5);
                axis_angle(n, a)
            }
        };
        let truth = qmul(cur, err);
        let scale = if c.rng.chance(0.2) { c.rng.logu(2e-4, 1e-2) } else { c.rng.logu(1e-2, 1e4) };
        let (ra, rm) = readings(&mut c.rng, &p, truth, scale);
        let w = if c.rng.chance(0.3) { [0.0; 3] } else { rate(&mut c.rng, 10.0) };
        marg_checked(c, &mut f, &p, w, ra, rm, p.alpha as f64, 0.0)?;
    }
    Ok(())
}

/// Samples without a direction: free fall, no field, or a field along the vertical.
fn c22_directionless(c: &mut Case) -> Res {
    let mut p = Par::random(&mut c.rng);
    match c.rng.us(3) {
        0 | 1 => {
            let q = q32(&gen::unit_q(&mut c.rng));
            let mut f = p.start(false, Some(q))?;
            for _ in 0..(1 + c.rng.us(4)) {
                let cur = q64(&att(&f)?);
                let n = gen::unit_v(&mut c.rng);
                let a = c.rng.uni(0.0, 1.2);
                let (mut ra, mut rm) = readings(&mut c.rng, &p, qmul(cur, axis_angle(n, a)), 9.81);
                let k = c.rng.us(5);
                if k == 1 || k == 2 {
                    ra = [p.ak[9], p.ak[10], p.ak[11]];
                    c.hit("free-fall");
                }
                if k == 0 || k == 2 {
                    rm = [p.mk[9], p.mk[10], p.mk[11]];
                    c.hit("no-field");
                }
                if k > 2 && p.ak == NEUTRAL {
                    // directions almost, or just, too weak to be known
                    let (sa, sm) = (c.rng.logu(1e-6, 2e-4), c.rng.logu(1e-6, 2e-4));
                    let (fa, fm) = (readings(&mut c.rng, &p, qmul(cur, axis_angle(n, a)), sa).0, rm.map(|x| x * sm as f32 / vnorm([rm[0] as f64, rm[1] as f64, rm[2] as f64]) as f32));
                    match c.rng.us(3) {
                        0 => ra = fa,
                        1 => rm = fm,
                        _ => (ra, rm) = (fa, fm),
                    }
                }
                let w = rate(&mut c.rng, 10.0);
                marg_checked(c, &mut f, &p, w, ra, rm, p.alpha as f64, 0.0)?;
            }
        }
        _ => {
            // upright or upside down, exactly vertical field
            p.ak = NEUTRAL;
            p.mk = NEUTRAL;
            p.gk = NEUTRAL;
            let up = c.rng.bool();
            let q = if up { [1.0, 0.0, 0.0, 0.0] } else { *c.rng.pick(&[[0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]]) };
            let mut f = p.start(false, Some(q))?;
            let b = (c.rng.logu(0.1, 100.0) * c.rng.sign()) as f32;
            let a = c.rng.logu(0.1, 100.0) as f32 * if up { -1.0 } else { 1.0 };
            if c.rng.bool() {
                // the estimate is upside down: half a turn of tilt correction, and still no heading
                p.alpha = 1.0;
                let mut f = p.start(false, Some(q))?;
                e("Aqua MARG update", feed(&mut f, false, [0.0; 3], [0.0, 0.0, -a], [0.0, 0.0, b])).map_err(|e| format!("{e}: vertical field {b}, acceleration {} at attitude {q:?}, {p:?}", -a))?;
                let g = q64(&att(&f)?);
                c.hit("vertical-field-overturned");
                c.close("marg-unit", qnorm(g), 1.0, 1e-6).map_err(|e| format!("{e}: attitude {g:?}, {p:?}"))?;
                c.close("marg-overturned", qrot(g, DOWN)[2], -a.signum() as f64, 1e-5).map_err(|e| format!("{e}: attitude {g:?} from {q:?}, {p:?}"))?;
                return Ok(());
            }
            for _ in 0..3 {
                e("Aqua MARG update", feed(&mut f, false, [0.0; 3], [0.0, 0.0, a], [0.0, 0.0, b])).map_err(|e| format!("{e}: vertical field {b} at attitude {q:?}, {p:?}"))?;
            }
            let g = att(&f)?;
            c.hit("vertical-field");
            c.seen(b.to_bits() as u64);
            c.close("marg-vertical-field", qdist_pm(q64(&g), q64(&q)), 0.0, 1e-5).map_err(|e| format!("{e}: attitude {g:?} from {q:?} with a vertical field, {p:?}"))?;
        }
    }
    Ok(())
}

/// Convergence from any attitude to the one explaining constant measurements.
fn c22_converge(c: &mut Case) -> Res {
    let mut p = Par::random(&mut c.rng);
    p.alpha = c.rng.uni(0.05, 1.0) as f32;
    p.beta = c.rng.uni(0.05, 1.0) as f32;
    let q = q32(&gen::unit_q(&mut c.rng));
    let truth = gen::unit_q(&mut c.rng);
    let scale = c.rng.logu(0.1, 100.0);
    let (ra, rm) = readings(&mut c.rng, &p, truth, scale);
    let zero = f3([p.gk[9] as f64, p.gk[10] as f64, p.gk[11] as f64]);
    let mut f = p.start(false, Some(q))?;
    let (a, _) = correct(&p.ak, false, ra);
    let (m, _) = correct(&p.mk, true, rm);
    let (a, m) = (vscale(a, 1.0 / vnorm(a)), vscale(m, 1.0 / vnorm(m)));
    let hor = vnorm(vcross(a, m));
    if hor < 0.1 {
        return Ok(());
    }
    let n = (18.0 / (1.0 - (1.0 - p.alpha.min(p.beta) as f64)).max(0.05)) as usize + 60;
    for i in 0..n {
        e("Aqua MARG update", feed(&mut f, false, zero, ra, rm)).map_err(|e| format!("{e}: at step {i} of a constant-measurement run from {q:?}, truth {truth:?}, {p:?}"))?;
        if i % 16 == 0 {
            c.close("marg-unit", qnorm(q64(&att(&f)?)), 1.0, 1e-6)?;
        }
    }
    let g = q64(&att(&f)?);
    let d = qrot(g, DOWN);
    let l = qrot(qconj(g), m);
    let ctx = || format!("after {n} constant samples from {q:?}: attitude {g:?}, gravity {d:?} against {a:?}, field in the global frame {l:?}; {p:?}");
    c.close("marg-convergence", vangle(d, a), 0.0, 2e-4).map_err(|e| format!("{e}: {}", ctx()))?;
    c.check(l[0] > 0.0, || format!("heading converged backwards: {}", ctx()))?;
    c.close("marg-convergence-heading", l[1] / hor, 0.0, 2e-4).map_err(|e| format!("{e}: {}", ctx()))?;
    c.hit("converged");
    c.seen(g[0].to_bits());
    Ok(())
}

/// Consistent measurements keep a correct attitude, static and moving.
fn c22_track(c: &mut Case) -> Res {
    let mut p = Par::random(&mut c.rng);
    p.ts = 0.005;
    let moving = c.rng.bool();
    if moving {
        p.alpha = c.rng.uni(0.02, 1.0) as f32;
        p.beta = c.rng.uni(0.02, 1.0) as f32;
    }
    let mut truth = gen::unit_q(&mut c.rng);
    let fld = loop {
        let f = field(&mut c.rng);
        if f[0] > 0.2 {
            break f;
        }
    };
    let mut f = p.start(false, Some(q32(&truth)))?;
    let n = if c.thorough { 5000 } else { 400 };
    let axis = gen::unit_v(&mut c.rng);
    let speed = c.rng.uni(0.2, 3.0);
    let scale = c.rng.uni(0.5, 30.0);
    for i in 0..n {
        let w = if moving {
            let k = (i as f64 * 0.01).cos();
            vscale(axis, speed * k)
        } else {
            [0.0; 3]
        };
        // truth advances by the exact rotation of this sample
        let th = vnorm(w) * p.ts as f64 / 2.0;
        let u = if th > 0.0 { vscale(w, 1.0 / vnorm(w)) } else { [0.0; 3] };
        truth = qunit(qmul(truth, [th.cos(), u[0] * th.sin(), u[1] * th.sin(), u[2] * th.sin()]));
        let rw = raw_for(&p.gk, false, w);
        let ra = raw_for(&p.ak, false, vscale(qrot(truth, DOWN), scale));
        let rm = raw_for(&p.mk, true, vscale(qrot(truth, fld), 40.0));
        e("Aqua MARG update", feed(&mut f, false, rw, ra, rm)).map_err(|e| format!("{e}: consistent sample {i}; {p:?}"))?;
    }
    let g = q64(&att(&f)?);
    let tol = if moving { 1e-3 } else { 2e-7 * n as f64 + 2e-5 };
    c.close(if moving { "marg-tracking" } else { "marg-static" }, qdist_pm(g, truth), 0.0, tol).map_err(|e| format!("{e}: attitude {g:?}, truth {truth:?} after {n} consistent samples; {p:?}"))?;
    c.hit(if moving { "tracking" } else { "static" });
    c.seen(g[0].to_bits());
    Ok(())
}

pub const C22: &[Stratum] = &[
    Stratum { name: "step", f: c22_step, quick: 80_000, thorough: 3_000_000, need: &["marg-step", "large-tilt-error", "large-heading-error", "tilt-beyond-90", "zero-gains", "unit-heading-gain", "almost-vertical-field", "weak-acceleration"] },
    Stratum { name: "directionless", f: c22_directionless, quick: 20_000, thorough: 500_000, need: &["free-fall", "no-field", "vertical-field", "vertical-field-overturned", "faint-direction"] },
    Stratum { name: "converge", f: c22_converge, quick: 6_000, thorough: 300_000, need: &["converged"] },
    Stratum { name: "track", f: c22_track, quick: 1_500, thorough: 20_000, need: &["tracking", "static"] },
    Stratum { name: "long", f: c22_long, quick: 4, thorough: 80, need: LONG },
];

fn weight(gain: f64, err: f64, t1: f64, t2: f64) -> f64 {
    if err <= t1 {
        gain
    } else if err >= t2 {
        0.0
    } else {
        gain * (t2 - err) / (t2 - t1)
    }
}

fn c23_sequence(c: &mut Case) -> Res {
    let n = 2 + c.rng.us(10);
    c23_run(c, n)
}

fn c23_long(c: &mut Case) -> Res {
    let n = long(c);
    c23_run(c, n)
}

fn c23_run(c: &mut Case, n: usize) -> Res {
    let mut p = Par::random(&mut c.rng);
    p.adaptive = c.rng.chance(0.85);
    if c.rng.bool() {
        p.alpha = c.rng.uni(0.2, 1.0) as f32;
    }
    let g = p.g.map(|x| x as f64).unwrap_or(9.81f32 as f64);
    let q = q32(&gen::unit_q(&mut c.rng));
    let mut f = p.start(false, Some(q))?;
    c.sample(|| format!("adaptive={} {p:?}", p.adaptive));
    for _ in 0..n {
        let cur = q64(&att(&f)?);
        let n = gen::unit_v(&mut c.rng);
        let a = c.rng.uni(0.05, 1.2);
        let truth = qmul(cur, axis_angle(n, a));
        let (t1, t2) = (p.t1 as f64, p.t2 as f64);
        let err = match c.rng.us(6) {
            0 => 0.0,
            1 => t1 * c.rng.uni(0.0, 1.0),
            2 => c.rng.uni(t1, t2),
            3 => t2 * c.rng.uni(1.0, 3.0),
            4 => *c.rng.pick(&[t1, t2]),
            _ => c.rng.uni(t1, t2),
        };
        let sign = if err < 0.99 { c.rng.sign() } else { 1.0 };
        let scale = g * (1.0 + sign * err);
        let (ra, rm) = readings(&mut c.rng, &p, truth, scale);
        let (acc, at) = correct(&p.ak, false, ra);
        let rel = ((vnorm(acc) - g) / g).abs();
        let gain = if p.adaptive { weight(p.alpha as f64, rel, t1, t2) } else { p.alpha as f64 };
        c.hit(if !p.adaptive {
            "fixed-gain"
        } else if rel < t1 {
            "full-gain"
        } else if rel > t2 {
            "no-gain"
        } else {
            "partial-gain"
        });
        let gerr = if p.adaptive { p.alpha as f64 / (t2 - t1) * (4e-7 * (1.0 + rel) + vnorm(at) / g) * 2.0 } else { 0.0 };
        let w = rate(&mut c.rng, 10.0);
        marg_checked(c, &mut f, &p, w, ra, rm, gain, gerr)?;
    }
    Ok(())
}

fn c23_invalid(c: &mut Case) -> Res {
    let mut p = Par::random(&mut c.rng);
    let lo = c.rng.uni(0.01, 0.5) as f32;
    p.t1 = lo;
    p.t2 = if c.rng.bool() { lo } else { lo * c.rng.f() as f32 };
    p.adaptive = c.rng.bool();
    let q = q32(&gen::unit_q(&mut c.rng));
    let mut f = e("Aqua new", Aqua::new())?;
    let i = p.init(&mut f, false, Some(q));
    let truth = gen::unit_q(&mut c.rng);
    let (ra, rm) = readings(&mut c.rng, &p, truth, 9.81);
    c.seen(lo.to_bits() as u64);
    if p.adaptive {
        let r = i.and_then(|_| feed(&mut f, false, [0.0; 3], ra, rm));
        c.hit("thresholds-refused");
        c.check(r.is_err(), || format!("adaptive gain with thresholds {} and {} accepted", p.t1, p.t2))?;
        if f.get_attitude().is_ok() {
            let a = att(&f)?;
            c.check(same_v(&a, &q), || format!("refused thresholds changed the attitude to {a:?}"))?;
        }
    }
    Ok(())
}

pub const C23: &[Stratum] = &[
    Stratum { name: "sequence", f: c23_sequence, quick: 60_000, thorough: 3_000_000, need: &["full-gain", "partial-gain", "no-gain", "fixed-gain", "marg-step"] },
    Stratum { name: "long", f: c23_long, quick: 1, thorough: 40, need: LONG },
    Stratum { name: "thresholds", f: c23_invalid, quick: 5_000, thorough: 100_000, need: &["thresholds-refused"] },
];

// ---------------------------------------------------------------- C24

fn c24_ar(c: &mut Case) -> Res {
    let n = 2 + c.rng.us(12);
    c24_ar_run(c, n)
}

fn c24_ar_long(c: &mut Case) -> Res {
    let n = long(c);
    c24_ar_run(c, n)
}

fn c24_aqua(c: &mut Case) -> Res {
    let n = 2 + c.rng.us(12);
    c24_aqua_run(c, n)
}

fn c24_aqua_long(c: &mut Case) -> Res {
    let n = long(c);
    c24_aqua_run(c, n)
}

fn c24_ar_run(c: &mut Case, n: usize) -> Res {
    let q = q32(&gen::unit_q(&mut c.rng));
    let k = near(&mut c.rng);
    let ts = period(&mut c.rng);
    let method = c.rng.us(3);
    let order = c.rng.us(6) as u8;
    let mut a = e("AR new", AR::new())?;
    let mut b = e("AR new", AR::new())?;
    c.check(a.update(0.1, 0.2, 0.3).is_err() && a.get_attitude().is_err(), || "an uninitialised AR filter answers".into())?;
    #[cfg(feature = "std")]
    c.check(a.print_attitude().is_err(), || "an uninitialised AR filter prints".into())?;
    let tries = c.rng.us(3);
    for _ in 0..tries {
        let mut qq = q;
        let mut kk = k;
        if c.rng.bool() {
            let i = c.rng.us(4);
            qq[i] = bad(&mut c.rng);
        } else {
            let i = c.rng.us(12);
            kk[i] = bad(&mut c.rng);
        }
        let r = a.init(qq[0], qq[1], qq[2], qq[3], &gcfg(&kk), ts * 2.0, nim((method + 1) % 3), order + 1);
        c.hit("ar-init-refused");
        c.check(r.is_err(), || format!("AR initialised with {qq:?} {kk:?}"))?;
        c.check(a.update(0.1, 0.2, 0.3).is_err() && a.get_attitude().is_err(), || "AR answers after a failed initialisation".into())?;
    }
    e("AR init after a failed one", a.init(q[0], q[1], q[2], q[3], &gcfg(&k), ts, nim(method), order))?;
    e("AR init", b.init(q[0], q[1], q[2], q[3], &gcfg(&k), ts, nim(method), order))?;
    for _ in 0..n {
        match c.rng.us(5) {
            0 => {
                let mut w = rate(&mut c.rng, ts as f64);
                let i = c.rng.us(3);
                w[i] = bad(&mut c.rng);
                c.hit("ar-sample-refused");
                c.check(a.update(w[0], w[1], w[2]).is_err(), || format!("AR accepted {w:?}"))?;
            }
            1 => {
                let w = [gen::any_finite(&mut c.rng), gen::any_finite(&mut c.rng), gen::any_finite(&mut c.rng)];
                let before = attitude(&a)?;
                c.hit("ar-sample-extreme");
                if a.update(w[0], w[1], w[2]).is_err() {
                    c.hit("ar-sample-overflow");
                    let after = attitude(&a)?;
                    c.check(same_v(&before, &after), || format!("AR attitude changed from {before:?} to {after:?} by the refused {w:?}"))?;
                } else {
                    let _ = b.update(w[0], w[1], w[2]);
                }
            }
            2 => {
                let k2 = near(&mut c.rng);
                c.hit("ar-double-init");
                c.check(a.init(1.0, 0.0, 0.0, 0.0, &gcfg(&k2), 0.5, NIM::Euler, 1).is_err(), || "second initialisation of AR accepted".into())?;
            }
            _ => {
                let w = rate(&mut c.rng, ts as f64);
                e("AR update", a.update(w[0], w[1], w[2])).map_err(|e| format!("{e}: {w:?}"))?;
                e("AR update", b.update(w[0], w[1], w[2])).map_err(|e| format!("{e}: {w:?}"))?;
                c.hit("ar-sample");
            }
        }
        let (x, y) = (attitude(&a)?, attitude(&b)?);
        c.seen(x.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
        c.check(same_v(&x, &y), || format!("AR with rejected calls in its history is at {x:?}, without them at {y:?}"))?;
    }
    Ok(())
}

fn c24_aqua_run(c: &mut Case, n: usize) -> Res {
    let am = c.rng.bool();
    let mut p = Par::random(&mut c.rng);
    p.adaptive = c.rng.bool();
    if c.rng.chance(0.03) {
        p.ts = 0.0; // only the correction part
    }
    let q = if c.rng.chance(0.8) { Some(q32(&gen::unit_q(&mut c.rng))) } else { None };
    let mut a = e("Aqua new", Aqua::new())?;
    c.check(feed(&mut a, am, [0.0; 3], [0.0, 0.0, -9.8], [20.0, 0.0, -40.0]).is_err() && a.get_attitude().is_err(), || "an uninitialised Aqua filter answers".into())?;
    for _ in 0..c.rng.us(3) {
        let mut pp = p.clone();
        pp.ts *= 2.0;
        pp.alpha *= 0.5;
        pp.beta *= 0.5;
        pp.g = Some(5.0);
        pp.h = Some(7.0);
        let qq = q.unwrap_or([1.0, 0.0, 0.0, 0.0]);
        let i = c.rng.us(12);
        let bv = bad(&mut c.rng);
        let am2 = c.rng.bool(); // the failed attempt may use the other mode
        let g = gcfg(&pp.gk);
        let r = match c.rng.us(5) {
            0 => {
                pp.ak[i] = bv;
                pp.init(&mut a, am2, q)
            }
            1 => {
                pp.mk[i] = bv;
                pp.init(&mut a, am2, q)
            }
            2 => {
                let mut z = qq;
                z[i % 4] = bv;
                pp.init(&mut a, am2, Some(z))
            }
            3 => {
                // partial quaternion
                let mut o = [Some(qq[0]), Some(qq[1]), Some(qq[2]), Some(qq[3])];
                let n = 1 + c.rng.us(3);
                for k in 0..n {
                    o[(i + k) % 4] = None;
                }
                a.init(if am2 { Mode::AM } else { Mode::MARG }, o[0], o[1], o[2], o[3], Some(&g), &acfg(&pp.ak), &mcfg(&pp.mk), pp.ts, true, 0.3, 0.3, 0.1, 0.2, 0.5, 0.5, None, None)
            }
            _ => {
                // nine-axis mode without a gyrometer, or with a bad one
                if c.rng.bool() {
                    a.init(Mode::MARG, None, None, None, None, None, &acfg(&pp.ak), &mcfg(&pp.mk), pp.ts, true, 0.3, 0.3, 0.1, 0.2, 0.5, 0.5, None, None)
                } else {
                    pp.gk[i] = bv;
                    pp.init(&mut a, false, q)
                }
            }
        };
        c.hit("aqua-init-refused");
        c.check(r.is_err(), || format!("Aqua initialised with bad parameters: {pp:?} {q:?}"))?;
        c.check(feed(&mut a, am, [0.0; 3], [0.0, 0.0, -9.8], [20.0, 0.0, -40.0]).is_err() && a.get_attitude().is_err(), || "Aqua answers after a failed initialisation".into())?;
    }
    e("Aqua init after a failed one", p.init(&mut a, am, q)).map_err(|e| format!("{e} (am={am})"))?;
    let mut b = p.start(am, q)?;
    let start = att(&a)?;
    if let Some(q) = q {
        c.check(same_v(&start, &q), || format!("initial attitude {start:?} instead of {q:?}"))?;
    }
    for _ in 0..n {
        let truth = gen::unit_q(&mut c.rng);
        let gs = p.g.map(|x| x as f64).unwrap_or(9.81) * c.rng.uni(0.7, 1.3);
        let (ra, rm) = readings(&mut c.rng, &p, truth, gs);
        let w = rate(&mut c.rng, 10.0);
        let before = att(&a)?;
        match c.rng.us(7) {
            0 => {
                // a non-finite component
                let mut s = [w[0], w[1], w[2], ra[0], ra[1], ra[2], rm[0], rm[1], rm[2]];
                let i = if am { 3 + c.rng.us(6) } else { c.rng.us(9) };
                s[i] = bad(&mut c.rng);
                let r = feed(&mut a, am, [s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]);
                c.hit("aqua-sample-refused");
                c.check(r.is_err(), || format!("Aqua accepted {s:?}"))?;
            }
            1 if !am => {
                // missing gyro components
                let mut o = [Some(w[0]), Some(w[1]), Some(w[2])];
                let n = 1 + c.rng.us(3);
                let i = c.rng.us(3);
                for k in 0..n {
                    o[(i + k) % 3] = None;
                }
                c.hit("aqua-missing-gyro");
                let r = a.update(o[0], o[1], o[2], ra[0], ra[1], ra[2], rm[0], rm[1], rm[2]);
                c.check(r.is_err(), || "nine-axis update without a full gyro sample accepted".into())?;
            }
            2 => {
                // extreme or degenerate but finite
                let mut s = [w[0], w[1], w[2], ra[0], ra[1], ra[2], rm[0], rm[1], rm[2]];
                match c.rng.us(4) {
                    0 => (0..9).for_each(|i| s[i] = gen::any_finite(&mut c.rng)),
                    1 => (6..9).for_each(|i| s[i] = p.mk[i + 3]), // calibrated field is zero
                    2 => {
                        let i = 3 + c.rng.us(6);
                        s[i] = (c.rng.sign() * c.rng.logu(1e19, 3e38)) as f32;
                    }
                    _ => {
                        // field along gravity
                        let (x, _) = correct(&p.ak, false, ra);
                        let z = raw_for(&p.mk, true, x);
                        s[6] = z[0];
                        s[7] = z[1];
                        s[8] = z[2];
                    }
                }
                let (g3, a3, m3) = ([s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]);
                let r = feed(&mut a, am, g3, a3, m3);
                c.hit("aqua-sample-degenerate");
                if r.is_err() {
                    c.hit("aqua-degenerate-refused");
                } else {
                    let r2 = feed(&mut b, am, g3, a3, m3);
                    c.check(r2.is_ok(), || format!("the same sample {s:?} is accepted by one filter and refused by its twin: {r2:?}"))?;
                }
            }
            3 => {
                c.hit("aqua-double-init");
                let mut p2 = p.clone();
                p2.alpha = 0.77;
                p2.ts = 0.033;
                c.check(p2.init(&mut a, !am, None).is_err(), || "second initialisation of Aqua accepted".into())?;
            }
            4 => {
                let mut k = near(&mut c.rng);
                let i = c.rng.us(12);
                k[i] = bad(&mut c.rng);
                c.hit("aqua-config-refused");
                let r = match c.rng.us(3) {
                    0 => a.set_accelerometer_config(&acfg(&k)),
                    1 => a.set_magnetometer_config(&mcfg(&k)),
                    _ => a.set_gyrometer_config(&gcfg(&k)),
                };
                c.check(r.is_err(), || format!("Aqua accepted sensor configuration {k:?}"))?;
            }
            5 => {
                // accepted reconfiguration on both
                let k = near(&mut c.rng);
                c.hit("aqua-reconfigured");
                match c.rng.us(3) {
                    0 => {
                        e("set_accelerometer_config", a.set_accelerometer_config(&acfg(&k)))?;
                        e("set_accelerometer_config", b.set_accelerometer_config(&acfg(&k)))?;
                        p.ak = k;
                        let g = acfg_arr(&e("get_accelerometer_config", a.get_accelerometer_config())?);
                        c.check(same_v(&g, &k), || format!("accelerometer configuration reads back as {g:?}"))?;
                    }
                    1 => {
                        e("set_magnetometer_config", a.set_magnetometer_config(&mcfg(&k)))?;
                        e("set_magnetometer_config", b.set_magnetometer_config(&mcfg(&k)))?;
                        p.mk = k;
                        let g = mcfg_arr(&e("get_magnetometer_config", a.get_magnetometer_config())?);
                        c.check(same_v(&g, &k), || format!("magnetometer configuration reads back as {g:?}"))?;
                    }
                    _ if !am => {
                        e("set_gyrometer_config", a.set_gyrometer_config(&gcfg(&k)))?;
                        e("set_gyrometer_config", b.set_gyrometer_config(&gcfg(&k)))?;
                        p.gk = k;
                        let g = gcfg_arr(&e("get_gyrometer_config", a.get_gyrometer_config())?);
                        c.check(same_v(&g, &k), || format!("gyrometer configuration reads back as {g:?}"))?;
                    }
                    _ => {}
                }
            }
            _ => {
                let (am3, _) = correct(&p.ak, false, ra);
                let (mm3, _) = correct(&p.mk, true, rm);
                let hor = vnorm(vcross(am3, mm3)) / (vnorm(am3) * vnorm(mm3));
                let (r1, r2) = (feed(&mut a, am, w, ra, rm), feed(&mut b, am, w, ra, rm));
                if hor > 0.01 {
                    c.hit("aqua-sample");
                    e("Aqua update", r1).map_err(|e| format!("{e}: rate {w:?} acceleration {ra:?} field {rm:?} am={am} {p:?}"))?;
                    e("Aqua update", r2)?;
                }
                let (x, y) = (att(&a)?, att(&b)?);
                c.check(same_v(&x, &y), || format!("Aqua with rejected calls in its history is at {x:?}, without them at {y:?} (am={am}, {p:?})"))?;
                continue;
            }
        }
        let (x, y) = (att(&a)?, att(&b)?);
        c.seen(x.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
        c.check(same_v(&x, &y), || format!("a rejected call moved Aqua from {before:?} to {x:?} (twin at {y:?}, am={am}, {p:?})"))?;
    }
    Ok(())
}

fn c24_davenport(c: &mut Case) -> Res {
    let mut d = e("Davenport new", Davenport::new())?;
    c.check(d.update(0.0, 0.0, -9.8, 20.0, 0.0, 40.0).is_err(), || "an uninitialised Davenport filter accepts samples".into())?;
    for _ in 0..c.rng.us(4) {
        let w = *c.rng.pick(&[0.0f32, -0.5, 1.5, f32::NAN, f32::INFINITY, -1e-3, 1.001]);
        let ok = c.rng.uni(0.01, 1.0) as f32;
        let r = if c.rng.bool() { d.init(w, ok, None, None) } else { d.init(ok, w, None, None) };
        c.hit("davenport-init-refused");
        c.check(r.is_err(), || format!("Davenport accepted weight {w}"))?;
        let u = d.update(0.0, 0.0, -9.8, 20.0, 0.0, 40.0);
        c.check(u == Err(OpenAHRSError::DavenportFilterNotInit), || format!("Davenport answers {u:?} after a failed initialisation"))?;
    }
    let (w1, w2) = (*c.rng.pick(&[1.0f32, 0.5, 0.01, 2e-4]), c.rng.uni(0.01, 1.0) as f32);
    c.seen(w2.to_bits() as u64);
    let (g, m) = (if c.rng.bool() { Some(9.8) } else { None }, if c.rng.bool() { Some(0.5) } else { None });
    e("Davenport init", d.init(w1, w2, g, m)).map_err(|e| format!("{e}: weights {w1} {w2}"))?;
    c.hit("davenport-init");
    c.check(d.init(w1, w2, g, m) == Err(OpenAHRSError::DavenportFilterAlreadyInit), || "second initialisation of Davenport accepted".into())?;
    let b = bad(&mut c.rng);
    let r = d.update(0.0, b, -9.8, 20.0, 0.0, 40.0);
    c.check(r.is_err(), || format!("Davenport accepted a sample with {b}"))
}

pub const C24: &[Stratum] = &[
    Stratum { name: "ar", f: c24_ar, quick: 60_000, thorough: 2_000_000, need: &["ar-init-refused", "ar-sample-refused", "ar-sample-extreme", "ar-double-init", "ar-sample"] },
    Stratum {
        name: "aqua",
        f: c24_aqua,
        quick: 60_000,
        thorough: 2_000_000,
        need: &["aqua-init-refused", "aqua-sample-refused", "aqua-missing-gyro", "aqua-sample-degenerate", "aqua-double-init", "aqua-config-refused", "aqua-reconfigured", "aqua-sample"],
    },
    Stratum { name: "davenport", f: c24_davenport, quick: 2_000, thorough: 20_000, need: &["davenport-init-refused", "davenport-init"] },
    Stratum { name: "ar-long", f: c24_ar_long, quick: 1, thorough: 40, need: LONG },
    Stratum { name: "aqua-long", f: c24_aqua_long, quick: 1, thorough: 40, need: LONG },
];

// ---------------------------------------------------------------- C34

/// A filter whose sensors are reconfigured against one initialised with that configuration.
fn c34_reconfigure(c: &mut Case) -> Res {
    let n = 1 + c.rng.us(4);
    c34_run(c, n)
}

fn c34_long(c: &mut Case) -> Res {
    let n = long(c);
    c34_run(c, n)
}

fn c34_run(c: &mut Case, n: usize) -> Res {
    let am = c.rng.bool();
    let mut p = Par::random(&mut c.rng);
    p.adaptive = !am && c.rng.bool();
    let start = q32(&gen::unit_q(&mut c.rng));
    let mut f = p.start(am, Some(start))?;
    for _ in 0..n {
        let truth = gen::unit_q(&mut c.rng);
        let (ra, rm) = readings(&mut c.rng, &p, truth, 9.81);
        let w = f3([c.rng.uni(-2.0, 2.0), c.rng.uni(-2.0, 2.0), c.rng.uni(-2.0, 2.0)]);
        let mut last = None;
        if c.rng.chance(0.8) {
            let _ = feed(&mut f, am, w, ra, rm);
            last = Some((w, ra, rm));
        }
        let before = att(&f)?;
        // reconfigure
        let which = c.rng.us(8);
        let draw = |r: &mut Rng| match r.us(4) {
            0 => NEUTRAL,
            1 => {
                // one coefficient only
                let mut k = NEUTRAL;
                let i = r.us(12);
                k[i] += r.uni(-0.5, 0.5) as f32;
                k
            }
            _ => near(r),
        };
        if which & 1 != 0 {
            let k = draw(&mut c.rng);
            e("set_accelerometer_config", f.set_accelerometer_config(&acfg(&k)))?;
            p.ak = k;
            c.hit("accelerometer");
        }
        if which & 2 != 0 {
            let k = draw(&mut c.rng);
            e("set_magnetometer_config", f.set_magnetometer_config(&mcfg(&k)))?;
            p.mk = k;
            c.hit("magnetometer");
        }
        if which & 4 != 0 {
            let k = draw(&mut c.rng);
            let r = f.set_gyrometer_config(&gcfg(&k));
            if am {
                c.hit("gyrometer-unused");
                c.check(r.is_err(), || "a gyro-less filter accepted a gyrometer configuration".into())?;
            } else {
                e("set_gyrometer_config", r)?;
                p.gk = k;
                c.hit("gyrometer");
            }
        }
        if c.rng.chance(0.3) {
            // a refused configuration of any sensor changes nothing
            let mut k = near(&mut c.rng);
            let i = c.rng.us(12);
            k[i] = bad(&mut c.rng);
            let r = match c.rng.us(3) {
                0 => f.set_accelerometer_config(&acfg(&k)),
                1 => f.set_magnetometer_config(&mcfg(&k)),
                _ => f.set_gyrometer_config(&gcfg(&k)),
            };
            c.hit("refused");
            c.check(r.is_err(), || format!("configuration {k:?} accepted"))?;
        }
        if c.rng.chance(0.2) {
            // any finite configuration is accepted and read back; then the current one again
            let mut k = NEUTRAL;
            for x in k.iter_mut() {
                *x = gen::any_finite(&mut c.rng);
            }
            let g = match c.rng.us(if am { 2 } else { 3 }) {
                0 => {
                    e("set_accelerometer_config", f.set_accelerometer_config(&acfg(&k))).map_err(|e| format!("{e}: {k:?}"))?;
                    let g = acfg_arr(&e("get_accelerometer_config", f.get_accelerometer_config())?);
                    e("set_accelerometer_config", f.set_accelerometer_config(&acfg(&p.ak)))?;
                    g
                }
                1 => {
                    e("set_magnetometer_config", f.set_magnetometer_config(&mcfg(&k))).map_err(|e| format!("{e}: {k:?}"))?;
                    let g = mcfg_arr(&e("get_magnetometer_config", f.get_magnetometer_config())?);
                    e("set_magnetometer_config", f.set_magnetometer_config(&mcfg(&p.mk)))?;
                    g
                }
                _ => {
                    e("set_gyrometer_config", f.set_gyrometer_config(&gcfg(&k))).map_err(|e| format!("{e}: {k:?}"))?;
                    let g = gcfg_arr(&e("get_gyrometer_config", f.get_gyrometer_config())?);
                    e("set_gyrometer_config", f.set_gyrometer_config(&gcfg(&p.gk)))?;
                    g
                }
            };
            c.hit("extreme");
            c.check(same_v(&g, &k), || format!("the configuration {k:?} reads back as {g:?}"))?;
        }
        // reading back
        let g = acfg_arr(&e("get_accelerometer_config", f.get_accelerometer_config())?);
        c.check(same_v(&g, &p.ak), || format!("the accelerometer configuration {:?} reads back as {g:?}", p.ak))?;
        let g = mcfg_arr(&e("get_magnetometer_config", f.get_magnetometer_config())?);
        c.check(same_v(&g, &p.mk), || format!("the magnetometer configuration {:?} reads back as {g:?}", p.mk))?;
        let g = f.get_gyrometer_config();
        if am {
            c.check(g.is_err(), || "a gyro-less filter has a gyrometer configuration".into())?;
        } else {
            let g = gcfg_arr(&e("get_gyrometer_config", g)?);
            c.check(same_v(&g, &p.gk), || format!("the gyrometer configuration {:?} reads back as {g:?}", p.gk))?;
        }
        let now = att(&f)?;
        c.check(same_v(&now, &before), || format!("a configuration call moved the attitude from {before:?} to {now:?}"))?;
        // the same samples to a filter that always had this configuration
        let mut t = p.start(am, Some(now))?;
        for k in 0..1 + c.rng.us(3) {
            let truth = gen::unit_q(&mut c.rng);
            let (mut ra, mut rm) = readings(&mut c.rng, &p, truth, 9.81);
            let mut w = f3([c.rng.uni(-2.0, 2.0), c.rng.uni(-2.0, 2.0), c.rng.uni(-2.0, 2.0)]);
            // a sensor may repeat its last sample
            if let (true, Some(l)) = (c.rng.chance(0.5), last) {
                let same = 1 + c.rng.us(7);
                if same & 1 != 0 {
                    w = l.0;
                }
                if same & 2 != 0 {
                    ra = l.1;
                }
                if same & 4 != 0 {
                    rm = l.2;
                }
                c.hit("repeated-sample");
            }
            last = Some((w, ra, rm));
            let (r1, r2) = (feed(&mut f, am, w, ra, rm), feed(&mut t, am, w, ra, rm));
            c.check(r1.is_ok() == r2.is_ok(), || format!("sample {k} after reconfiguring: {r1:?}, with that configuration from the start: {r2:?} (am={am}, {p:?})"))?;
            let (x, y) = (att(&f)?, att(&t)?);
            c.seen(x.iter().fold(0, |h, x| mix(h ^ x.to_bits() as u64)));
            c.check((0..4).all(|i| (x[i] - y[i]).abs() <= 1e-5), || format!("sample {k} after reconfiguring leads to {x:?}, with that configuration from the start to {y:?} (am={am}, {p:?})"))?;
        }
    }
    Ok(())
}

pub const C34: &[Stratum] = &[Stratum { name: "reconfigure", f: c34_reconfigure, quick: 60_000, thorough: 2_000_000, need: &["accelerometer", "magnetometer", "gyrometer", "gyrometer-unused", "refused", "extreme", "repeated-sample"] }, Stratum { name: "long", f: c34_long, quick: 2, thorough: 100, need: LONG }];

// ---------------------------------------------------------------- C28

#[cfg(feature = "std")]
fn c28_generator(c: &mut Case) -> Res {
    use open_ahrs::common::generate_random_attitudes;
    let n = (c.idx % 256) as u8;
    let r = generate_random_attitudes(n);
    c.seen(n as u64);
    if !(1..=4).contains(&n) {
        c.hit("count-refused");
        return c.check(r.is_err(), || format!("{n} attitudes generated"));
    }
    let m = rd(&e("generate_random_attitudes", r)?)?;
    c.check(m.r == 4 && m.c == n as usize, || format!("{n} attitudes come as {}x{}", m.r, m.c))?;
    let again = rd(&e("generate_random_attitudes", generate_random_attitudes(n))?)?;
    c.check(again.same(&m), || format!("two calls differ: {} / {}", m.show(), again.show()))?;
    let col = |j: usize| -> Q4 { [m.d[0][j] as f64, m.d[1][j] as f64, m.d[2][j] as f64, m.d[3][j] as f64] };
    let mut prev = [1.0, 0.0, 0.0, 0.0];
    let mut dirs: Vec<Q4> = vec![];
    for j in 0..n as usize {
        let q = col(j);
        c.close("attitude-unit", qnorm(q), 1.0, 1e-5).map_err(|e| format!("{e}: attitude {j} {q:?}"))?;
        let d = qdot(qunit(q), prev).clamp(-1.0, 1.0).acos();
        c.check(d <= std::f64::consts::PI / 64.0 + 1e-3, || format!("attitude {j} is {d} rad from its predecessor: {}", m.show()))?;
        dirs.push(qmul(qconj(prev), qunit(q)));
        prev = qunit(q);
    }
    c.hit("generated");
    if n == 4 {
        // attitudes differ, and the steps are not all about one axis
        let moved = (1..4).any(|j| qdist(col(j), col(0)) > 1e-3) && qdist(col(0), [1.0, 0.0, 0.0, 0.0]) > 1e-3;
        c.check(moved, || format!("all generated attitudes are the same: {}", m.show()))?;
        let mut spread = 0.0f64;
        for a in &dirs {
            for b in &dirs {
                let x = vcross([a[1], a[2], a[3]], [b[1], b[2], b[3]]);
                let l = vnorm([a[1], a[2], a[3]]) * vnorm([b[1], b[2], b[3]]);
                if l > 1e-8 {
                    spread = spread.max(vnorm(x) / l);
                }
            }
        }
        c.hit("spread-checked");
        c.check(spread > 1e-2, || format!("all generated steps share one axis: {}", m.show()))?;
        // prefix property of a reproducible sequence
        let one = rd(&e("generate_random_attitudes", generate_random_attitudes(1))?)?;
        let _ = one;
    }
    Ok(())
}
#[cfg(not(feature = "std"))]
fn c28_generator(_: &mut Case) -> Res {
    Ok(())
}

pub const C28: &[Stratum] = &[Stratum { name: "generator", f: c28_generator, quick: 512, thorough: 4096, need: &["generated", "count-refused", "spread-checked"] }];
