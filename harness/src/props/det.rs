//! C27: determinism across repetition, instances, threads and builds.
use crate::core::*;
use crate::gen;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Program {
    world: Rng,
    style: Style,
    steps: Vec<(usize, Args)>,
}

fn find(n: &str) -> usize {
    (0..nops()).find(|i| op(*i).name == n).unwrap_or(0)
}

impl Program {
    pub fn gen(r: &mut Rng) -> Program {
        let style = *r.pick(&[Style::Tame, Style::Tame, Style::Finite, Style::Wild]);
        let world = r.clone();
        for _ in 0..8 {
            r.u64();
        }
        let mut steps = Vec::new();
        if r.bool() {
            // programs that exercise the filters deeply
            for n in ["ar.init", "aq.init", "dav.init"] {
                for sel in 0..2 {
                    for _ in 0..3 {
                        let mut a = Args::gen(r, Style::Tame);
                        a.a = sel;
                        a.flag &= !1;
                        let q = gen::unit_q(r);
                        for k in 0..4 {
                            a.s[k] = q[k] as f32;
                        }
                        steps.push((find(n), a));
                    }
                }
            }
            let upd = ["ar.update", "ar.update#2", "aq.update", "aq.update#2", "dav.update", "ar.get_attitude", "aq.get_attitude"];
            for _ in 0..40 {
                let st = *r.pick(&[Style::Tame, Style::Tame, Style::Tame, Style::Finite]);
                let n = *r.pick(&upd);
                steps.push((find(n), Args::gen(r, st)));
            }
        } else {
            for _ in 0..(10 + r.us(50)) {
                let i = r.us(nops());
                steps.push((i, Args::gen(r, style)));
            }
        }
        Program { world, style, steps }
    }

    pub fn start(&self) -> Result<World, String> {
        World::gen(&mut self.world.clone(), self.style)
    }

    fn one(w: &mut World, h: u64, i: usize, a: &Args) -> u64 {
        let r = w.step(i, a);
        if op(i).std_only {
            return h;
        }
        let d = match r {
            Ok(v) => mix(v),
            Err(e) => hash_str(&e.to_string()),
        };
        mix(h ^ d)
    }

    pub fn solo(&self) -> Result<u64, String> {
        let mut w = self.start()?;
        let mut h = 7;
        for (k, (i, a)) in self.steps.iter().enumerate() {
            h = Self::one(&mut w, h, *i, a);
            if k % 8 == 0 {
                h = mix(h ^ w.digest());
            }
        }
        Ok(mix(h ^ w.digest()))
    }

    /// Per-step digests, for diagnosing a difference.
    pub fn trace(&self) -> Vec<String> {
        let mut out = Vec::new();
        let Ok(mut w) = self.start() else { return vec!["world generation failed".into()] };
        let mut h = 7;
        for (i, a) in &self.steps {
            let r = catch_unwind(AssertUnwindSafe(|| {
                h = Self::one(&mut w, h, *i, a);
                h ^ w.digest()
            }));
            out.push(format!("{} {:?} -> {:?}", op(*i).name, a, r.map_err(|_| "panic")));
        }
        out
    }
}

fn c27_repeat(c: &mut Case) -> Res {
    let p = Program::gen(&mut c.rng);
    let (a, b) = (p.solo()?, p.solo()?);
    c.seen(a);
    c.hit("repeated");
    c.sample(|| format!("program of {} calls, digest {a:016x}", p.steps.len()));
    c.check(a == b, || format!("the same {} calls on fresh objects end in different states ({a:016x} / {b:016x})", p.steps.len()))
}

fn c27_interleave(c: &mut Case) -> Res {
    let n = 2 + c.rng.us(3);
    let ps: Vec<Program> = (0..n).map(|_| Program::gen(&mut c.rng)).collect();
    let mut solo = Vec::new();
    for p in &ps {
        solo.push(p.solo()?);
    }
    let mut st = Vec::new();
    for p in &ps {
        st.push((p.start()?, 7u64, 0usize));
    }
    loop {
        let live: Vec<usize> = (0..n).filter(|k| st[*k].2 < ps[*k].steps.len()).collect();
        if live.is_empty() {
            break;
        }
        let k = *c.rng.pick(&live);
        let (w, h, pos) = &mut st[k];
        let (i, a) = &ps[k].steps[*pos];
        *h = Program::one(w, *h, *i, a);
        if *pos % 8 == 0 {
            *h = mix(*h ^ w.digest());
        }
        *pos += 1;
    }
    c.hit("interleaved");
    for k in 0..n {
        let (w, h, _) = &mut st[k];
        let d = mix(*h ^ w.digest());
        c.seen(d);
        c.check(d == solo[k], || format!("{} calls interleaved with calls on other objects end in a different state ({d:016x} / {:016x})", ps[k].steps.len(), solo[k]))?;
    }
    Ok(())
}

fn c27_threads(c: &mut Case) -> Res {
    let p = Program::gen(&mut c.rng);
    let q = Program::gen(&mut c.rng);
    let (dp, dq) = (p.solo()?, q.solo()?);
    let barrier = std::sync::Barrier::new(4);
    let got: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (p, q, barrier) = (&p, &q, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let mut last = Ok(0);
                    for _ in 0..6 {
                        last = if k % 2 == 0 { p.solo() } else { q.solo() };
                        let want = if k % 2 == 0 { dp } else { dq };
                        if last != Ok(want) {
                            break;
                        }
                    }
                    last
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("thread panicked".into()))).collect()
    });
    c.hit("threaded");
    c.seen(dp ^ dq);
    for (k, g) in got.into_iter().enumerate() {
        let want = if k % 2 == 0 { dp } else { dq };
        let g = g?;
        c.check(g == want, || format!("thread {k} ends in a different state than the sequential run ({g:016x} / {want:016x})"))?;
    }
    Ok(())
}

pub const C27: &[Stratum] = &[
    Stratum { name: "repeat", f: c27_repeat, quick: 20_000, thorough: 600_000, need: &["repeated"] },
    Stratum { name: "interleave", f: c27_interleave, quick: 10_000, thorough: 300_000, need: &["interleaved"] },
    Stratum { name: "threads", f: c27_threads, quick: 600, thorough: 20_000, need: &["threaded"] },
];

/// Digests of `n` programs, one per line (compared between builds by run.py).
pub fn digests(seed: u64, n: u64) -> String {
    let mut s = String::new();
    for i in 0..n {
        let mut r = Rng::new(case_seed(seed, "C27", "builds", i));
        let p = Program::gen(&mut r);
        let d = catch_unwind(AssertUnwindSafe(|| p.solo()));
        match d {
            Ok(Ok(d)) => s.push_str(&format!("{d:016x}\n")),
            Ok(Err(e)) => s.push_str(&format!("error {}\n", hash_str(&e))),
            Err(_) => s.push_str("panic\n"),
        }
    }
    s
}

pub fn trace(seed: u64, i: u64) -> String {
    let mut r = Rng::new(case_seed(seed, "C27", "builds", i));
    Program::gen(&mut r).trace().join("\n")
}
