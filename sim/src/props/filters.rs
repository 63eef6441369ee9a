//! C13: filters stay finite and settle. C14: filters against their difference equation. C15: delay and echo.

use crate::plan::{st, Plan, Step, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task};
use crate::sig::signal;
use crate::{ensure, os, Ctx, Prop, Res};
use bae_rs::modifiers::*;
use std::collections::VecDeque;
use std::f64::consts::PI;
use std::time::Duration;

pub const LP: i64 = 0;
pub const HP: i64 = 1;
pub const BP: i64 = 2;
pub const BPC: i64 = 3;
pub const ENV: i64 = 4;
pub const GEN: i64 = 5;
pub const GAIN: i64 = 6;
pub const PASS: i64 = 7;
pub const ECHO: i64 = 8;

pub enum Filt {
    Lp(LowPass),
    Hp(HighPass),
    Bp(BandPass),
    Env(Envelope),
    Gen(Generic),
    Gain(Gain),
    Pass(Passthrough),
    Echo(Echo),
}

impl Filt {
    pub fn next(&mut self, x: f32) -> f32 {
        match self {
            Filt::Lp(m) => m.process(x),
            Filt::Hp(m) => m.process(x),
            Filt::Bp(m) => m.process(x),
            Filt::Env(m) => m.process(x),
            Filt::Gen(m) => m.process(x),
            Filt::Gain(m) => m.process(x),
            Filt::Pass(m) => m.process(x),
            Filt::Echo(m) => m.process(x),
        }
    }
}

/// Linear difference equation y = sum zeros x + sum poles y.
#[derive(Clone, Default, Debug)]
struct Eq {
    z: Vec<f64>,
    p: Vec<f64>,
    /// sums of magnitudes where several taps share an index
    zm: Vec<f64>,
    pm: Vec<f64>,
}

fn lp_eq(fc: f64, r: f64) -> Eq {
    let k = 1.0 - 2.0 * (PI / 6.0 * (4.0 - r)).cos();
    let t = 2.0 * PI * fc / 48000.0;
    let g = t * t * t + k * t * t + k * t + 1.0;
    Eq { z: vec![t * t * t / g], p: vec![(k * t * t + 2.0 * k * t + 3.0) / g, -(k * t + 3.0) / g, 1.0 / g], ..Eq::default() }
}

fn hp_eq(fc: f64, r: f64) -> Eq {
    let mut e = lp_eq(fc, r);
    let g = 1.0 / e.p[2];
    e.z = vec![1.0 / g, -3.0 / g, 3.0 / g, -1.0 / g];
    e
}

/// Corner frequencies, lower first.
fn corners(f: f64, q: f64) -> (f64, f64) {
    let h = 0.5 / q;
    let hi = f * ((1.0 + h * h).sqrt() + h);
    (f * f / hi, hi)
}

fn bp_eq(f: f64, q: f64) -> Eq {
    let (lo, hi) = corners(f, q);
    let (tl, th) = ((PI * lo / 48000.0).tan(), (PI * hi / 48000.0).tan());
    let a = th / (1.0 + th) / (1.0 + tl);
    let (bl, bh) = ((1.0 - tl) / (1.0 + tl), (1.0 - th) / (1.0 + th));
    Eq { z: vec![a, 0.0, -a], p: vec![bl + bh, -bl * bh], ..Eq::default() }
}

/// A resonance in thousandths; from `FINE` on in 1e-9.
const FINE: i64 = 2_000_000_000;
fn res_db(v: i64) -> f64 {
    if v >= FINE {
        return (v - FINE).min(FINE) as f64 / 1e9;
    }
    v.clamp(-1_000_000_000, 1_000_000_000) as f64 / 1000.0
}
fn freq(v: i64) -> f64 {
    v.clamp(20_000, 200_000_000) as f64 / 1000.0
}
/// A tap in thousandths; from `FINE` on a tiny one, 10^-k with its sign.
fn tap(v: i64) -> f32 {
    if v.abs() >= FINE {
        return 10f32.powi(-((v.abs() - FINE).min(30) as i32)) * v.signum() as f32;
    }
    v.clamp(-4000, 4000) as f32 / 1000.0
}

/// A quality in thousandths; from `FINE` on in 1e-6.
fn qual(v: i64) -> f64 {
    if v >= FINE {
        return (v - FINE).clamp(20_000, FINE) as f64 / 1e6;
    }
    v.clamp(20, 2_000_000) as f64 / 1000.0
}

/// Settings a filter has now, as the user set them.
#[derive(Clone, Debug)]
struct Now {
    kind: i64,
    f: f64,
    /// resonance or quality
    q: f64,
}

impl Now {
    fn eq(&self) -> Eq {
        match self.kind {
            LP => lp_eq(self.f.min(24000.0), self.q.clamp(0.0, 1.0)),
            HP => hp_eq(self.f.min(24000.0), self.q.clamp(0.0, 1.0)),
            _ => bp_eq(self.f, self.q),
        }
    }
    /// Largest pole radius.
    fn radius(&self) -> f64 {
        match self.kind {
            LP | HP => {
                let t = 2.0 * PI * self.f.min(24000.0) / 48000.0;
                let k = 1.0 - 2.0 * (PI / 6.0 * (4.0 - self.q.clamp(0.0, 1.0))).cos();
                (1.0 / (1.0 + t)).max(1.0 / (1.0 + (k - 1.0) * t + t * t).sqrt())
            }
            _ => {
                let (lo, hi) = corners(self.f, self.q);
                let p = |c: f64| {
                    let t = (PI * c.min(23_900.0) / 48000.0).tan();
                    ((1.0 - t) / (1.0 + t)).abs()
                };
                p(lo).max(p(hi))
            }
        }
    }
}

fn build(kind: i64, a: i64, b: i64) -> (Filt, Now) {
    match kind {
        LP => (Filt::Lp(LowPass::new(freq(a), res_db(b))), Now { kind, f: freq(a), q: res_db(b) }),
        HP => (Filt::Hp(HighPass::new(freq(a), res_db(b))), Now { kind, f: freq(a), q: res_db(b) }),
        BP => (Filt::Bp(BandPass::new(freq(a), qual(b))), Now { kind: BP, f: freq(a), q: qual(b) }),
        _ => {
            let (x, y) = corner_pair(a, b);
            (Filt::Bp(BandPass::from_corners((x, y))), Now { kind: BP, f: (x * y).sqrt(), q: (x * y).sqrt() / (x - y).abs() })
        }
    }
}

/// Two distinct corner frequencies in either order.
fn corner_pair(a: i64, b: i64) -> (f64, f64) {
    let (x, mut y) = (freq(a), freq(b));
    if (x - y).abs() < 0.01 * x {
        y = x * 1.02;
    }
    (x, y)
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs())
}

/// Apply a setting to the real filter and to the expectation.
fn apply(m: &mut Filt, now: &mut Now, s: &Step, c: &mut Ctx) {
    match (m, s.op) {
        (Filt::Lp(m), 1) => {
            now.f = freq(s.arg(0));
            m.set_central_frequency(now.f)
        }
        (Filt::Lp(m), 2) => {
            now.q = res_db(s.arg(0));
            m.set_resonance(now.q)
        }
        (Filt::Hp(m), 1) => {
            now.f = freq(s.arg(0));
            m.set_central_frequency(now.f)
        }
        (Filt::Hp(m), 2) => {
            now.q = res_db(s.arg(0));
            m.set_resonance(now.q)
        }
        (Filt::Bp(m), 1) => {
            now.f = freq(s.arg(0));
            m.set_central_frequency(now.f)
        }
        (Filt::Bp(m), 2) => {
            now.q = qual(s.arg(0));
            m.set_quality(now.q)
        }
        (Filt::Bp(m), 3) => {
            let (x, y) = corner_pair(s.arg(0), s.arg(1));
            if x > y {
                c.probe("corners_in_reverse_order");
            }
            now.f = (x * y).sqrt();
            now.q = now.f / (x - y).abs();
            m.set_corner_frequencies((x, y))
        }
        _ => return,
    }
    c.probe("setting_changed");
    match now.kind {
        BP => {}
        _ => {
            if now.f > 24000.0 {
                c.probe("cutoff_limited");
            }
            if !(0.0..=1.0).contains(&now.q) {
                c.probe("resonance_limited");
            }
        }
    }
}

fn check_getters(m: &Filt, now: &Now) -> Res {
    let two = |f: f64, q: f64| -> Res {
        let (wf, wq) = (now.f.min(24000.0), now.q.clamp(0.0, 1.0));
        ensure!(close(f, wf, 1e-12), "reads_back", "cutoff set to {} reads {}", now.f, f);
        ensure!((q - wq).abs() <= 1e-12, "reads_back", "resonance set to {} reads {}", now.q, q);
        Ok(())
    };
    match m {
        Filt::Lp(m) => two(m.get_central_frequency(), m.get_resonance()),
        Filt::Hp(m) => two(m.get_central_frequency(), m.get_resonance()),
        Filt::Bp(m) => {
            let (f, q, (lo, hi)) = (m.get_central_frequency(), m.get_quality(), m.get_corner_frequencies());
            ensure!(close(f, now.f, 1e-9), "reads_back", "centre set to {} reads {}", now.f, f);
            ensure!(close(q, now.q, 1e-9), "reads_back", "quality set to {} reads {}", now.q, q);
            let (wl, wh) = corners(now.f, now.q);
            ensure!(
                (lo - wl).abs() <= 1e-9 * wh && (hi - wh).abs() <= 1e-9 * wh,
                "reads_back",
                "corners of {} Hz at quality {} read {:?} instead of {:?}",
                now.f, now.q, (lo, hi), (wl, wh)
            );
            Ok(())
        }
        _ => Ok(()),
    }
}

// ---- schedules --------------------------------------------------------------------------------------------------

fn some_cut(r: &mut Rng, top: i64) -> i64 {
    match r.below(8) {
        0 => r.range(20_000, 40_000),
        1 if top > 24_000_000 => r.range(20_000_000, 60_000_000),
        2 => r.pick(&[20_000, 100_000, 1_000_000, 440_000, 10_000_000]),
        _ => r.logu(20_000, top.min(20_000_000)),
    }
}
fn some_res(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 | 1 => r.pick(&[0, 1000]),
        2 => r.range(-2000, 3000),
        3 => r.range(-20_000, 20_000),
        4 => r.pick(&[-1, 1]) * r.logu(1000, 1_000_000_000),
        _ => r.range(0, 1000),
    }
}
/// A quality; `wide` allows corners beyond the Nyquist frequency.
fn some_qual(r: &mut Rng, f: i64, wide: bool) -> i64 {
    let q = r.logu(if wide { 50 } else { 300 }, 200_000);
    if wide {
        return q;
    }
    // keep the upper corner below 22 kHz
    let mut q = q;
    while corners(freq(f), qual(q)).1 > 22_000.0 && q < 1_900_000 {
        q *= 2;
    }
    q
}

const BUFS: &[i64] = &[1, 7, 32, 64, 128, 480, 512];

fn automation(r: &mut Rng, kind: i64, total: i64, wide: bool, mut f: i64) -> Vec<Step> {
    let net = swarm_net(r);
    let mean = r.logu(1, total.max(2)) as f64;
    let style = r.below(3);
    // duplicated or late messages may pair any centre with any quality, so narrow schedules of the band-pass keep to
    // one safe range
    let top = if wide { 60_000_000 } else if kind == BP || kind == BPC { 8_000_000 } else { 24_000_000 };
    if r.chance(0.08) {
        return host(r, total, vec![], &net, 0, BUFS, 0);
    }
    // some schedules move a setting by next to nothing
    let crawl = r.chance(0.15);
    let mut q = if kind == LP || kind == HP { r.range(0, 1_000_000_000) } else { r.logu(700_000, 200_000_000) };
    let t = task(mean, move |r| match kind {
        LP | HP | BP if crawl => {
            if r.chance(0.4) {
                f = (f + r.range(-3, 3)).clamp(20_000, top);
                st(1, &[f])
            } else {
                let span = (q / 20_000).max(2);
                q = (q + r.range(-span, span)).max(if kind == BP { 700_000 } else { 0 });
                st(2, &[FINE + q])
            }
        }
        LP | HP => {
            if r.chance(0.6) {
                f = match style {
                    0 => (f as f64 * if r.chance(0.5) { 1.03 } else { 0.971 }) as i64,
                    _ => some_cut(r, top),
                }
                .clamp(20_000, 100_000_000);
                st(1, &[f])
            } else {
                st(2, &[some_res(r)])
            }
        }
        _ => match r.below(3) {
            0 => {
                f = if style == 0 { (f as f64 * if r.chance(0.5) { 1.03 } else { 0.971 }) as i64 } else { some_cut(r, top) }.clamp(20_000, top);
                st(1, &[f])
            }
            1 => {
                st(2, &[if wide { some_qual(r, f, true) } else { r.logu(700, 200_000) }])
            }
            _ => {
                let a = some_cut(r, top.min(21_000_000));
                let b = if wide { some_cut(r, top) } else { ((a as f64 * (1.02 + 2.0 * r.f())) as i64).min(21_000_000) };
                if r.chance(0.5) {
                    st(3, &[a, b])
                } else {
                    st(3, &[b, a])
                }
            }
        },
    });
    host(r, total, vec![t], &net, 0, BUFS, 250)
}

// ---- C14 --------------------------------------------------------------------------------------------------------

fn c14_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.pick(&[LP, LP, LP, HP, HP, HP, BP, BP, BPC, ENV, ENV, GEN, GEN, GEN, GAIN, PASS]);
    let mut total = if r.chance(0.0006) { r.logu(100_000, 2_000_000) } else { r.logu(16, if thorough { 20_000 } else { 6000 }) };
    let (mut a, mut b) = (0, 0);
    let mut steps = vec![];
    match kind {
        LP | HP => {
            a = some_cut(r, 30_000_000);
            b = some_res(r);
            steps = automation(r, kind, total, false, a);
        }
        BP => {
            a = some_cut(r, 8_000_000);
            b = r.logu(700, 200_000);
            steps = automation(r, kind, total, false, a);
        }
        BPC => {
            a = some_cut(r, 8_000_000);
            b = (a as f64 * (1.02 + 1.5 * r.f())) as i64;
            if r.chance(0.5) {
                std::mem::swap(&mut a, &mut b);
            }
            steps = automation(r, kind, total, false, a);
        }
        ENV => {
            a = r.logu(1000, 2_000_000);
            b = r.logu(1000, 20_000_000);
            steps.push(st(0, &[total]));
        }
        GEN => {
            let tiny = r.chance(0.1);
            for op in [4, 5] {
                let n = if r.chance(0.1) { 0 } else { r.range(1, 6) };
                let far = if r.chance(0.01) { r.logu(200, 20_000) } else { r.pick(&[3, 12, 200]) };
                let n = if n > 0 && r.chance(0.1) { r.range(7, 40) } else if n > 0 && r.chance(0.01) { r.range(41, 600) } else { n };
                for _ in 0..n {
                    let i = r.range(0, far);
                    let c = if op == 4 { r.range(-1500, 1500) } else { r.range(-900 / n, 900 / n) };
                    let c = if tiny && r.chance(0.5) { r.pick(&[-1, 1]) * (FINE + r.range(3, 30)) } else { c };
                    total = total.max(i + 500);
                    steps.push(st(op, &[i, c]));
                }
            }
            steps.push(st(0, &[total]));
        }
        GAIN => {
            a = r.range(-2000, 2000);
            let net = swarm_net(r);
            steps = host(r, total, vec![task(total as f64 / 5.0, |r| st(1, &[r.range(-3000, 3000)]))], &net, 0, BUFS, 40);
        }
        _ => steps.push(st(0, &[total])),
    }
    let held = matches!(kind, LP | HP | BP | BPC) && r.chance(0.5);
    if held {
        // end on settings whose response can be named
        match kind {
            LP | HP => {
                steps.push(st(1, &[r.logu(60_000, 1_000_000)]));
                steps.push(st(2, &[r.range(0, 800)]));
            }
            _ => {
                let f = r.logu(200_000, 1_500_000);
                steps.push(st(1, &[f]));
                steps.push(st(2, &[r.logu(700, 8_000)]));
            }
        }
        steps.push(st(6, &[]));
    }
    Plan { p: vec![ent, kind, a, b, r.below(9) as i64, r.seed(), r.logu(1, 100_000)], steps }
}

/// One step of an equation on the true history, with the sum of magnitudes for the tolerance.
fn one_step(e: &Eq, xs: &VecDeque<f64>, ys: &VecDeque<f64>) -> (f64, f64) {
    let mut v = 0.0;
    let mut m = 0.0;
    for (i, c) in e.z.iter().enumerate() {
        if *c == 0.0 && e.zm.get(i).copied().unwrap_or(0.0) == 0.0 {
            continue;
        }
        let h = xs.get(i).copied().unwrap_or(0.0);
        v += c * h;
        m += (e.zm.get(i).copied().unwrap_or(c.abs()) * h).abs();
    }
    for (i, c) in e.p.iter().enumerate() {
        if *c == 0.0 && e.pm.get(i).copied().unwrap_or(0.0) == 0.0 {
            continue;
        }
        let h = ys.get(i).copied().unwrap_or(0.0);
        v += c * h;
        m += (e.pm.get(i).copied().unwrap_or(c.abs()) * h).abs();
    }
    (v, m)
}

fn push(h: &mut VecDeque<f64>, v: f64, n: usize) {
    h.push_front(v);
    h.truncate(n.max(1));
}

/// Amplitude of the response to a sine of frequency f once settled.
fn response(m: &mut Filt, f: f64, settle: usize, c: &mut Ctx) -> f64 {
    let w = 2.0 * PI * f / 48000.0;
    for i in 0..settle {
        let y = m.next((w * i as f64).sin() as f32);
        c.out(y);
    }
    let per = ((48000.0 / f).round().max(1.0) as usize).max(1);
    let n = per * (4000 / per + 3);
    let (mut s, mut k, mut ss, mut kk) = (0.0, 0.0, 0.0, 0.0);
    for i in settle..settle + n {
        let p = w * i as f64;
        let y = m.next(p.sin() as f32) as f64;
        c.out(y as f32);
        s += y * p.sin();
        k += y * p.cos();
        ss += p.sin() * p.sin();
        kk += p.cos() * p.cos();
    }
    ((s / ss).powi(2) + (k / kk).powi(2)).sqrt()
}

fn held_response(m: &mut Filt, now: &Now, from: f64, c: &mut Ctx) -> Res {
    c.probe("held_response");
    let settle = ((from.max(1.0) / 1e-5f64).ln() / (1.0 - now.radius()).max(1e-6) * 1.5) as usize + 200;
    let settle = settle.min(400_000);
    match now.kind {
        LP => {
            let mut y = 0.0;
            for _ in 0..settle {
                y = m.next(0.5);
                c.out(y);
            }
            ensure!((y - 0.5).abs() < 0.005, "response", "low-pass at {} Hz (resonance {}) turns a constant 0.5 into {}", now.f, now.q, y);
            let g = response(m, (now.f * 8.0).min(20_000.0), settle, c);
            ensure!(g < 0.05, "response", "low-pass at {} Hz lets 8 times its cutoff through at {}", now.f, g);
        }
        HP => {
            let g = response(m, now.f / 8.0, settle, c);
            ensure!(g < 0.05, "response", "high-pass at {} Hz lets an eighth of its cutoff through at {}", now.f, g);
            let g = response(m, 20_000.0, settle, c);
            ensure!((0.6..1.2).contains(&g), "response", "high-pass at {} Hz has gain {} at 20 kHz", now.f, g);
        }
        _ => {
            let (lo, hi) = corners(now.f, now.q);
            let g = response(m, now.f, settle, c);
            ensure!((0.4..1.1).contains(&g), "response", "band-pass at {} Hz has gain {} at its centre", now.f, g);
            let g1 = response(m, lo / 12.0, settle, c);
            ensure!(g1 < 0.15, "response", "band-pass {}..{} Hz has gain {} a twelfth below", lo, hi, g1);
            if hi * 10.0 < 20_000.0 {
                let g2 = response(m, hi * 10.0, settle, c);
                ensure!(g2 < 0.2, "response", "band-pass {}..{} Hz has gain {} ten times above", lo, hi, g2);
            }
        }
    }
    Ok(())
}

fn c14_run(plan: &Plan, c: &mut Ctx) -> Res {
    let kind = plan.par(1).clamp(0, 7);
    let (a, b) = (plan.par(2), plan.par(3));
    let (sk, seed) = (plan.par(4), plan.par(5));
    let level = plan.par(6).clamp(1, 100_000) as f64 / 10_000.0;
    c.net(plan);
    c.probe(match kind {
        LP => "lowpass",
        HP => "highpass",
        BP | BPC => "bandpass",
        ENV => "envelope",
        GEN => "generic",
        GAIN => "gain",
        _ => "passthrough",
    });
    let mut eq = Eq::default();
    let mut now = Now { kind: -1, f: 0.0, q: 0.0 };
    let mut gain = a.clamp(-100_000, 100_000) as f32 / 1000.0;
    // follower coefficients: (a, b) rising, falling
    let mut env = ((0.0, 0.0), (0.0, 0.0));
    let mut m = match kind {
        LP | HP | BP | BPC => {
            let (m, n) = build(kind, a, b);
            now = n;
            if now.kind == BP && corners(now.f, now.q).1 > 23_000.0 {
                return Ok(());
            }
            eq = now.eq();
            check_getters(&m, &now)?;
            m
        }
        ENV => {
            let (lo, up) = (a.clamp(500, 23_000_000) as f32 / 1000.0, b.clamp(500, 23_000_000) as f32 / 1000.0);
            let co = |f: f32| {
                let t = (PI * f as f64 / 48000.0).tan();
                (t / (1.0 + t), (1.0 - t) / (1.0 + t))
            };
            env = (co(up), co(lo));
            Filt::Env(Envelope::new(lo, up))
        }
        GEN => {
            let mut z = Zeros::new();
            let mut p = Poles::new();
            let mut sorted = true;
            let mut last = [0, 0];
            for s in plan.steps.iter().filter(|s| s.op == 4 || s.op == 5) {
                let (i, v) = (s.arg(0).clamp(0, 40_000) as usize, tap(s.arg(1)));
                let (eqv, em, l) = if s.op == 4 { (&mut eq.z, &mut eq.zm, &mut last[0]) } else { (&mut eq.p, &mut eq.pm, &mut last[1]) };
                sorted &= i >= *l;
                *l = (*l).max(i);
                if eqv.len() <= i {
                    eqv.resize(i + 1, 0.0);
                    em.resize(i + 1, 0.0);
                }
                eqv[i] += v as f64;
                em[i] += v.abs() as f64;
                if s.op == 4 {
                    z.push_back((i, v));
                } else {
                    p.push_back((i, v));
                }
            }
            if !sorted {
                c.probe("taps_out_of_order");
            }
            if z.is_empty() || p.is_empty() {
                c.probe("no_taps");
            }
            if eq.z.len().max(eq.p.len()) > 1000 {
                c.probe("far_taps");
            }
            Filt::Gen(Generic::new(z, p))
        }
        GAIN => Filt::Gain(Gain::new(gain)),
        _ => Filt::Pass(Passthrough::new()),
    };
    let keep = eq.z.len().max(eq.p.len()).max(4);
    let mut xs: VecDeque<f64> = VecDeque::new();
    let mut ys: VecDeque<f64> = VecDeque::new();
    // a reference filter running beside the real one (low-pass and high-pass)
    let mut rs: VecDeque<f64> = VecDeque::new();
    // sums in f32 may round once for each of the taps
    let taps = if kind == GEN { plan.steps.iter().filter(|s| s.op == 4 || s.op == 5).count() } else { 0 };
    // the same with its arithmetic disturbed at the level of f64 rounding: how far rounding alone can lead here
    let mut pert = [VecDeque::new(), VecDeque::new(), VecDeque::new()];
    let mut dev = 0f64;
    let mut peak = 0f64;
    let mut n = 0u64;
    let mut moved = false;
    for s in &plan.steps {
        match s.op {
            0 => {
                for _ in 0..s.arg(0).max(0) {
                    let x = signal(sk, seed, n) * level as f32;
                    let y = m.next(x);
                    c.out(y);
                    moved |= y != 0.0;
                    let (x, y) = (x as f64, y as f64);
                    let prev = ys.front().copied().unwrap_or(0.0);
                    let px = xs.front().copied().unwrap_or(0.0);
                    push(&mut xs, x, keep);
                    match kind {
                        LP | HP | BP | BPC | GEN => {
                            let (v, mag) = one_step(&eq, &xs, &ys);
                            if kind == GEN && mag > 1e30 {
                                return Ok(());
                            }
                            ensure!(
                                (y - v).abs() <= (2e-6 + taps as f64 * 7e-8) * mag + 1e-36,
                                "difference_equation",
                                "sample {}: {} where the equation gives {} (settings {:?}, equation {:?}, inputs {:?}, outputs {:?})",
                                n, y, v, now, if eq.z.len() + eq.p.len() < 12 { Some(&eq) } else { None },
                                xs.iter().take(4).collect::<Vec<_>>(), ys.iter().take(4).collect::<Vec<_>>()
                            );
                            if kind == LP || kind == HP {
                                let (w, _) = one_step(&eq, &xs, &rs);
                                peak = (peak * 0.99999).max(w.abs()).max(x.abs());
                                for (k, p) in pert.iter_mut().enumerate() {
                                    let (v, m) = one_step(&eq, &xs, p);
                                    let d = (hash2(seed as u64 ^ k as u64, n) % 2001) as f64 / 1000.0 - 1.0;
                                    let v = v + 2e-15 * m * d;
                                    dev = (dev * 0.9999).max((v - w).abs());
                                    push(p, v, keep);
                                }
                                ensure!(
                                    (y - w).abs() <= 2e-6 * peak + 100.0 * dev + 1e-36,
                                    "strays_from_reference",
                                    "sample {}: {} where the filter run in f64 from the start is at {} (settings {:?})",
                                    n, y, w, now
                                );
                                push(&mut rs, w, keep);
                            }
                        }
                        ENV => {
                            let f = |(a, b): (f64, f64)| (a * (x.abs() + px.abs()) + b * prev, a * (x.abs() + px.abs()) + (b * prev).abs());
                            let ok = |(v, mag): (f64, f64)| (y - v).abs() <= 2e-6 * mag + 1e-36;
                            let tie = (x.abs() - prev).abs() <= 1e-6 * (x.abs() + prev.abs());
                            let good = if tie {
                                ok(f(env.0)) || ok(f(env.1))
                            } else if x.abs() > prev {
                                ok(f(env.0))
                            } else {
                                ok(f(env.1))
                            };
                            ensure!(good, "difference_equation", "sample {}: follower at {} after {} with input {} after {}", n, y, prev, x, px);
                        }
                        GAIN => {
                            let v = x * gain as f64;
                            ensure!((y - v).abs() <= 1e-6 * v.abs() + 1e-36, "difference_equation", "sample {}: {} from {} at gain {}", n, y, x, gain);
                        }
                        _ => ensure!(y == x, "difference_equation", "sample {}: {} passed through as {}", n, x, y),
                    }
                    push(&mut ys, y, keep);
                    n += 1;
                }
            }
            4 | 5 => {}
            6 => {
                if now.kind >= 0 {
                    let ok = match now.kind {
                        BP => now.f >= 100.0 && corners(now.f, now.q).1 < 5000.0 && corners(now.f, now.q).0 > 30.0,
                        _ => (50.0..=1000.0).contains(&now.f) && now.q <= 0.9,
                    };
                    if ok {
                        held_response(&mut m, &now, ys.iter().fold(0.0, |a: f64, y| a.max(y.abs())), c)?;
                    }
                    c.nontrivial = moved;
                    return Ok(());
                }
            }
            _ => {
                if s.tag == LOST {
                    continue;
                }
                if let Filt::Gain(g) = &mut m {
                    gain = s.arg(0).clamp(-100_000, 100_000) as f32 / 1000.0;
                    g.a = gain;
                    continue;
                }
                if now.kind >= 0 {
                    // a band-pass setting that would put a corner beyond the defined range is not sent
                    if now.kind == BP {
                        let mut w = now.clone();
                        match s.op {
                            1 => w.f = freq(s.arg(0)),
                            2 => w.q = qual(s.arg(0)),
                            _ => {
                                let (x, y) = corner_pair(s.arg(0), s.arg(1));
                                w.f = (x * y).sqrt();
                                w.q = w.f / (x - y).abs();
                            }
                        }
                        if corners(w.f, w.q).1 > 23_000.0 {
                            continue;
                        }
                    }
                    apply(&mut m, &mut now, s, c);
                    check_getters(&m, &now)?;
                    eq = now.eq();
                }
            }
        }
    }
    c.nontrivial = moved;
    Ok(())
}

pub static C14: Prop = Prop {
    id: "C14",
    params: &["ent", "kind", "a", "b", "signal", "seed", "level"],
    ops: &[
        ("run", &["n"]),
        ("centre", &["mhz"]),
        ("quality", &["milli"]),
        ("corners", &["mhz", "mhz2"]),
        ("zero", &["index", "milli"]),
        ("pole", &["index", "milli"]),
        ("response", &[]),
    ],
    gen: c14_gen,
    run: c14_run,
    quick: 360_000,
    thorough: 8_900_000,
    rule: "the filter gave a non-zero output",
    oracle: "difference equation in f64 on the filter's own input and output history every sample, a whole reference filter beside low- and high-pass, getters, and measured response under held settings",
    real: &["modifiers::LowPass, HighPass, BandPass, Envelope, Generic, Gain, Passthrough"],
    stub: &["control task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "lowpass", "highpass", "bandpass", "envelope", "generic", "gain", "passthrough", "setting_changed", "cutoff_limited", "resonance_limited",
        "corners_in_reverse_order", "taps_out_of_order", "no_taps", "far_taps", "held_response",
    ],
};

// ---- C13 --------------------------------------------------------------------------------------------------------

fn c13_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.pick(&[LP, LP, LP, HP, HP, HP, BP, BP, BP, BPC, BPC, ENV, ECHO]);
    let total = r.logu(2, if thorough { 30_000 } else { 5000 });
    let (a, b, steps);
    match kind {
        LP | HP => {
            a = some_cut(r, 60_000_000);
            b = some_res(r);
            steps = automation(r, kind, total, true, a);
        }
        BP | BPC => {
            a = some_cut(r, 20_000_000);
            b = if kind == BP { some_qual(r, a, true) } else { some_cut(r, 60_000_000) };
            steps = automation(r, kind, total, true, a);
        }
        ENV => {
            a = r.logu(20_000, 5_000_000);
            b = r.logu(20_000, 23_000_000);
            steps = vec![st(0, &[total])];
        }
        _ => {
            a = if r.chance(0.2) { r.range(0, 50_000) } else { r.logu(20_000, 60_000_000) };
            b = r.range(-950, 950);
            steps = vec![st(0, &[total])];
        }
    }
    let top = if r.chance(0.1) { 1_000_000 } else { 1000 };
    let level = r.logu(1, top);
    Plan { p: vec![ent, kind, a, b, r.below(9) as i64, r.seed(), level], steps }
}

fn c13_run(plan: &Plan, c: &mut Ctx) -> Res {
    let kind = match plan.par(1) {
        ECHO => ECHO,
        k => k.clamp(0, 4),
    };
    let (a, b) = (plan.par(2), plan.par(3));
    let (sk, seed) = (plan.par(4), plan.par(5));
    let level = plan.par(6).clamp(1, 1_000_000) as f32 / 1000.0;
    c.net(plan);
    c.probe(match kind {
        LP => "lowpass",
        HP => "highpass",
        BP | BPC => "bandpass",
        ENV => "envelope",
        _ => "echo",
    });
    let mut now = Now { kind: -1, f: 0.0, q: 0.0 };
    let mut echo = (1usize, 0f64);
    let (mut slow, mut fast) = (20.0, 20.0);
    let mut m = match kind {
        ENV => {
            let (lo, up) = (a.clamp(20_000, 23_000_000) as f32 / 1000.0, b.clamp(20_000, 23_000_000) as f32 / 1000.0);
            slow = lo.min(up) as f64;
            fast = lo.max(up) as f64;
            Filt::Env(Envelope::new(lo, up))
        }
        ECHO => {
            let d = Duration::from_nanos(a.clamp(0, 2_000_000_000) as u64);
            let g = b.clamp(-990, 990) as f64 / 1000.0;
            echo = (((d.as_secs_f64() * 48000.0).ceil() as usize).max(1), g.abs());
            Filt::Echo(Echo::new(d, g))
        }
        _ => {
            let (m, n) = build(kind, a, b);
            now = n;
            m
        }
    };
    let mut n = 0u64;
    let mut top = 0f64;
    let feed = |m: &mut Filt, c: &mut Ctx, x: f32, n: u64, when: &str, now: &Now| -> Result<f64, crate::Fail> {
        let y = m.next(x);
        c.out(y);
        ensure!(y.is_finite(), "not_finite", "sample {} ({}): {} (settings {:?})", n, when, y, now);
        Ok(y.abs() as f64)
    };
    // automation under a bounded signal
    for s in &plan.steps {
        match s.op {
            0 => {
                for _ in 0..s.arg(0).max(0) {
                    let y = feed(&mut m, c, signal(sk, seed, n) * level, n, "under automation", &now)?;
                    top = top.max(y);
                    n += 1;
                }
            }
            _ => {
                if s.tag == LOST {
                    continue;
                }
                apply(&mut m, &mut now, s, c);
                if now.kind == BP && corners(now.f, now.q).1 >= 24_000.0 {
                    c.probe("corner_beyond_nyquist");
                }
            }
        }
    }
    // settings held from here
    let rate = match kind {
        ENV => {
            let p = |f: f64| {
                let t = (PI * f / 48000.0).tan();
                ((1.0 - t) / (1.0 + t)).abs()
            };
            p(slow).max(p(fast))
        }
        ECHO => echo.1.max(0.01).powf(1.0 / echo.0 as f64),
        _ => now.radius(),
    };
    let ln = -rate.max(1e-3).ln();
    let settle = |from: f64| -> u64 { ((((from.max(1.0)) / 1e-6).ln() / ln * 1.5) as u64 + 200).min(12_000_000) };
    // largest gain of the held filter
    let gain = match kind {
        // a rise from zero above a quarter of the sample rate overshoots once
        ENV => {
            let t = (PI * fast / 48000.0).tan();
            (2.0 * t / (1.0 + t)).max(1.0)
        }
        ECHO => 1.0 / (1.0 - echo.1),
        _ => {
            let mut w = now.clone();
            if w.kind == BP {
                // beyond the Nyquist frequency only the existence of a bound is specified
                let (lo, hi) = corners(w.f, w.q);
                if hi > 23_000.0 {
                    w.f = w.f.min(11_000.0);
                    let _ = lo;
                    w.q = w.q.max(0.7);
                }
            }
            let e = w.eq();
            let (mut xs, mut ys) = (VecDeque::new(), VecDeque::new());
            let mut sum = 0.0;
            let nn = settle(1.0);
            for i in 0..nn {
                push(&mut xs, if i == 0 { 1.0 } else { 0.0 }, 4);
                let (v, _) = one_step(&e, &xs, &ys);
                push(&mut ys, v, 4);
                sum += v.abs();
                if i > 200 && v.abs() < 1e-9 && ys.iter().all(|v| v.abs() < 1e-9) {
                    break;
                }
            }
            if now.kind == BP && corners(now.f, now.q).1 > 23_000.0 {
                (sum * 2.0).max(4.0)
            } else {
                sum
            }
        }
    };
    let l = level as f64;
    if top > 1.5 * gain * l {
        c.probe("automation_overshoot");
    }
    let bound = 1.05 * gain * l + 1e-4 * l;
    let wait = settle(top / l / gain.max(0.01));
    for _ in 0..wait {
        feed(&mut m, c, signal(sk, seed, n) * level, n, "settings held", &now)?;
        n += 1;
    }
    for _ in 0..2000 {
        let y = feed(&mut m, c, signal(sk, seed, n) * level, n, "settings held", &now)?;
        ensure!(
            y <= bound,
            "does_not_settle",
            "sample {}: {} although the input is at most {}, the gain {} and the settings ({:?}) were held for {} samples",
            n, y, l, gain, now, wait
        );
        n += 1;
    }
    // input stops
    let wait = settle(gain.max(1.0) * 10.0) + if kind == ECHO { echo.0 as u64 * 4 } else { 0 };
    for _ in 0..wait {
        feed(&mut m, c, 0.0, n, "in silence", &now)?;
        n += 1;
    }
    for _ in 0..500 {
        let y = feed(&mut m, c, 0.0, n, "in silence", &now)?;
        ensure!(y <= 1e-3 * l, "does_not_fall_silent", "sample {}: {} after {} samples of silence (settings {:?})", n, y, wait, now);
        n += 1;
    }
    c.nontrivial = top > 0.0;
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    params: &["ent", "kind", "a", "b", "signal", "seed", "level"],
    ops: &[("run", &["n"]), ("centre", &["mhz"]), ("quality", &["milli"]), ("corners", &["mhz", "mhz2"])],
    gen: c13_gen,
    run: c13_run,
    quick: 34_000,
    thorough: 820_000,
    rule: "the filter gave a non-zero output under automation",
    oracle: "finite at every sample; after holding the settings for the filter's own settling time, at most 1.05 x the absolute sum of the reference impulse response x input level; after silence for the settling time, below 1e-3 of the input level",
    real: &["modifiers::LowPass, HighPass, BandPass, Envelope, Echo"],
    stub: &["control task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["lowpass", "highpass", "bandpass", "envelope", "echo", "setting_changed", "cutoff_limited", "resonance_limited", "corner_beyond_nyquist"],
};

// ---- C15 --------------------------------------------------------------------------------------------------------

fn c15_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.below(2) as i64;
    let top = if thorough { 3_000_000_000 } else { 1_000_000_000 };
    let ns = match r.below(8) {
        0 => 0,
        1 => r.range(1, 40_000),
        2 => r.range(1, 400) * 1_000_000,
        3 => (r.range(1, 20_000) as f64 * 1e9 / 48000.0) as i64 + r.range(0, 1),
        _ => r.logu(10_000, top),
    };
    // now and then far longer than anyone would test
    let long = r.chance(0.003);
    let ns = if !long {
        ns
    } else if r.chance(0.06) {
        r.range(60_000_000_000, 300_000_000_000)
    } else {
        r.logu(1_000_000_000, 60_000_000_000)
    };
    let d = (ns as f64 * 48e-6) as i64;
    let mut left = (d as f64 * 2.5 * r.f()) as i64 + r.logu(1, 4000);
    if long {
        left = d + r.logu(1, 4000);
    } else if r.chance(0.03) {
        left += 2_000_000;
    }
    let mut steps = vec![];
    let mean = r.logu(1, 4096) as f64;
    while left > 0 && steps.len() < 500 {
        let n = if steps.len() == 499 { left } else { r.gap(mean).min(left) };
        steps.push(st(0, &[n]));
        left -= n;
        if kind == 0 && r.chance(0.2) {
            steps.push(st(1, &[]));
        }
    }
    let g = if r.chance(0.1) { r.range(-20_000, 20_000) } else { r.range(-1000, 1000) };
    Plan { p: vec![ent, kind, ns, g, r.below(9) as i64, r.seed(), if r.chance(0.7) { 0 } else { r.range(-60, 40) }, r.chance(0.15) as i64], steps }
}

fn raw(seed: i64, i: u64) -> f32 {
    // any bit pattern a caller may put through a delay
    match hash2(seed as u64, i) % 16 {
        0 => f32::INFINITY,
        1 => -0.0,
        2 => f32::MIN_POSITIVE / 8.0,
        3 => f32::MAX,
        4 if seed % 4 == 0 => f32::NAN,
        _ => signal(2, seed, i),
    }
}

fn c15_run(plan: &Plan, c: &mut Ctx) -> Res {
    let echo = plan.par(1) == 1;
    let ns = plan.par(2).clamp(0, 300_000_000_000);
    let d = Duration::from_nanos(ns as u64);
    let g = plan.par(3).clamp(-20_000, 20_000) as f64 / 1000.0;
    let scale = 2f32.powi(plan.par(6).clamp(-60, 40) as i32);
    let (sk, seed) = (plan.par(4), plan.par(5));
    // samples that are no ordinary numbers
    let bad = echo && plan.par(7) != 0;
    let exact = d.as_secs_f64() * 48000.0;
    // rounding may decide between neighbours
    let mut lens: Vec<usize> = if echo {
        vec![(exact - 1e-6).max(0.0).floor().max(1.0) as usize, (exact + 1e-6).floor().max(1.0) as usize]
    } else {
        vec![(exact - 1e-6).max(0.0).round() as usize, (exact + 1e-6).round() as usize]
    };
    lens.dedup();
    if exact < 0.5 {
        c.probe("zero_duration");
    }
    c.probe(if echo { "echo" } else { "delay" });
    let base = os::mark();
    let mut e = if echo { Some(Echo::new(d, g)) } else { None };
    let mut dl = if echo { None } else { Some(Delay::new(d)) };
    let maxlen = *lens.last().unwrap() as u64;
    let budget = 64 * maxlen + 65_536;
    ensure!(os::peak() - base <= budget, "memory", "building it for {} samples took {} bytes", maxlen, os::peak() - base);
    let mut hist: Vec<f32> = Vec::with_capacity(plan.steps.iter().map(|s| s.arg(0).clamp(0, 20_000_000) as usize + 1).sum());
    let hold = os::live();
    let mut moved = false;
    for s in &plan.steps {
        if s.op == 1 {
            if let Some(m) = &dl {
                let r = m.get_delay().as_secs_f64();
                ensure!(lens.iter().any(|l| (r - *l as f64 / 48000.0).abs() < 2e-9), "delay_reads_back", "delay of {} samples reads {} s", lens[0], r);
                c.probe("read_back");
            }
            continue;
        }
        for _ in 0..s.arg(0).clamp(0, 20_000_000) {
            let n = hist.len();
            if let Some(m) = &mut dl {
                let x = raw(seed, n as u64);
                let y = m.process(x);
                c.out(y);
                hist.push(x);
                let want = |l: usize| if n >= l { hist[n - l] } else { 0.0 };
                lens.retain(|l| y.to_bits() == want(*l).to_bits());
                ensure!(!lens.is_empty(), "wrong_sample", "sample {} of a delay of {} samples is {} ({} was due)", n, exact, y, want(exact.round() as usize));
                moved |= y != 0.0;
            } else if let Some(m) = &mut e {
                let mut x = signal(sk, seed, n as u64) * scale;
                if bad && hash2(seed as u64 ^ 77, n as u64) % 4096 == 0 {
                    x = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX][hash2(seed as u64, n as u64) as usize % 4];
                }
                let y = m.process(x);
                c.out(y);
                if !y.is_finite() {
                    c.probe("echo_overflowed");
                }
                lens.retain(|l| {
                    let back = if n >= *l { hist[n - l] as f64 } else { 0.0 };
                    let want = x as f64 + g * back;
                    // the product alone may leave the range of a sample
                    if back.is_finite() && (g * back).abs() > 3.4e38 && !y.is_finite() {
                        return true;
                    }
                    if want.is_nan() {
                        return y.is_nan();
                    }
                    if want.is_infinite() {
                        return y as f64 == want;
                    }
                    // the sum may leave the range of a sample
                    let m = x.abs() as f64 + (g * back).abs();
                    if m > 3.4e38 && !y.is_finite() {
                        return true;
                    }
                    (y as f64 - want).abs() <= 1e-6 * m + 1e-36
                });
                ensure!(!lens.is_empty(), "wrong_sample", "sample {} of an echo of {} samples and gain {} is {} for input {}", n, exact, g, y, x);
                hist.push(y);
                moved |= y != 0.0;
            }
        }
        let grown = os::live().saturating_sub(hold);
        ensure!(grown <= budget, "memory", "{} bytes more after {} samples (delay of {} samples)", grown, hist.len(), maxlen);
    }
    if hist.len() as u64 > 2 * maxlen {
        c.probe("signal_longer_than_twice_the_delay");
    }
    if hist.len() > 1_000_000 {
        c.probe("over_a_million_samples");
    }
    if hist.len() as u64 >= maxlen && maxlen > 48_000 * 60 {
        c.probe("longer_than_a_minute");
    }
    c.nontrivial = moved;
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    params: &["ent", "kind", "ns", "gain", "signal", "seed", "level_log2", "odd_samples"],
    ops: &[("run", &["n"]), ("read", &[])],
    gen: c15_gen,
    run: c15_run,
    quick: 70_000,
    thorough: 1_700_000,
    rule: "a non-zero sample came out",
    oracle: "recorded history: delay bit for bit, echo by its equation on its own output; live heap bytes bounded by the delay length",
    real: &["modifiers::Delay, Echo"],
    stub: &["audio callback (simulated host)", "allocator (counting)"],
    faults: &[],
    probes: &["delay", "echo", "zero_duration", "read_back", "signal_longer_than_twice_the_delay", "over_a_million_samples", "longer_than_a_minute", "echo_overflowed"],
};
