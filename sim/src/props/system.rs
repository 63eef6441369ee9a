//! C23: clones. C24: instances side by side on several threads. C25: reproducible sessions.

use super::channel::Speakers;
use super::osc::Osc;
use super::parts::*;
use super::sounds::build_sound;
use crate::plan::{st, Plan, Step, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task, Task};
use crate::sig::{dyadic, signal};
use crate::{ensure, os, quiet_thread, take_panic, Ctx, Fail, Prop, Res};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::{Mono, Stereo};
use bae_rs::sounds::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc};
use std::time::Duration;

// ---- every kind of generator and modifier behind one face -------------------------------------------------------

pub(super) const KINDS: i64 = 17;
pub(super) const NAMES: [&str; KINDS as usize] = [
    "sine", "sawtooth", "square", "triangle", "resampler", "clip", "adsr", "lowpass", "highpass", "bandpass", "envelope", "delay", "echo", "generic",
    "gain", "passthrough", "zero",
];

pub(super) enum Obj {
    Osc(Osc),
    Res(MonoResampler),
    Wav(MonoWav),
    Adsr(ADSR),
    Lp(LowPass),
    Hp(HighPass),
    Bp(BandPass),
    Env(Envelope),
    Delay(Delay),
    Echo(Echo),
    Gen(Generic),
    Gain(Gain),
    Pass(Passthrough),
    Zero(Zero),
}

/// The settings of an instance as last set.
#[derive(Clone, Debug)]
pub(super) struct Set {
    kind: i64,
    seed: u64,
    f: f64,
    q: f64,
    corners: bool,
    speed: f64,
    alt: u64,
    /// pitches of which the sample rate is a whole multiple
    nice: bool,
    /// envelopes of up to a second
    long: bool,
    /// far more memory than usual: clips and delays of seconds, many and far taps
    big: bool,
    /// delays of half a minute
    huge: bool,
}

fn nice(v: u64) -> f64 {
    48_000.0 / [8, 16, 32, 64, 128, 256, 512, 12, 48, 100][v as usize % 10] as f64
}

fn pitch(v: i64) -> f64 {
    v.clamp(1_000, 23_999_000) as f64 / 1000.0
}

impl Set {
    pub(super) fn new(kind: i64, seed: i64) -> Set {
        let s = seed as u64;
        let whole = hash2(s, 5) % 8 == 0;
        Set {
            kind: kind.rem_euclid(KINDS),
            seed: s,
            nice: whole,
            big: false,
            huge: false,
            long: hash2(s, 6) % 12 == 0,
            f: if whole { nice(hash2(s, 1)) } else { 60.0 + (hash2(s, 1) % 6_000_000) as f64 / 1000.0 },
            q: 0.3 + (hash2(s, 2) % 400) as f64 / 100.0,
            corners: false,
            speed: 1.0,
            alt: 0,
        }
    }
    /// The settings of a relative: the same, almost the same, or different in one of them.
    fn relative(kind: i64, seed: i64, how: i64) -> Set {
        let mut s = Set::new(kind, seed);
        let h = hash2(how as u64, 3);
        match how.rem_euclid(8) {
            0 => {}
            1 => s.f *= 1.0 + [1e-3, 1e-6, 1e-9, 1e-12][h as usize % 4],
            2 => s.q *= 1.0 + [1e-3, 1e-6, 1e-7, 1e-12][h as usize % 4],
            3 => s.f = 60.0 + (h % 6_000_000) as f64 / 1000.0,
            4 => s.q = 0.3 + (h % 400) as f64 / 100.0,
            5 => s.f = s.f.round(),
            _ => s.alt = 1 + h % 40,
        }
        s
    }
    fn h(&self, k: u64, m: u64) -> u64 {
        hash2(self.seed, if k == self.alt { 900 } else { 100 } + k) % m
    }
    fn res(&self) -> f64 {
        (self.q / 4.3).min(1.0)
    }
    fn ns(&self, k: u64, max: u64) -> Duration {
        Duration::from_nanos(self.h(k, max) * 1_000_000_000 / 48_000 + 10)
    }
    /// A newly built instance with these settings.
    pub(super) fn fresh(&self) -> Obj {
        let track = |n: u64| (0..n).map(|i| dyadic(self.seed, i).into()).collect::<Vec<Mono>>();
        let len = if self.big { 60_000 + self.h(1, 100_000) } else { 2 + self.h(1, 200) };
        let room = if self.huge { 1_500_000 } else if self.big { 150_000 } else { 3000 };
        match self.kind {
            k @ 0..=3 => {
                // some oscillators get their pitch after construction
                let mut o = Osc::new(k, if self.h(2, 2) == 0 { self.f } else { 100.0 });
                o.set(self.f);
                Obj::Osc(o)
            }
            4 => {
                let (a, b) = (self.h(3, len) as usize, self.h(4, len + 3) as usize);
                let mut r = MonoResampler::new(track(len), 8000.0 + self.h(5, 90_000) as f64, a, b);
                r.set_playback_speed(self.speed);
                Obj::Res(r)
            }
            5 => {
                let mut w = MonoWav::from_track(8000.0 + self.h(5, 90_000) as f64, track(len));
                w.get_mut().set_playback_speed(self.speed);
                Obj::Wav(w)
            }
            6 => {
                let max = if self.long { 40_000 } else { 60 };
                Obj::Adsr(ADSR::new(self.ns(6, max), self.ns(7, max), -(self.h(8, 30) as f64), self.ns(9, max)))
            }
            7 => Obj::Lp(LowPass::new(self.f, self.res())),
            8 => Obj::Hp(HighPass::new(self.f, self.res())),
            9 => Obj::Bp(if self.corners { BandPass::from_corners((self.f, self.f * (1.0 + self.q))) } else { BandPass::new(self.f, self.q) }),
            10 => Obj::Env(Envelope::new(60.0 + self.h(10, 5000) as f32, 5100.0 + self.h(11, 10_000) as f32)),
            11 => Obj::Delay(Delay::new(self.ns(12, room))),
            12 => Obj::Echo(Echo::new(self.ns(12, room), 0.1 + self.h(13, 80) as f64 / 100.0)),
            13 => {
                let mut z = VecDeque::new();
                let mut p = VecDeque::new();
                let (nz, np, far) = if self.big { (40, 40, 6000) } else { (5, 4, 12) };
                for k in 0..self.h(14, nz) {
                    z.push_back((self.h(20 + k, far) as usize, dyadic(self.seed, k)));
                }
                for k in 0..self.h(15, np) {
                    let by = if self.big { 0.01 } else if self.h(16, 4) == 0 { 8.0 } else { 0.1 };
                    p.push_back((self.h(300 + k, far) as usize, dyadic(self.seed, 50 + k) * by));
                }
                Obj::Gen(Generic::new(z, p))
            }
            14 => Obj::Gain(Gain::new(dyadic(self.seed, 3))),
            15 => Obj::Pass(Passthrough::new()),
            _ => Obj::Zero(Zero::new()),
        }
    }
    /// Change a setting of `o` (and record it) or trigger it; `v` is interpreted per kind.
    pub(super) fn poke(&mut self, o: &mut Obj, which: i64, v: i64) {
        let below_nyquist = |f: f64, q: f64| f * (1.0 + q) < 23_000.0;
        match o {
            Obj::Osc(x) => {
                self.f = if self.nice { nice(v as u64 / 1000) } else { pitch(v) };
                x.set(self.f);
            }
            Obj::Res(x) => {
                self.speed = v.rem_euclid(4000) as f64 / 1000.0;
                x.set_playback_speed(self.speed);
            }
            Obj::Wav(x) => {
                self.speed = v.rem_euclid(4000) as f64 / 1000.0;
                x.get_mut().set_playback_speed(self.speed);
            }
            Obj::Adsr(x) => x.release(),
            Obj::Lp(x) => {
                if which % 2 == 0 {
                    self.f = pitch(v).max(60.0);
                    x.set_central_frequency(self.f);
                } else {
                    self.q = v.rem_euclid(1001) as f64 / 1000.0 * 4.3;
                    x.set_resonance(self.res());
                }
            }
            Obj::Hp(x) => {
                if which % 2 == 0 {
                    self.f = pitch(v).max(60.0);
                    x.set_central_frequency(self.f);
                } else {
                    self.q = v.rem_euclid(1001) as f64 / 1000.0 * 4.3;
                    x.set_resonance(self.res());
                }
            }
            Obj::Bp(x) => {
                let f = 100.0 + v.rem_euclid(3_000_000) as f64 / 1000.0;
                let q = 0.3 + v.rem_euclid(3999) as f64 / 1000.0;
                if which % 3 == 0 && below_nyquist(f, q) {
                    (self.f, self.q, self.corners) = (f, q, true);
                    x.set_corner_frequencies((f, f * (1.0 + q)));
                } else if !self.corners {
                    if which % 3 == 1 {
                        self.f = f;
                        x.set_central_frequency(f);
                    } else {
                        self.q = q;
                        x.set_quality(q);
                    }
                }
            }
            _ => {}
        }
    }
}

impl Obj {
    pub(super) fn next(&mut self, x: f32) -> f32 {
        match self {
            Obj::Osc(o) => o.next(),
            Obj::Res(o) => o.process(),
            Obj::Wav(o) => o.process(),
            Obj::Adsr(o) => o.process(x),
            Obj::Lp(o) => o.process(x),
            Obj::Hp(o) => o.process(x),
            Obj::Bp(o) => o.process(x),
            Obj::Env(o) => o.process(x),
            Obj::Delay(o) => o.process(x),
            Obj::Echo(o) => o.process(x),
            Obj::Gen(o) => o.process(x),
            Obj::Gain(o) => o.process(x),
            Obj::Pass(o) => o.process(x),
            Obj::Zero(o) => o.process(),
        }
    }
    pub(super) fn copy(&self) -> Obj {
        match self {
            Obj::Osc(Osc::Sine(o)) => Obj::Osc(Osc::Sine(o.clone())),
            Obj::Osc(Osc::Saw(o)) => Obj::Osc(Osc::Saw(o.clone())),
            Obj::Osc(Osc::Square(o)) => Obj::Osc(Osc::Square(o.clone())),
            Obj::Osc(Osc::Tri(o)) => Obj::Osc(Osc::Tri(o.clone())),
            Obj::Res(o) => Obj::Res(o.clone()),
            Obj::Wav(o) => Obj::Wav(o.clone()),
            Obj::Adsr(o) => Obj::Adsr(o.clone()),
            Obj::Lp(o) => Obj::Lp(o.clone()),
            Obj::Hp(o) => Obj::Hp(o.clone()),
            Obj::Bp(o) => Obj::Bp(o.clone()),
            Obj::Env(o) => Obj::Env(o.clone()),
            Obj::Delay(o) => Obj::Delay(o.clone()),
            Obj::Echo(o) => Obj::Echo(o.clone()),
            Obj::Gen(o) => Obj::Gen(o.clone()),
            Obj::Gain(o) => Obj::Gain(*o),
            Obj::Pass(o) => Obj::Pass(*o),
            Obj::Zero(o) => Obj::Zero(*o),
        }
    }
    /// Settings as read back, in a fixed order.
    fn read(&self) -> Vec<f64> {
        match self {
            Obj::Osc(o) => vec![o.get()],
            Obj::Res(o) => vec![o.get_playback_speed()],
            Obj::Wav(o) => vec![o.get().get_playback_speed()],
            Obj::Lp(o) => vec![o.get_central_frequency(), o.get_resonance()],
            Obj::Hp(o) => vec![o.get_central_frequency(), o.get_resonance()],
            Obj::Bp(o) => vec![o.get_central_frequency(), o.get_quality(), o.get_corner_frequencies().0, o.get_corner_frequencies().1],
            Obj::Delay(o) => vec![o.get_delay().as_secs_f64()],
            _ => vec![],
        }
    }
}

// ---- C23 --------------------------------------------------------------------------------------------------------

fn c23_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.below(KINDS as u64) as i64;
    let mut seed = r.seed();
    let mut total = r.logu(3, if thorough { 20_000 } else { 2500 });
    if kind == 6 && r.chance(0.05) {
        // an envelope of a second, to its end
        while !Set::new(6, seed).long {
            seed = r.seed();
        }
        total = r.range(20_000, 120_000);
    }
    if matches!(kind, 4 | 5 | 11 | 12 | 13) && r.chance(0.003) {
        // an instance of seconds, cloned and played to its end
        let huge = matches!(kind, 11 | 12) && r.chance(0.15);
        let n = if huge { 3_200_000 } else if kind == 13 { 15_000 } else if kind < 6 { r.pick(&[170_000, 900_000]) } else { 320_000 };
        let mut steps = vec![st(0, &[if r.chance(0.5) { 0 } else { r.logu(1, 100_000) }])];
        steps.push(st(2, &[0]));
        if r.chance(0.3) {
            steps.push(st(2, &[1]));
        }
        if kind < 6 {
            steps.push(st(1, &[1, 0, r.range(500, 3999)]));
        }
        steps.push(st(4, &[r.range(1, 2)]));
        steps.push(st(0, &[n / 2]));
        steps.push(st(0, &[n / 2]));
        return Plan { p: vec![ent, kind, seed, r.pick(&[2, 9, 3]), if huge { 2 } else { 1 }], steps };
    }
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let tasks: Vec<Task> = vec![
        task(mean, move |r| st(2, &[r.below(6) as i64])),
        task(mean, move |r| st(1, &[r.below(6) as i64, r.below(6) as i64, r.logu(1_000, 23_999_000)])),
        task(mean * 2.0, move |r| st(3, &[r.below(6) as i64])),
        // which instance the next callbacks serve
        task(mean / 2.0, move |r| st(4, &[r.below(6) as i64])),
    ];
    let steps = host(r, total, tasks, &net, 0, &[1, 2, 7, 32, 64, 480], if thorough { 200 } else { 60 });
    Plan { p: vec![ent, kind, seed, r.range(0, 12), 0], steps }
}

struct Inst {
    o: Obj,
    twin: Obj,
    set: Set,
    tset: Set,
    n: u64,
    mag: f64,
}

fn c23_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let mut set = Set::new(plan.par(1), plan.par(2));
    set.big = plan.par(4) > 0;
    set.huge = plan.par(4) == 2;
    if set.big {
        c.probe("large_instance");
    }
    let name = NAMES[set.kind as usize];
    c.probe(name);
    // what answers to its input is silent without any
    let modifier = (6..16).contains(&set.kind);
    let mut all: Vec<Inst> = vec![Inst { o: set.fresh(), twin: set.fresh(), set: set.clone(), tset: set.clone(), n: 0, mag: 0.0 }];
    let mut now = 0usize;
    let (mut cloned, mut ran_after) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        let i = s.arg(0).rem_euclid(all.len() as i64) as usize;
        match s.op {
            0 => {
                let k = now.min(all.len() - 1);
                let t = &mut all[k];
                for _ in 0..s.arg(0).clamp(0, 2_000_000) {
                    let sk = plan.par(3);
                    let mut x = match sk {
                        // the first instance is loud, what is taken from it hears nothing at first
                        11 if k > 0 && t.n < 10 + hash2(plan.par(2) as u64, 31) % 300 => 0.0,
                        11 => signal(2, plan.par(2), t.n),
                        // bursts in silence
                        12 => signal(8, plan.par(2), t.n),
                        _ => signal(sk, plan.par(2), t.n) * if sk == 9 { 0.5 } else { 1.0 },
                    };
                    if plan.par(3) == 10 && hash2(plan.par(2) as u64, t.n) % 40 == 0 {
                        x = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX][hash2(plan.par(2) as u64, t.n + 1) as usize % 4];
                        c.probe("input_no_number");
                    }
                    let y = t.o.next(x);
                    let e = t.twin.next(x);
                    c.out(y);
                    if e.is_finite() {
                        t.mag = t.mag.max((e.abs() as f64).min(1e3));
                    }
                    if modifier && x.is_finite() {
                        t.mag = t.mag.max((x.abs() as f64).min(1e3));
                    }
                    let alike = |y: f32, e: f64, mag: f64| if modifier { near(y, e, mag) } else { close(y, e, mag) };
                    if !e.is_finite() {
                        c.probe("overflowed");
                    }
                    ensure!(
                        (e.is_nan() && y.is_nan()) || y == e || (e.is_finite() && alike(y, e as f64, t.mag)),
                        "not_as_new", "{} instance {} sample {}: {} where a newly built one with its settings and history gives {}", name, k, t.n, y, e
                    );
                    t.n += 1;
                }
                ran_after |= cloned;
            }
            1 => {
                let t = &mut all[i];
                t.set.poke(&mut t.o, s.arg(1), s.arg(2));
                t.tset.poke(&mut t.twin, s.arg(1), s.arg(2));
                c.probe("setting_changed");
            }
            2 => {
                if all.len() < 6 {
                    let before = os::live();
                    let twin = all[i].set.fresh();
                    let size = os::live().saturating_sub(before);
                    os::mark();
                    os::limit(size * 8 + (16 << 20));
                    let b = os::live();
                    let o = all[i].o.copy();
                    os::unlimit();
                    let took = os::peak().saturating_sub(b);
                    ensure!(took <= 4 * size + 4096, "clone_memory", "cloning a {} took {} bytes where a new one takes {}", name, took, size);
                    let set = all[i].set.clone();
                    c.probe(if all[i].n > 0 { "cloned_in_use" } else { "cloned_unused" });
                    all.push(Inst { o, twin, tset: set.clone(), set, n: 0, mag: 0.0 });
                    cloned = true;
                }
            }
            3 => {
                if all.len() > 1 {
                    c.probe(if i == 0 { "original_dropped" } else { "clone_dropped" });
                    all.remove(i);
                }
            }
            _ => now = i,
        }
        for (k, t) in all.iter().enumerate() {
            let (a, b) = (t.o.read(), t.twin.read());
            ensure!(
                a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + b.abs())),
                "settings", "{} instance {} reads {:?} where its settings are {:?}", name, k, a, b
            );
        }
    }
    c.nontrivial = cloned && ran_after;
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    params: &["ent", "kind", "seed", "input", "large"],
    ops: &[("run", &["n"]), ("set", &["instance", "which", "value"]), ("clone", &["instance"]), ("drop", &["instance"]), ("serve", &["instance"])],
    gen: c23_gen,
    run: c23_run,
    quick: 1_000_000,
    thorough: 24_000_000,
    rule: "at least one clone was taken and samples were processed afterwards",
    oracle: "every instance, clone or original, beside a twin newly built with its settings and given its history; allocation budget of the clone",
    real: &["every generator except Noise (C11), every modifier, MonoResampler, MonoWav"],
    stub: &["control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "sine", "sawtooth", "square", "triangle", "resampler", "clip", "adsr", "lowpass", "highpass", "bandpass", "envelope", "delay", "echo", "generic",
        "gain", "passthrough", "zero", "setting_changed", "cloned_in_use", "cloned_unused", "original_dropped", "clone_dropped",
        "overflowed", "input_no_number", "large_instance",
    ],
};

// ---- C24 --------------------------------------------------------------------------------------------------------

/// Anything that makes sound, with its position in its own input signal.
enum Dev {
    Obj { o: Obj, set: Set, n: u64 },
    Sound { s: Box<dyn Sound>, n: u64 },
    Mono(StandardChannel<Mono>),
    Stereo(StandardChannel<Stereo>),
}

fn fill_channel<SF: Speakers>(seed: u64) -> StandardChannel<SF> {
    let mut ch = StandardChannel::<SF>::new(0.4);
    ch.set_process_time(Duration::from_nanos(((5 + hash2(seed, 4) % 60) * 1_000_000_000) / 48_000 + 10));
    for k in 0..2 + hash2(seed, 5) % 5 {
        let mut a: Arc<dyn Sound> = Arc::from(build_sound((hash2(seed, 40 + k) % 2) as i64, 3, hash2(seed, 60 + k) as i64, 0.7, 0.3).0);
        ch.add_sound(&mut a);
    }
    ch
}

impl Dev {
    fn new(kind: i64, seed: i64) -> Dev {
        Dev::relative(kind, seed, 0)
    }
    fn relative(kind: i64, seed: i64, how: i64) -> Dev {
        match kind.rem_euclid(KINDS + 5) {
            k if k < KINDS => {
                let set = Set::relative(k, seed, how);
                Dev::Obj { o: set.fresh(), set, n: 0 }
            }
            17 => Dev::Sound { s: build_sound(0, 4, seed, 0.8, 0.7).0, n: 0 },
            18 => Dev::Sound { s: build_sound(1, 6, seed, 0.8, 0.7).0, n: 0 },
            21 => Dev::Sound { s: build_sound(2, 6, seed, 0.8, 0.7).0, n: 0 },
            19 => Dev::Mono(fill_channel(seed as u64)),
            _ => Dev::Stereo(fill_channel(seed as u64)),
        }
    }
    fn run(&mut self, seed: i64, count: i64, out: &mut Vec<u32>) {
        let count = count.clamp(0, 20_000);
        match self {
            Dev::Obj { o, n, .. } => {
                for _ in 0..count {
                    out.push(o.next(signal(8, seed, *n)).to_bits());
                    *n += 1;
                }
            }
            Dev::Sound { s, n } => {
                for _ in 0..count {
                    out.push(s.process(signal(2, seed, *n)).to_bits());
                    *n += 1;
                }
            }
            Dev::Mono(c) => {
                for _ in 0..1 + count / 32 {
                    c.process();
                    out.extend(c.get_output().iter().flat_map(|y| y.speakers()).map(f32::to_bits));
                }
            }
            Dev::Stereo(c) => {
                for _ in 0..1 + count / 32 {
                    c.process();
                    out.extend(c.get_output().iter().flat_map(|y| y.speakers()).map(f32::to_bits));
                }
            }
        }
    }
    pub(super) fn poke(&mut self, v: i64) {
        match self {
            Dev::Obj { o, set, .. } => set.poke(o, v.rem_euclid(5), v),
            Dev::Sound { s, .. } => {
                if v % 2 == 0 {
                    s.toggle_mute()
                } else {
                    s.toggle_pause()
                }
            }
            Dev::Mono(c) => c.set_gain(milli(v.rem_euclid(2000)) / 2.0),
            Dev::Stereo(c) => c.set_gain(milli(v.rem_euclid(2000)) / 2.0),
        }
    }
}

/// Kind, seed and relation of instance i of a plan; it lives on thread i mod threads.
fn dev_kind(plan: &Plan, i: i64) -> (i64, i64, i64) {
    let h = hash2(plan.par(3) as u64, i as u64);
    // a swarm choice: some plans put several instances of one kind side by side, some of them relatives of each other
    let k = if plan.par(4) >= 0 && h % 4 != 0 { plan.par(4) } else { (h >> 8) as i64 % (KINDS + 5) };
    let family = plan.par(5) != 0 && (h >> 50) % 4 != 0;
    let seed = if family { hash2(plan.par(3) as u64, 1000) } else { hash2(h, 7) };
    (k, (seed >> 16) as i64, if family { (h >> 20) as i64 & 0xFFFF } else { 0 })
}

fn c24_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let threads = r.range(1, 4);
    let devs = r.range(2, 8);
    // now and then instances of one kind share one thread for so long that whatever is counted by the thread turns over
    let marathon = r.chance(if thorough { 0.05 } else { 0.03 });
    let (threads, devs) = if marathon { (1, r.range(2, 3)) } else { (threads, devs) };
    let total = if marathon { r.logu(70_000, 400_000) } else { r.logu(20, if thorough { 20_000 } else { 3000 }) };
    let mean = if marathon { 8_000.0 } else { r.logu(1, 300) as f64 };
    let mut steps: Vec<Step> = vec![];
    let mut done = 0;
    while done < total && steps.len() < 600 {
        let n = r.gap(mean).min(20_000);
        steps.push(st(0, &[r.range(0, devs - 1), n]));
        done += n;
        if r.chance(0.1) {
            let v = if r.chance(0.5) { r.pick(&[440_000, 440_001, 1_000_000, 1_000_500, 2_345]) } else { r.logu(1_000, 23_999_000) };
            steps.push(st(1, &[r.range(0, devs - 1), v]));
        }
        if r.chance(0.02) {
            steps.push(st(2, &[r.range(0, devs - 1)]));
        }
    }
    Plan { p: vec![ent, threads, devs, r.seed(), if marathon || r.chance(0.6) { r.range(0, KINDS + 4) } else { -1 }, r.chance(0.5) as i64], steps }
}

type Reply = Result<Vec<u32>, String>;

/// A simulated thread that executes its instances' steps when it is given the baton.
fn stage(ent: u64, plan: &Plan) -> (mpsc::Sender<Option<(i64, Step)>>, mpsc::Receiver<Reply>, std::thread::JoinHandle<()>) {
    let (tx, rx) = mpsc::channel::<Option<(i64, Step)>>();
    let (rtx, rrx) = mpsc::channel::<Reply>();
    let plan = plan.clone();
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            quiet_thread();
            os::enter_sim(ent, false);
            let mut devs: HashMap<i64, Dev> = HashMap::new();
            while let Ok(Some((i, s))) = rx.recv() {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (kind, seed, how) = dev_kind(&plan, i);
                    let mut out = vec![];
                    let d = devs.entry(i).or_insert_with(|| Dev::relative(kind, seed, how));
                    match s.op {
                        0 => d.run(seed, s.arg(1), &mut out),
                        1 => d.poke(s.arg(1)),
                        _ => {
                            // given up and made anew
                            devs.remove(&i);
                        }
                    }
                    out
                }));
                let r = r.map_err(|_| match take_panic() {
                    Some((true, m)) => format!("harness: {}", m),
                    Some((false, m)) => m,
                    None => "panic".into(),
                });
                if rtx.send(r).is_err() {
                    return;
                }
            }
        })
        .expect("spawn");
    (tx, rrx, h)
}

fn died(m: String) -> Fail {
    match m.strip_prefix("harness: ") {
        Some(m) => Fail { class: "harness".into(), msg: m.to_string() },
        None => Fail { class: "panic".into(), msg: format!("panicked: {}", m) },
    }
}

fn c24_run(plan: &Plan, c: &mut Ctx) -> Res {
    let threads = plan.par(1).clamp(1, 6);
    let devs = plan.par(2).clamp(1, 12);
    let ent = plan.par(0) as u64;
    let mut side: Vec<Vec<u32>> = vec![vec![]; devs as usize];
    let mut last = -1;
    {
        let stages: Vec<_> = (0..threads).map(|t| stage(hash2(ent, t as u64), plan)).collect();
        let mut res: Res = Ok(());
        for s in &plan.steps {
            let i = s.arg(0).rem_euclid(devs);
            let t = (i % threads) as usize;
            if last != -1 && last != t as i64 {
                c.fault("preempted_to_another_thread");
            } else if last != -1 {
                c.fault("preempted_on_the_same_thread");
            }
            last = t as i64;
            if stages[t].0.send(Some((i, s.clone()))).is_err() {
                crate::fail!("harness", "stage is gone");
            }
            match stages[t].1.recv() {
                Ok(Ok(v)) => side[i as usize].extend(v),
                Ok(Err(m)) => {
                    res = Err(died(m));
                    break;
                }
                Err(_) => crate::fail!("harness", "stage is gone"),
            }
        }
        for (tx, _, h) in stages {
            let _ = tx.send(None);
            let _ = h.join();
        }
        res?;
    }
    if threads > 1 {
        c.probe("several_threads");
    }
    if side.iter().map(Vec::len).sum::<usize>() > 65_536 {
        c.probe("more_than_65536_samples");
    }
    let mut kinds = vec![];
    for i in 0..devs {
        let (kind, _, how) = dev_kind(plan, i);
        let own: Vec<&Step> = plan.steps.iter().filter(|s| s.arg(0).rem_euclid(devs) == i).collect();
        if own.is_empty() {
            continue;
        }
        let (tx, rx, h) = stage(hash2(ent, 1000 + i as u64), plan);
        let mut alone = vec![];
        let mut res: Res = Ok(());
        for s in own {
            let _ = tx.send(Some((i, s.clone())));
            match rx.recv() {
                Ok(Ok(v)) => alone.extend(v),
                Ok(Err(m)) => {
                    res = Err(died(m));
                    break;
                }
                Err(_) => crate::fail!("harness", "stage is gone"),
            }
        }
        let _ = tx.send(None);
        let _ = h.join();
        res?;
        let name = match kind.rem_euclid(KINDS + 5) {
            k if k < KINDS => NAMES[k as usize],
            17 => "simple sound",
            18 | 21 => "graph sound",
            19 => "mono channel",
            _ => "stereo channel",
        };
        if kinds.contains(&kind) {
            c.probe("two_of_a_kind");
            if how % 8 == 2 || how % 8 == 1 {
                c.probe("almost_equal_settings");
            }
        }
        kinds.push(kind);
        if kind >= KINDS {
            c.probe(if kind < 19 || kind == 21 { "sounds" } else { "channels" });
        } else {
            c.probe("generators_and_modifiers");
        }
        let got = &side[i as usize];
        ensure!(got.len() == alone.len(), "interference", "{} {} delivered {} samples beside the others and {} alone", name, i, got.len(), alone.len());
        for (k, (a, b)) in got.iter().zip(&alone).enumerate() {
            ensure!(
                a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()),
                "interference", "{} {} sample {}: {} beside the others, {} alone", name, i, k, f32::from_bits(*a), f32::from_bits(*b)
            );
            c.out(f32::from_bits(*a));
        }
    }
    c.nontrivial = kinds.len() > 1;
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    params: &["ent", "threads", "instances", "seed", "kind", "family"],
    ops: &[("run", &["instance", "n"]), ("poke", &["instance", "value"]), ("renew", &["instance"])],
    gen: c24_gen,
    run: c24_run,
    quick: 31_000,
    thorough: 780_000,
    rule: "at least two instances were used",
    oracle: "bitwise comparison of every instance with a solo run of its own calls on a thread of its own",
    real: &["all generators but Noise, all modifiers, resampler, clips, SimpleSound, ComplexSound, StandardChannel", "operating system threads, one running at a time"],
    stub: &["thread scheduling (the schedule passes a baton)", "operating system entropy, different for every thread and run"],
    faults: &["preempted_to_another_thread", "preempted_on_the_same_thread"],
    probes: &["several_threads", "two_of_a_kind", "almost_equal_settings", "generators_and_modifiers", "sounds", "channels"],
};

// ---- C25 --------------------------------------------------------------------------------------------------------

fn c25_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = r.logu(2, if thorough { 200 } else { 25 });
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let add = |r: &mut Rng| st(1, &[r.below(2) as i64, r.range(0, 6), r.seed(), r.below(5) as i64]);
    let mut steps: Vec<Step> = (0..r.range(1, 10)).map(|_| add(r)).collect();
    // a graph of blocks side by side
    let flat = r.chance(0.25);
    for _ in 0..if flat { r.range(2, 8) } else { 0 } {
        steps.push(st(5, &[5, 0, 0, r.seed()]));
    }
    let tasks: Vec<Task> = vec![
        task(mean, move |r| add(r)),
        task(mean * 2.0, move |r| st(2, &[r.below(2) as i64, r.range(0, 12)])),
        task(mean, move |r| st(3, &[r.below(2) as i64, r.range(-1500, 1500)])),
        task(mean * 2.0, move |r| st(4, &[r.below(2) as i64, r.logu(20_000, 4_000_000)])),
        // editing the graph that plays beside the channels
        task(mean / 2.0, move |r| st(5, &[if flat { 5 } else { r.below(6) as i64 }, r.range(0, 12), r.range(0, 12), r.seed()])),
    ];
    steps.extend(host(r, total, tasks, &net, 0, &[1, 1, 2, 3], if thorough { 150 } else { 30 }));
    Plan { p: vec![ent, r.seed(), r.seed(), r.below(2) as i64], steps }
}

/// A sound that plays a clip loaded from a stream; `other` decides how the stream is delivered.
fn clip_sound(seed: i64, looped: bool, other: Option<u64>) -> Arc<dyn Sound> {
    let n = 2 + hash2(seed as u64, 1) % 300;
    let track = (0..n).map(|i| dyadic(seed as u64, i)).collect();
    let mut file = vec![];
    let _ = bae_rs::utils::write_wav(vec![track], [8, 16, 24][(hash2(seed as u64, 2) % 3) as usize], &mut file, true);
    let script = match other {
        Some(o) => (0..40).map(|k| crate::io::act(1 + (hash2(o, k) % 2) as i64, 1 + (hash2(o, 100 + k) % 50) as i64)).collect(),
        None => vec![],
    };
    let mut src = crate::io::SimSource::new(file, script, if other.is_some() { 3 } else { 0 }, None);
    let mut w = MonoWav::from_source(&mut src);
    w.get_mut().set_playback_speed(0.25 + (hash2(seed as u64, 3) % 200) as f64 / 100.0);
    let b: BlockSP = if looped {
        let t = (0..n).map(|i| dyadic(seed as u64, i).into()).collect::<Vec<Mono>>();
        Arc::new(StandardBlock::from_generator(Looped(MonoResampler::new(t, 32_000.0, 1, n as usize))))
    } else {
        Arc::new(StandardBlock::from_generator(w))
    };
    Arc::new(SimpleSound::new(1.0, 0.5, b))
}

struct Looped(MonoResampler);
impl Generator for Looped {
    fn process(&mut self) -> f32 {
        self.0.process()
    }
}

/// Leaves free places of the sizes blocks and sounds need in no particular order, so that what is allocated next lies
/// elsewhere and in another order than before.
fn shuffle_heap(seed: u64) {
    let mut blocks: Vec<Option<BlockSP>> = (0..60).map(|_| Some(Arc::new(StandardBlock::from_modifier(bae_rs::modifiers::Gain::new(0.5))) as BlockSP)).collect();
    let mut sounds: Vec<Option<Arc<dyn Sound>>> = (0..20)
        .map(|i| {
            let b: Arc<dyn Sound> = if i % 2 == 0 {
                Arc::new(ComplexSound::new(1.0, 1.0))
            } else {
                Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_modifier(bae_rs::modifiers::Gain::new(0.5)))))
            };
            Some(b)
        })
        .collect();
    for k in 0..400 {
        blocks[(hash2(seed, k) % 60) as usize] = None;
        sounds[(hash2(seed, 1000 + k) % 20) as usize] = None;
    }
}

/// Render the session of a plan. With `other`, unrelated work is done in between.
fn render(plan: &Plan, other: Option<u64>) -> Vec<u32> {
    let mut out = vec![];
    if let Some(o) = other {
        shuffle_heap(o);
    }
    let mut noise: Vec<Noise> = vec![];
    let mut maps: Vec<HashMap<u64, u64>> = vec![];
    let mut extra: Vec<Dev> = vec![];
    let mut a = StandardChannel::<Mono>::new(0.5);
    let mut b = StandardChannel::<Stereo>::new(0.5);
    let mut ids: [Vec<usize>; 2] = [vec![], vec![]];
    let mut left = 60_000usize;
    let mut g = ComplexSound::new(0.5, 0.5);
    let mut nodes = vec![g.get_input_gain(), g.get_output_gain()];
    let mut clock = 0u64;
    a.set_process_time(Duration::from_micros(700));
    b.set_process_time(Duration::from_micros(700));
    for (k, s) in plan.steps.iter().enumerate() {
        if let Some(o) = other {
            let h = hash2(o, k as u64);
            match h % 6 {
                0 => noise.push(Noise::new()),
                1 => maps.push((0..h % 20).map(|i| (i, i)).collect()),
                2 => extra.push(Dev::new((h >> 8) as i64 % (KINDS + 5), (h >> 16) as i64)),
                3 => os::advance_clock(h % 1_000_000_000_000),
                4 => drop(extra.pop()),
                _ => {}
            }
            for n in &mut noise {
                n.process();
            }
            let mut sink = vec![];
            for d in &mut extra {
                d.run(5, (h >> 40) as i64 % 20, &mut sink);
            }
        }
        if s.tag == LOST {
            continue;
        }
        let w = s.arg(0).rem_euclid(2) as usize;
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 1000) {
                    if left == 0 {
                        break;
                    }
                    a.process();
                    b.process();
                    out.extend(a.get_output().iter().flat_map(|y| y.speakers()).map(f32::to_bits));
                    out.extend(b.get_output().iter().flat_map(|y| y.speakers()).map(f32::to_bits));
                    left = left.saturating_sub(a.get_output().len() + b.get_output().len() + 1);
                    for _ in 0..20 {
                        clock += 1;
                        out.push(g.process(dyadic(plan.par(0) as u64, clock)).to_bits());
                    }
                }
            }
            1 => {
                if ids[w].len() < 12 {
                    let mut x: Arc<dyn Sound> = match s.arg(3).rem_euclid(5) {
                        k if k < 3 => Arc::from(build_sound(k, s.arg(1).clamp(0, 6), s.arg(2), 0.9, 0.3).0),
                        k => clip_sound(s.arg(2), k == 3, other),
                    };
                    if w == 0 {
                        a.add_sound(&mut x);
                    } else {
                        b.add_sound(&mut x);
                    }
                    ids[w].push(x.get_id().unwrap_or(0));
                }
            }
            2 => {
                if !ids[w].is_empty() {
                    let i = s.arg(1).rem_euclid(ids[w].len() as i64) as usize;
                    let id = ids[w].remove(i);
                    if w == 0 {
                        a.remove_sound(id);
                    } else {
                        b.remove_sound(id);
                    }
                }
            }
            3 => {
                if w == 0 {
                    a.set_gain(milli(s.arg(1)));
                } else {
                    b.set_gain(milli(s.arg(1)));
                }
            }
            4 => {
                let d = Duration::from_nanos(s.arg(1).clamp(0, 10_000_000) as u64);
                if w == 0 {
                    a.set_process_time(d);
                } else {
                    b.set_process_time(d);
                }
            }
            _ => {
                let at = |k: usize| nodes[s.arg(k).rem_euclid(nodes.len() as i64) as usize];
                match s.arg(0).rem_euclid(6) {
                    k @ (0 | 5) if nodes.len() < 14 => {
                        // blocks quiet enough that no set of loops can grow
                        let q = Spec::from(&[s.arg(1), s.arg(2), 3, s.arg(3)]);
                        let n = std::rc::Rc::default();
                        // their outputs do not add up without rounding
                        let by = 0.2 + (hash2(s.arg(3) as u64, 4) % 1000) as f32 / 10_000.0;
                        let i: Inter = Arc::new(move |g, m| by * g + m / 32.0);
                        let b: BlockSP = Arc::new(StandardBlock::new(q.make_g(&n), q.make_m(&n), i));
                        let b = g.add_block(b);
                        nodes.push(b);
                        if k == 5 {
                            g.add_connection(nodes[0], b);
                            g.add_connection(b, nodes[1]);
                        }
                    }
                    0 | 1 | 2 | 5 => g.add_connection(at(1), at(2)),
                    3 => g.remove_connection(at(1), at(2)),
                    _ if s.arg(1) % 2 == 0 => g.toggle_pause(),
                    _ => g.toggle_mute(),
                }
            }
        }
    }
    out
}

fn c25_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let first = render(plan, None);
    for y in &first {
        c.out(f32::from_bits(*y));
    }
    c.nontrivial = first.iter().any(|y| f32::from_bits(*y) != 0.0);
    let mut others: Vec<(&str, Vec<u32>)> = vec![("a second time on the same thread", render(plan, None))];
    for (k, (what, other)) in [("on another thread with other entropy", None), ("on another thread with unrelated work in between", Some(plan.par(2) as u64))].into_iter().enumerate() {
        let p = plan.clone();
        let ent = hash2(plan.par(1) as u64, k as u64);
        let faulty = plan.par(3) != 0;
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                quiet_thread();
                os::enter_sim(ent, faulty);
                catch_unwind(AssertUnwindSafe(|| render(&p, other))).map_err(|_| match take_panic() {
                    Some((true, m)) => format!("harness: {}", m),
                    Some((false, m)) => m,
                    None => "panic".into(),
                })
            })
            .expect("spawn");
        c.fault("entropy_changed");
        if faulty {
            c.fault("faulty_entropy_supply");
        }
        c.fault(if k == 0 { "moved_to_another_thread" } else { "unrelated_work_interleaved" });
        match h.join() {
            Ok(Ok(v)) => others.push((what, v)),
            Ok(Err(m)) => return Err(died(m)),
            Err(_) => crate::fail!("harness", "render thread died"),
        }
    }
    for (what, v) in others {
        ensure!(v.len() == first.len(), "not_reproducible", "{}: {} samples instead of {}", what, v.len(), first.len());
        for (i, (x, y)) in first.iter().zip(&v).enumerate() {
            ensure!(
                x == y || (f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan()),
                "not_reproducible", "{}: value {} is {:e} instead of {:e}", what, i, f32::from_bits(*y), f32::from_bits(*x)
            );
        }
    }
    for s in &plan.steps {
        match s.op {
            1 => c.probe("sound_added"),
            2 => c.probe("sound_removed"),
            3 => c.probe("gain_changed"),
            4 => c.probe("time_changed"),
            5 => c.probe("graph_edited"),
            _ => {}
        }
    }
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    params: &["ent", "ent2", "other", "faulty2"],
    ops: &[
        ("process", &["calls"]),
        ("add", &["channel", "size", "seed", "kind"]),
        ("remove", &["channel", "which"]),
        ("set_gain", &["channel", "milli"]),
        ("set_time", &["channel", "ns"]),
        ("edit_graph", &["edit", "from", "to", "seed"]),
    ],
    gen: c25_gen,
    run: c25_run,
    quick: 44_000,
    thorough: 1_000_000,
    rule: "the session is audible",
    oracle: "bitwise comparison of four renderings in one process, and of the first cases between processes",
    real: &["StandardChannel<Mono>", "StandardChannel<Stereo>", "SimpleSound, ComplexSound, StandardBlock", "all generators but Noise and all modifiers as parts", "clips loaded through read_wav"],
    stub: &["operating system entropy and clock", "the streams clips are loaded from", "control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost", "entropy_changed", "faulty_entropy_supply", "moved_to_another_thread", "unrelated_work_interleaved"],
    probes: &["sound_added", "sound_removed", "gain_changed", "time_changed", "graph_edited"],
};
