//! C21: what a channel writes into its buffer. C22: registration of sounds with a channel.

use super::parts::*;
use super::sounds::build_sound;
use crate::plan::{st, Plan, Step, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task, Task};
use crate::{ensure, Ctx, Prop, Res};
use bae_rs::channels::*;
use bae_rs::sample_format::{Mono, SampleFormat, Stereo};
use bae_rs::sounds::*;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

/// The speakers of a sample format and their shares of a single sample.
pub trait Speakers: SampleFormat {
    const SHARE: &'static [f64];
    fn speakers(&self) -> Vec<f32>;
}

impl Speakers for Mono {
    const SHARE: &'static [f64] = &[1.0];
    fn speakers(&self) -> Vec<f32> {
        vec![self.mono]
    }
}

impl Speakers for Stereo {
    const SHARE: &'static [f64] = &[std::f64::consts::FRAC_1_SQRT_2, std::f64::consts::FRAC_1_SQRT_2];
    fn speakers(&self) -> Vec<f32> {
        vec![self.left, self.right]
    }
}

/// A user's own sample format with six speakers of different shares.
#[derive(Clone, Copy, Default)]
pub struct Surround([f32; 6]);

const SURROUND: &[f64] = &[0.5, 0.25, -1.0, 2.0, 0.0, 0.75];

impl Surround {
    fn each(self, f: impl Fn(f32) -> f32) -> Surround {
        Surround(self.0.map(f))
    }
    fn both(mut self, o: Surround, f: impl Fn(f32, f32) -> f32) -> Surround {
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a = f(*a, b);
        }
        self
    }
}

macro_rules! surround_op {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $op:tt) => {
        impl std::ops::$tr<Surround> for Surround {
            type Output = Surround;
            fn $m(self, o: Surround) -> Surround {
                self.both(o, |a, b| a $op b)
            }
        }
        impl std::ops::$atr<Surround> for Surround {
            fn $am(&mut self, o: Surround) {
                *self = self.both(o, |a, b| a $op b);
            }
        }
    };
}
surround_op!(Add, add, AddAssign, add_assign, +);
surround_op!(Sub, sub, SubAssign, sub_assign, -);
surround_op!(Mul, mul, MulAssign, mul_assign, *);

macro_rules! surround_scale {
    ($($t:ty),*) => {$(
        impl std::ops::Mul<$t> for Surround {
            type Output = Surround;
            fn mul(self, g: $t) -> Surround {
                self.each(|a| a * g as f32)
            }
        }
        impl std::ops::MulAssign<$t> for Surround {
            fn mul_assign(&mut self, g: $t) {
                *self = self.each(|a| a * g as f32);
            }
        }
    )*};
}
surround_scale!(f32, f64);

macro_rules! surround_vec {
    ($($t:ty),*) => {$(
        impl std::convert::TryFrom<Vec<$t>> for Surround {
            type Error = String;
            fn try_from(v: Vec<$t>) -> Result<Self, String> {
                match <[$t; 6]>::try_from(v) {
                    Ok(v) => Ok(Surround(v.map(|x| x as f32))),
                    Err(v) => Err(format!("{} values", v.len())),
                }
            }
        }
        impl From<Surround> for Vec<$t> {
            fn from(s: Surround) -> Self {
                s.0.iter().map(|x| *x as $t).collect()
            }
        }
    )*};
}
surround_vec!(u8, i16, i32);

impl std::ops::Neg for Surround {
    type Output = Surround;
    fn neg(self) -> Surround {
        self.each(|a| -a)
    }
}

impl From<f32> for Surround {
    fn from(x: f32) -> Self {
        Self::from_sample(x)
    }
}

impl From<Surround> for f32 {
    fn from(s: Surround) -> f32 {
        s.into_sample()
    }
}

impl SampleFormat for Surround {
    fn from_sample(x: f32) -> Self {
        let mut s = Surround::default();
        for (a, g) in s.0.iter_mut().zip(SURROUND) {
            *a = x * *g as f32;
        }
        s
    }
    fn into_sample(self) -> f32 {
        self.0.iter().sum()
    }
    fn num_samples() -> usize {
        6
    }
}

impl Speakers for Surround {
    const SHARE: &'static [f64] = SURROUND;
    fn speakers(&self) -> Vec<f32> {
        self.0.to_vec()
    }
}

/// Does a buffer of `len` samples hold `ns` nanoseconds, truncated? Rounding of the conversion may go either way at a
/// whole number of samples.
pub fn holds(len: usize, ns: u64) -> bool {
    let p = ns as u128 * 48_000;
    let whole = (p / 1_000_000_000) as usize;
    let rest = (p % 1_000_000_000) as u64;
    len == whole || (rest < 100 && len + 1 == whole) || (rest > 1_000_000_000 - 100 && len == whole + 1)
}

const MAX_NS: i64 = 8_000_000_000;

fn some_time(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => r.range(0, 20_833),
        2 => r.range(20_000, 22_000),
        3 => r.range(1, 30) * 1_000_000,
        4 => r.range(1, 500) * 1_000_000_000 / 48_000,
        5 => r.range(1, 500) * 1_000_000_000 / 48_000 + 1,
        6 => r.logu(1, 120_000_000),
        _ => r.logu(20_000, 3_000_000),
    }
}

// ---- C21 --------------------------------------------------------------------------------------------------------

fn c21_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    // seldom: buffers of seconds, or very many sounds
    let huge = r.chance(0.003);
    let crowd = r.chance(0.003);
    let total = r.logu(2, if huge || crowd { 10 } else if thorough { 400 } else { 40 });
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let loud = r.chance(0.05);
    let mut tasks: Vec<Task> = vec![
        task(mean, move |r| st(3, &[r.below(5) as i64, r.range(0, 3), r.seed(), r.below(8) as i64])),
        task(mean * 2.0, move |r| st(4, &[r.range(0, 12)])),
    ];
    if r.chance(0.8) {
        tasks.push(task(mean, move |r| st(1, &[if r.chance(0.2) { r.pick(&[0, 1000, -1000]) } else if loud { r.range(-200_000, 200_000) } else { gain_milli(r, 2000) }])));
    }
    let timed = r.chance(0.85);
    if timed {
        tasks.push(task(mean, move |r| st(2, &[some_time(r)])));
    }
    if r.chance(0.3) {
        tasks.push(task(mean * 2.0, move |r| st(5, &[r.range(0, 40)])));
    }
    let mut steps: Vec<Step> = vec![];
    for _ in 0..if crowd { r.logu(5, 300) } else { r.range(0, 4) } {
        steps.push(st(3, &[r.below(5) as i64, r.range(0, 3), r.seed(), r.below(8) as i64]));
        if r.chance(0.05) {
            steps.push(st(4, &[r.range(0, 12)]));
        }
    }
    if timed && r.chance(0.8) {
        steps.push(st(2, &[some_time(r).min(2_000_000)]));
    }
    if huge {
        steps.push(st(2, &[r.logu(120_000_000, MAX_NS)]));
        steps.push(st(0, &[1]));
        steps.push(st(2, &[some_time(r)]));
    } else if crowd {
        steps.push(st(2, &[r.logu(20_000, 1_000_000)]));
    }
    steps.extend(host(r, total, tasks, &net, 0, &[1, 1, 2, 3], if thorough { 200 } else { 40 }));
    Plan { p: vec![ent, r.below(3) as i64, if r.chance(0.2) { 1000 } else { gain_milli(r, 2000) }, level_log2(r), r.chance(0.03) as i64], steps }
}

/// What a registered sound should deliver.
enum Source {
    Log { seed: u64, n: Count, bad: Count, runs: u64, level: f32, odd: bool },
    Twin { twin: Box<dyn Sound>, calls: Count, tcalls: Count },
}

impl Source {
    fn next(&mut self) -> f64 {
        match self {
            Source::Log { seed, runs, level, odd, .. } => {
                *runs += 1;
                LogSound::sample(*seed, *runs, *level, *odd) as f64
            }
            Source::Twin { twin, .. } => twin.process(0.0) as f64,
        }
    }
    fn check(&self, id: usize) -> Res {
        match self {
            Source::Log { n, runs, bad, .. } => {
                ensure!(n.get() == *runs, "advance", "sound {} was run {} times for {} samples", id, n.get(), runs);
                ensure!(bad.get() == 0, "fed", "sound {} was fed a signal by its channel", id);
            }
            Source::Twin { calls, tcalls, .. } => {
                ensure!(calls.get() == tcalls.get(), "advance", "the parts of sound {} ran {} times instead of {}", id, calls.get(), tcalls.get())
            }
        }
        Ok(())
    }
}

/// A sound for a channel and its expected signal. `toggles`: bit 0 paused, bit 1 muted from the start (seldom).
fn voice(kind: i64, size: i64, seed: i64, toggles: i64, lv: f32, odd: bool) -> (Arc<dyn Sound>, Source) {
    let kind = kind.rem_euclid(5);
    if kind < 2 {
        let (n, bad) = (Count::default(), Count::default());
        let s = LogSound { seed: seed as u64, n: n.clone(), bad_input: bad.clone(), id: None, diary: Default::default(), quiet: 0, level: lv, odd };
        return (Arc::new(s), Source::Log { seed: seed as u64, n, bad, runs: 0, level: lv, odd });
    }
    let size = size.clamp(0, 6);
    let (mut s, calls) = build_sound(kind % 2, size, seed, 0.7, 0.6 * lv as f64);
    let (mut twin, tcalls) = build_sound(kind % 2, size, seed, 0.7, 0.6 * lv as f64);
    for x in [&mut s, &mut twin] {
        if toggles.rem_euclid(8) == 1 {
            x.toggle_pause();
        }
        if toggles.rem_euclid(8) == 2 {
            x.toggle_mute();
        }
    }
    (Arc::from(s), Source::Twin { twin, calls, tcalls })
}

fn c21_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    match plan.par(1).rem_euclid(3) {
        0 => {
            c.probe("mono");
            c21_mix::<Mono>(plan, c)
        }
        1 => {
            c.probe("stereo");
            c21_mix::<Stereo>(plan, c)
        }
        _ => {
            c.probe("own_format");
            c21_mix::<Surround>(plan, c)
        }
    }
}

fn c21_mix<SF: Speakers>(plan: &Plan, c: &mut Ctx) -> Res {
    let mut gain = milli(plan.par(2));
    let lv = level(plan.par(3));
    let odd = plan.par(4) != 0;
    if odd {
        c.probe("samples_that_are_no_number");
    }
    let mut ch = StandardChannel::<SF>::new(gain);
    let mut ns = 10_000_000u64;
    let mut voices: Vec<(usize, Source)> = vec![];
    let mut buffers = 0u64;
    let mut heard = false;
    let mut last_len = None;
    let mut left = 400_000usize;
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 10_000) {
                    if left == 0 {
                        break;
                    }
                    ch.process();
                    let out = ch.get_output();
                    ensure!(holds(out.len(), ns), "buffer_length", "buffer {} holds {} samples for {} ns", buffers, out.len(), ns);
                    left = left.saturating_sub(out.len().max(1));
                    if out.is_empty() {
                        c.probe("empty_buffer");
                    }
                    if last_len.is_some() && last_len != Some(out.len()) {
                        c.probe("buffer_resized_between_calls");
                    }
                    last_len = Some(out.len());
                    for (i, y) in out.iter().enumerate() {
                        let mut sum = 0f64;
                        let mut mag = 0f64;
                        for (_, v) in voices.iter_mut() {
                            let x = v.next();
                            sum += x;
                            mag += x.abs();
                        }
                        for (k, (y, share)) in y.speakers().iter().zip(SF::SHARE).enumerate() {
                            let want = sum * gain as f32 as f64 * share;
                            c.out(*y);
                            heard |= *y != 0.0;
                            ensure!(
                                if want.is_finite() { near(*y, want, mag * gain.abs()) } else { same(*y as f64, want, 0.0) },
                                "wrong_mix", "buffer {} sample {} speaker {}: {} where {} sounds at gain {} give {}", buffers, i, k, y, voices.len(), gain, want
                            );
                        }
                    }
                    for (id, v) in &voices {
                        v.check(*id)?;
                    }
                    buffers += 1;
                    match voices.len() {
                        0 => c.probe("mixed_nothing"),
                        1 => c.probe("mixed_one"),
                        2..=99 => c.probe("mixed_several"),
                        _ => c.probe("mixed_hundreds"),
                    }
                }
            }
            1 => {
                gain = milli(s.arg(0));
                ch.set_gain(gain);
                c.probe("gain_changed");
            }
            2 => {
                ns = s.arg(0).clamp(0, MAX_NS) as u64;
                if ns > 1_000_000_000 {
                    c.probe("buffer_of_seconds");
                }
                ch.set_process_time(Duration::from_nanos(ns));
                c.probe("time_changed");
            }
            3 => {
                if voices.len() < 300 {
                    let (mut a, v) = voice(s.arg(0), s.arg(1), s.arg(2), s.arg(3), lv, odd);
                    ch.add_sound(&mut a);
                    match a.get_id() {
                        Some(id) => voices.push((id, v)),
                        None => crate::fail!("not_registered", "a sound reports no identifier after it was added"),
                    }
                    c.probe(if buffers > 0 { "added_while_playing" } else { "added" });
                }
            }
            4 => {
                if !voices.is_empty() {
                    let i = s.arg(0).rem_euclid(voices.len() as i64) as usize;
                    let (id, _) = voices.remove(i);
                    ch.remove_sound(id);
                    c.probe(if buffers > 0 { "removed_while_playing" } else { "removed" });
                }
            }
            _ => {
                let id = s.arg(0).clamp(0, 1 << 40) as usize;
                if voices.iter().all(|v| v.0 != id) {
                    ch.remove_sound(id);
                    c.probe("absent_removed");
                }
            }
        }
    }
    c.nontrivial = heard;
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    params: &["ent", "format", "gain_milli", "level_log2", "odd"],
    ops: &[
        ("process", &["calls"]),
        ("set_gain", &["milli"]),
        ("set_time", &["ns"]),
        ("add", &["kind", "size", "seed", "toggles"]),
        ("remove", &["which"]),
        ("remove_absent", &["id"]),
    ],
    gen: c21_gen,
    run: c21_run,
    quick: 88_000,
    thorough: 2_100_000,
    rule: "at least one buffer was not silent",
    oracle: "sum of twin sounds in f64, exact buffer length, run counts of every sound",
    real: &["StandardChannel<Mono>", "StandardChannel<Stereo>", "StandardChannel over a user's own six-speaker format", "SimpleSound and ComplexSound with real parts as members"],
    stub: &["logging sounds as further members", "control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "mono", "stereo", "own_format", "buffer_of_seconds", "mixed_hundreds", "mixed_nothing", "mixed_one", "mixed_several", "empty_buffer", "buffer_resized_between_calls", "gain_changed", "time_changed",
        "added", "added_while_playing", "removed", "removed_while_playing", "absent_removed", "samples_that_are_no_number",
    ],
};

// ---- C22 --------------------------------------------------------------------------------------------------------

fn c22_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = r.logu(3, if thorough { 600 } else { 80 });
    let net = swarm_net(r);
    let mean = (total as f64 / r.logu(2, 40) as f64).max(0.3);
    let hold = r.f();
    let crowd = if r.chance(0.05) { 0.2 } else { 0.0 };
    let churn = if r.chance(0.03) { 0.3 } else { 0.0 };
    let real = if r.chance(0.4) { 0.3 } else { 0.0 };
    let silent = if r.chance(0.3) { 0.4 } else { 0.0 };
    let tasks: Vec<Task> = vec![
        task(mean, move |r| st(1, &[r.seed(), r.chance(hold) as i64, if r.chance(crowd) { r.logu(2, 300) } else { 1 }, if r.chance(silent) { r.range(1, 4) } else { 0 }, if r.chance(real) { r.range(1, 3) } else { 0 }])),
        task(mean, move |r| st(2, &[r.range(0, 1 << 20)])),
        task(mean * 2.0, move |r| st(3, &[r.range(0, 12)])),
        task(mean * 3.0, move |r| st(4, &[if r.chance(0.7) { r.range(0, 60) } else { r.pick(&[i64::MAX, -1, 1 << 32, 1 << 20]) }, if r.chance(0.3) { r.pick(&[63, 32, 31, 16, 8, 4]) } else { 0 }])),
        task(mean, move |r| st(5, &[r.range(0, 12)])),
        task(mean * 2.0, move |r| st(6, &[r.range(0, 12), r.chance(hold) as i64])),
        task(mean * 4.0, move |r| st(7, &[if r.chance(churn) { r.logu(100, 2500) } else { r.range(1, 5) }, if r.chance(silent) { r.range(1, 4) } else { 0 }])),
    ];
    let mut steps = host(r, total, tasks, &net, 0, &[1, 1, 2], if thorough { 300 } else { 80 });
    if r.chance(if thorough { 0.0005 } else { 0.0002 }) {
        // a channel that has been in use for a long time
        let at = r.below(steps.len() as u64 + 1) as usize;
        steps.insert(at, st(7, &[r.range(60_000, 70_000)]));
    }
    Plan { p: vec![ent, r.below(2) as i64, gain_milli(r, 2000)], steps }
}

/// One of the library's sounds, with a record of what it is told.
struct Watched {
    inner: Box<dyn Sound>,
    n: Count,
    diary: Diary,
}

impl Sound for Watched {
    fn toggle_pause(&mut self) {
        self.inner.toggle_pause();
    }
    fn is_paused(&self) -> bool {
        self.inner.is_paused()
    }
    fn toggle_mute(&mut self) {
        self.inner.toggle_mute();
    }
    fn is_muted(&self) -> bool {
        self.inner.is_muted()
    }
    fn process(&mut self, x: f32) -> f32 {
        if !self.inner.is_paused() {
            self.n.set(self.n.get() + 1);
        }
        self.inner.process(x)
    }
    fn register(&mut self, id: usize) {
        self.inner.register(id);
        self.diary.borrow_mut().push(Heard::Registered(id));
    }
    fn unregister(&mut self) {
        self.inner.unregister();
        // a sound that still reports an identifier has not been unregistered
        self.diary.borrow_mut().push(if self.inner.get_id().is_none() { Heard::Unregistered } else { Heard::Toggled });
    }
    fn get_id(&self) -> Option<usize> {
        self.inner.get_id()
    }
}

impl Drop for Watched {
    fn drop(&mut self) {
        self.diary.borrow_mut().push(Heard::Dropped);
    }
}

struct Member {
    seed: u64,
    n: Count,
    /// what one of the library's sounds should deliver
    twin: Option<Box<dyn Sound>>,
    /// paused or muted
    quiet: i64,
    runs: u64,
    diary: Diary,
    /// what the diary must contain
    book: Vec<Heard>,
    id: Option<usize>,
    /// identifiers it had before
    past: Vec<usize>,
    handle: Option<Arc<dyn Sound>>,
}

fn c22_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    if plan.par(1) == 0 {
        c22_reg::<Mono>(plan, c)
    } else {
        c22_reg::<Stereo>(plan, c)
    }
}

fn c22_reg<SF: Speakers>(plan: &Plan, c: &mut Ctx) -> Res {
    let gain = milli(plan.par(2));
    let mut ch = StandardChannel::<SF>::new(gain);
    ch.set_process_time(Duration::from_micros(150));
    let mut all: Vec<Member> = vec![];
    let mut ids: BTreeSet<usize> = BTreeSet::new();
    let (mut removed, mut played) = (false, false);
    let mut calls = 0u64;
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        let members: Vec<usize> = (0..all.len()).filter(|i| all[*i].id.is_some()).collect();
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 2000) {
                    // whoever still holds a registered sound lets go first (held sounds are another property)
                    for m in all.iter_mut() {
                        if m.id.is_some() {
                            m.handle = None;
                        }
                    }
                    ch.process();
                    let out = ch.get_output();
                    ensure!(holds(out.len(), 150_000), "buffer_length", "{} samples in 150 microseconds", out.len());
                    for (i, y) in out.iter().enumerate() {
                        let mut sum = 0f64;
                        let mut mag = 0f64;
                        for m in all.iter_mut().filter(|m| m.id.is_some()) {
                            if m.quiet & 1 != 0 {
                                continue;
                            }
                            m.runs += 1;
                            if m.quiet & 2 != 0 {
                                // in silence
                                if let Some(t) = &mut m.twin {
                                    t.process(0.0);
                                }
                                continue;
                            }
                            let x = match &mut m.twin {
                                Some(t) => t.process(0.0) as f64,
                                None => LogSound::value(m.seed, m.runs),
                            };
                            sum += x;
                            mag += x.abs();
                        }
                        for (y, share) in y.speakers().iter().zip(SF::SHARE) {
                            let want = sum * gain as f32 as f64 * share;
                            c.out(*y);
                            ensure!(near(*y, want, mag * gain.abs()), "wrong_members", "call {} sample {}: {} where the registered sounds give {}", calls, i, y, want);
                        }
                    }
                    for m in &all {
                        ensure!(m.n.get() == m.runs, "advance", "call {}: the sound with identifier {:?} (earlier {:?}) ran {} times instead of {}", calls, m.id, m.past, m.n.get(), m.runs);
                    }
                    calls += 1;
                    played |= !members.is_empty();
                }
            }
            1 => {
                for k in 0..s.arg(2).clamp(1, 300) {
                    let live = all.iter().filter(|m| m.id.is_some()).count();
                    if (k == 0 && live >= 10 && s.arg(2) <= 1) || live >= 400 || all.len() >= 1000 {
                        break;
                    }
                    let seed = hash2(s.arg(0) as u64, k as u64);
                    let quiet = s.arg(3) & 3;
                    let (n, diary) = (Count::default(), Diary::default());
                    let mut twin = None;
                    let kind = s.arg(4).clamp(0, 2);
                    let mut a: Arc<dyn Sound> = if kind == 0 {
                        Arc::new(LogSound { seed, n: n.clone(), bad_input: Count::default(), id: None, diary: diary.clone(), quiet, level: 1.0, odd: false })
                    } else {
                        let (mut inner, _) = build_sound(kind - 1, (seed % 3) as i64, seed as i64, 0.8, 0.4);
                        twin = Some(build_sound(kind - 1, (seed % 3) as i64, seed as i64, 0.8, 0.4).0);
                        if quiet & 1 != 0 {
                            inner.toggle_pause();
                        }
                        if quiet & 2 != 0 {
                            inner.toggle_mute();
                        }
                        c.probe("real_sound");
                        Arc::new(Watched { inner, n: n.clone(), diary: diary.clone() })
                    };
                    ch.add_sound(&mut a);
                    if quiet != 0 {
                        c.probe("paused_or_muted");
                    }
                    let mut m = Member { seed, n, twin, quiet, runs: 0, diary, book: vec![], id: None, past: vec![], handle: None };
                    register(&mut m, &a, &mut ids)?;
                    m.handle = if s.arg(1) != 0 { Some(a) } else { None };
                    all.push(m);
                    c.probe("added");
                    if live >= 64 {
                        c.probe("crowded");
                    }
                }
            }
            2 => {
                if !members.is_empty() {
                    let i = members[s.arg(0).rem_euclid(members.len() as i64) as usize];
                    let id = all[i].id.unwrap();
                    ch.remove_sound(id);
                    removed = true;
                    let m = &mut all[i];
                    m.id = None;
                    m.past.push(id);
                    match &m.handle {
                        None => {
                            c.probe("removed");
                            m.book.push(Heard::Unregistered);
                            m.book.push(Heard::Dropped);
                        }
                        Some(h) => {
                            c.probe("removed_while_held");
                            ensure!(Arc::strong_count(h) == 1 && Arc::weak_count(h) == 0, "still_held", "after removal of {} the channel still holds the sound ({} handles)", id, Arc::strong_count(h));
                            // it cannot be told while someone else holds it
                            let told = m.diary.borrow().last() == Some(&Heard::Unregistered);
                            if told {
                                m.book.push(Heard::Unregistered);
                            }
                            ensure!(h.get_id() == if told { None } else { Some(id) }, "identity", "a removed sound reports {:?}", h.get_id());
                        }
                    }
                }
            }
            3 => {
                // a repeated or late removal
                let past: Vec<usize> = all.iter().flat_map(|m| m.past.clone()).collect();
                if !past.is_empty() {
                    let id = past[s.arg(0).rem_euclid(past.len() as i64) as usize];
                    ch.remove_sound(id);
                    c.probe("removed_again");
                }
            }
            4 => {
                let mut id = s.arg(0) as usize;
                let bit = s.arg(1).clamp(0, 63);
                if bit > 0 && !members.is_empty() {
                    // one that differs from a known identifier in one bit
                    id = all[members[id % members.len()]].id.unwrap() ^ 1 << bit;
                    c.probe("near_identifier");
                }
                if all.iter().all(|m| m.id != Some(id)) {
                    ch.remove_sound(id);
                    c.probe("unknown_removed");
                }
            }
            5 => {
                let held: Vec<usize> = (0..all.len()).filter(|i| all[*i].handle.is_some()).collect();
                if !held.is_empty() {
                    let m = &mut all[held[s.arg(0).rem_euclid(held.len() as i64) as usize]];
                    m.handle = None;
                    if m.id.is_none() {
                        m.book.push(Heard::Dropped);
                    }
                }
            }
            7 => {
                // sounds that come and go at once
                for k in 0..s.arg(0).clamp(0, 200_000) {
                    let diary = Diary::default();
                    let mut a: Arc<dyn Sound> = Arc::new(LogSound { seed: k as u64, n: Count::default(), bad_input: Count::default(), id: None, diary: diary.clone(), quiet: s.arg(1) & 3, level: 1.0, odd: false });
                    ch.add_sound(&mut a);
                    let id = match a.get_id() {
                        Some(i) => i,
                        None => crate::fail!("identity", "a sound reports no identifier after it was added"),
                    };
                    ensure!(ids.insert(id), "reused", "identifier {} was given a second time", id);
                    drop(a);
                    ch.remove_sound(id);
                    ensure!(*diary.borrow() == [Heard::Registered(id), Heard::Unregistered, Heard::Dropped], "told", "a sound that was added and removed at once was told {:?}", diary.borrow());
                }
                c.probe("churned");
                if s.arg(0) > 1000 {
                    c.probe("thousands_of_identifiers");
                }
            }
            _ => {
                let free: Vec<usize> = (0..all.len()).filter(|i| all[*i].handle.is_some() && all[*i].id.is_none()).collect();
                if !free.is_empty() && members.len() < 10 {
                    let m = &mut all[free[s.arg(0).rem_euclid(free.len() as i64) as usize]];
                    let mut a = m.handle.take().unwrap();
                    ch.add_sound(&mut a);
                    register(m, &a, &mut ids)?;
                    if s.arg(1) != 0 {
                        m.handle = Some(a);
                    }
                    c.probe("added_again");
                }
            }
        }
        for m in &all {
            let d = m.diary.borrow();
            ensure!(*d == m.book, "told", "the sound with identifier {:?} (earlier {:?}) was told {:?} where it should have been told {:?}", m.id, m.past, d, m.book);
            if let (Some(h), Some(id)) = (&m.handle, m.id) {
                ensure!(h.get_id() == Some(id), "identity", "the sound registered under {} reports {:?}", id, h.get_id());
            }
        }
    }
    c.nontrivial = removed && played;
    Ok(())
}

fn register(m: &mut Member, a: &Arc<dyn Sound>, ids: &mut BTreeSet<usize>) -> Res {
    let id = match a.get_id() {
        Some(i) => i,
        None => crate::fail!("identity", "a sound reports no identifier after it was added"),
    };
    // only the same sound may come back under an identifier it had itself
    ensure!(ids.insert(id) || m.past.contains(&id), "reused", "identifier {} was given a second time", id);
    m.id = Some(id);
    m.book.push(Heard::Registered(id));
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    params: &["ent", "stereo", "gain_milli"],
    ops: &[
        ("process", &["calls"]),
        ("add", &["seed", "keep_handle", "how_many", "quiet", "kind"]),
        ("remove", &["which"]),
        ("remove_again", &["which"]),
        ("remove_unknown", &["id", "bit"]),
        ("drop_handle", &["which"]),
        ("add_again", &["which", "keep_handle"]),
        ("come_and_go", &["how_many", "quiet"]),
    ],
    gen: c22_gen,
    run: c22_run,
    quick: 740_000,
    thorough: 20_000_000,
    rule: "at least one sound was removed and at least one buffer mixed while sounds were registered",
    oracle: "ledger of identifiers, of what every sound was told and when it was dropped; mix and run counts of the registered sounds",
    real: &["StandardChannel<Mono>", "StandardChannel<Stereo>", "SimpleSound and ComplexSound with real parts among the members"],
    stub: &["logging sounds as the other members", "control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["added", "added_again", "removed", "removed_while_held", "removed_again", "unknown_removed", "crowded", "churned", "thousands_of_identifiers", "paused_or_muted", "real_sound", "near_identifier"],
};
