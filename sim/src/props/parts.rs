//! Parts from which the simulated sounds are assembled: counted generators and modifiers (synthetic or real), reference
//! blocks, logging blocks and logging sounds.

use crate::rng::{hash2, Rng};
use crate::sig::{dyadic, signal};
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sounds::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub type Count = Rc<Cell<u64>>;

pub fn close(a: f32, b: f64, scale: f64) -> bool {
    (a as f64 - b).abs() <= 2e-5 * (1.0 + scale.abs() + b.abs())
}

/// A synthetic generator: an exactly summable pseudo-random sequence.
struct Seq {
    seed: u64,
    n: u64,
}
impl Generator for Seq {
    fn process(&mut self) -> f32 {
        self.n += 1;
        dyadic(self.seed, self.n)
    }
}

/// A synthetic modifier with memory and a position of its own.
struct Smear {
    seed: u64,
    n: u64,
    last: f32,
}
impl Modifier for Smear {
    fn process(&mut self, x: f32) -> f32 {
        self.n += 1;
        let y = 0.5 * x + 0.25 * self.last + 0.125 * dyadic(self.seed, self.n);
        self.last = x;
        y
    }
}

/// A generator that counts its calls.
pub struct G {
    inner: Box<dyn Generator>,
    pub n: Count,
}
impl Generator for G {
    fn process(&mut self) -> f32 {
        self.n.set(self.n.get() + 1);
        self.inner.process()
    }
}

pub struct M {
    inner: Box<dyn Modifier>,
    pub n: Count,
}
impl Modifier for M {
    fn process(&mut self, x: f32) -> f32 {
        self.n.set(self.n.get() + 1);
        self.inner.process(x)
    }
}

/// (generator kind, modifier kind, interaction, seed)
#[derive(Clone, Copy, Debug)]
pub struct Spec(pub i64, pub i64, pub i64, pub i64);

impl Spec {
    pub fn random(r: &mut Rng) -> Spec {
        let (a, b) = if r.chance(0.5) { (0, 0) } else { (r.range(0, 6), r.range(0, 7)) };
        Spec(a, b, r.range(0, 3), r.seed())
    }
    pub fn from(a: &[i64]) -> Spec {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        Spec(g(0).rem_euclid(7), g(1).rem_euclid(8), g(2).rem_euclid(4), g(3))
    }
    pub fn args(&self) -> [i64; 4] {
        [self.0, self.1, self.2, self.3]
    }
    pub fn make_g(&self, n: &Count) -> G {
        let s = self.3 as u64;
        let f = 20.0 + (hash2(s, 1) % 6_000_000) as f64 / 1000.0;
        let inner: Box<dyn Generator> = match self.0 {
            0 => Box::new(Seq { seed: s, n: 0 }),
            1 => Box::new(Sine::new(f)),
            2 => Box::new(Sawtooth::new(f)),
            3 => Box::new(Square::new(f)),
            4 => Box::new(Triangle::new(f)),
            5 => {
                let len = 2 + hash2(s, 2) % 60;
                let t = (0..len).map(|i| dyadic(s, i).into()).collect();
                Box::new(MonoWav::from_track(44100.0, t))
            }
            _ => Box::new(Zero::new()),
        };
        G { inner, n: n.clone() }
    }
    pub fn make_m(&self, n: &Count) -> M {
        let s = self.3 as u64;
        let h = |k: u64, m: u64| (hash2(s, k) % m) as f64;
        let inner: Box<dyn Modifier> = match self.1 {
            0 => Box::new(Smear { seed: s, n: 0, last: 0.0 }),
            1 => Box::new(Gain::new((h(3, 17) / 8.0 - 1.0) as f32)),
            2 => Box::new(LowPass::new(200.0 + h(4, 8000), 0.3)),
            3 => Box::new(Delay::new(Duration::from_nanos((h(5, 40) * 1e9 / 48000.0) as u64))),
            4 => Box::new(Echo::new(Duration::from_nanos(((1.0 + h(6, 40)) * 1e9 / 48000.0) as u64), 0.25)),
            5 => Box::new(Passthrough::new()),
            6 => Box::new(HighPass::new(200.0 + h(7, 8000), 0.3)),
            _ => Box::new(ADSR::new(Duration::from_micros(h(8, 9000) as u64), Duration::from_micros(h(9, 9000) as u64), -6.0, Duration::from_millis(3))),
        };
        M { inner, n: n.clone() }
    }
    pub fn block(&self, ng: &Count, nm: &Count, ni: &Count) -> StandardBlock {
        StandardBlock::new(self.make_g(ng), self.make_m(nm), self.make_i(ni))
    }
    pub fn make_i(&self, ni: &Count) -> Inter {
        match self.2 {
            0 => StandardBlock::default_interactor(),
            1 => StandardBlock::generator_passthrough(),
            2 => StandardBlock::modifier_passthrough(),
            _ => {
                let k = ni.clone();
                Arc::new(move |g: f32, m: f32| {
                    k.set(k.get() + 1);
                    combine(g, m, k.get())
                })
            }
        }
    }
}

fn combine(g: f32, m: f32, k: u64) -> f32 {
    0.5 * g + m + if k % 3 == 0 { 0.25 } else { 0.0 }
}

/// Independent model of a block.
pub struct RefBlock {
    pub spec: Spec,
    pub g: G,
    pub m: M,
    k: u64,
    pub pend: f64,
    pub runs: u64,
    /// calls made to the parts of the block under test
    pub ng: Count,
    pub nm: Count,
    pub ni: Count,
}

impl RefBlock {
    /// The model and the block under test it stands for.
    pub fn pair(spec: Spec) -> (RefBlock, StandardBlock) {
        let (ng, nm, ni) = (Count::default(), Count::default(), Count::default());
        let b = spec.block(&ng, &nm, &ni);
        let own = Count::default();
        (RefBlock { spec, g: spec.make_g(&own), m: spec.make_m(&own), k: 0, pend: 0.0, runs: 0, ng, nm, ni }, b)
    }
    pub fn run(&mut self) -> f32 {
        self.k += 1;
        self.runs += 1;
        let g = self.g.process();
        let m = self.m.process(self.pend as f32);
        self.pend = 0.0;
        match self.spec.2 {
            0 => g * m,
            1 => g,
            2 => m,
            _ => combine(g, m, self.k),
        }
    }
    /// One run during which the generator, the modifier or the combining function is held elsewhere.
    pub fn run_held(&mut self, held: [bool; 3], runs: &mut [u64; 3]) -> f32 {
        let g = if held[0] { 0.0 } else { self.g.process() };
        let m = if held[1] { self.pend as f32 } else { self.m.process(self.pend as f32) };
        self.pend = 0.0;
        for k in 0..3 {
            runs[k] += !held[k] as u64;
        }
        if held[2] {
            return 0.0;
        }
        self.k += 1;
        match self.spec.2 {
            0 => g * m,
            1 => g,
            2 => m,
            _ => combine(g, m, self.k),
        }
    }
    /// Did every part of the block under test run exactly as often as the model?
    pub fn advanced(&self) -> bool {
        self.ng.get() == self.runs && self.nm.get() == self.runs && (self.spec.2 != 3 || self.ni.get() == self.runs)
    }
}

/// One run of a logging block.
pub struct Ran {
    pub id: usize,
    pub input: f64,
    pub out: f32,
}

pub type Log = Rc<RefCell<Vec<Ran>>>;

/// A block that records what it is fed and what it answers.
pub struct LogBlock {
    pub id: usize,
    pub kind: i64,
    pub seed: u64,
    pub n: u64,
    pub acc: f64,
    pub log: Log,
    /// everything it adds and its bounds are at this level
    pub level: f32,
}

impl Block for LogBlock {
    fn prime_input(&mut self, x: f32) {
        self.acc += x as f64;
    }
    fn process(&mut self) -> f32 {
        self.n += 1;
        let own = dyadic(self.seed, self.n) * self.level;
        let top = 4.0 * self.level;
        let out = match self.kind.rem_euclid(3) {
            0 => own,
            1 => (0.5 * self.acc as f32 + 0.5 * own).clamp(-top, top),
            _ => (self.acc as f32).clamp(-top, top),
        };
        self.log.borrow_mut().push(Ran { id: self.id, input: self.acc, out });
        self.acc = 0.0;
        out
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Heard {
    Registered(usize),
    Unregistered,
    Dropped,
    Toggled,
}

pub type Diary = Rc<RefCell<Vec<Heard>>>;

/// A sound that records what happens to it.
pub struct LogSound {
    pub seed: u64,
    pub n: Count,
    pub bad_input: Count,
    pub id: Option<usize>,
    pub diary: Diary,
    /// bit 0 paused (does not run), bit 1 muted (runs in silence)
    pub quiet: i64,
    pub level: f32,
    /// now and then a sample is no ordinary number
    pub odd: bool,
}

impl LogSound {
    pub fn sample(seed: u64, k: u64, level: f32, odd: bool) -> f32 {
        let h = hash2(seed ^ 0x0DD, k);
        if odd && h % 64 == 0 {
            return [f32::INFINITY, f32::NEG_INFINITY, f32::NAN][(h / 64 % 3) as usize];
        }
        dyadic(seed, k) * level
    }
    pub fn value(seed: u64, k: u64) -> f64 {
        dyadic(seed, k) as f64
    }
}

impl Sound for LogSound {
    fn toggle_pause(&mut self) {
        self.diary.borrow_mut().push(Heard::Toggled);
    }
    fn is_paused(&self) -> bool {
        self.quiet & 1 != 0
    }
    fn toggle_mute(&mut self) {
        self.diary.borrow_mut().push(Heard::Toggled);
    }
    fn is_muted(&self) -> bool {
        self.quiet & 2 != 0
    }
    fn process(&mut self, x: f32) -> f32 {
        if x != 0.0 {
            self.bad_input.set(self.bad_input.get() + 1);
        }
        if self.is_paused() {
            return 0.0;
        }
        self.n.set(self.n.get() + 1);
        if self.is_muted() {
            return 0.0;
        }
        LogSound::sample(self.seed, self.n.get(), self.level, self.odd)
    }
    fn register(&mut self, id: usize) {
        self.id = Some(id);
        self.diary.borrow_mut().push(Heard::Registered(id));
    }
    fn unregister(&mut self) {
        self.id = None;
        self.diary.borrow_mut().push(Heard::Unregistered);
    }
    fn get_id(&self) -> Option<usize> {
        self.id
    }
}

impl Drop for LogSound {
    fn drop(&mut self) {
        self.diary.borrow_mut().push(Heard::Dropped);
    }
}

/// A gain from thousandths. Most gains are no round number: what is not a multiple of five is moved by a fixed fraction.
pub fn milli(v: i64) -> f64 {
    let v = v.clamp(-4_000_000_000, 4_000_000_000);
    let g = v as f64 / 1000.0;
    if v % 5 == 0 {
        g
    } else {
        g + 0.000437218 * g.signum()
    }
}

/// A gain in thousandths: mostly moderate, now and then far from it.
pub fn gain_milli(r: &mut Rng, max: i64) -> i64 {
    if r.chance(0.05) {
        let v = r.logu(1, 2_000_000_000);
        if r.chance(0.5) {
            v
        } else {
            -v
        }
    } else {
        r.range(-max, max)
    }
}

/// The level of a signal: mostly full scale, now and then far above or below.
pub fn level_log2(r: &mut Rng) -> i64 {
    if r.chance(0.7) {
        0
    } else {
        r.range(-60, 60)
    }
}

pub fn level(v: i64) -> f32 {
    2f32.powi(v.clamp(-60, 60) as i32)
}

/// Equal up to rounding in a computation whose quantities reach `peak`.
pub fn near(a: f32, b: f64, peak: f64) -> bool {
    (a as f64 - b).abs() <= 2e-5 * (peak + b.abs()) + 1e-30
}

/// External input of a sound at one sample.
pub fn input(kind: i64, seed: i64, i: u64) -> f32 {
    if kind.rem_euclid(10) == 9 {
        dyadic(seed as u64, i)
    } else {
        signal(kind.rem_euclid(10), seed, i)
    }
}

/// The same input with samples in it that are no ordinary numbers.
pub fn odd_input(kind: i64, seed: i64, i: u64, odd: bool) -> f32 {
    let h = hash2(seed as u64 ^ 0x0DD, i);
    if odd && h % 8 == 0 {
        return [f32::INFINITY, f32::NEG_INFINITY, f32::NAN][(h / 8 % 3) as usize];
    }
    input(kind, seed, i)
}

/// Equal up to `tol`; what is no ordinary number has to be the same kind of it.
pub fn same(a: f64, b: f64, tol: f64) -> bool {
    if a.is_finite() && b.is_finite() {
        return (a - b).abs() <= tol;
    }
    a.is_nan() && b.is_nan() || a == b
}
