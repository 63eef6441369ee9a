//! C10: oscillators against an exact phase accumulator. C11: statistics of noise under simulated entropy.

use crate::plan::{st, Plan, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task};
use crate::{ensure, os, quiet_thread, Ctx, Prop, Res};
use bae_rs::generators::*;
use std::collections::HashMap;

pub enum Osc {
    Sine(Sine),
    Saw(Sawtooth),
    Square(Square),
    Tri(Triangle),
}

impl Osc {
    pub fn new(kind: i64, f: f64) -> Osc {
        match kind.rem_euclid(4) {
            0 => Osc::Sine(Sine::new(f)),
            1 => Osc::Saw(Sawtooth::new(f)),
            2 => Osc::Square(Square::new(f)),
            _ => Osc::Tri(Triangle::new(f)),
        }
    }
    pub fn next(&mut self) -> f32 {
        match self {
            Osc::Sine(g) => g.process(),
            Osc::Saw(g) => g.process(),
            Osc::Square(g) => g.process(),
            Osc::Tri(g) => g.process(),
        }
    }
    pub fn set(&mut self, f: f64) {
        match self {
            Osc::Sine(g) => g.set_frequency(f),
            Osc::Saw(g) => g.set_frequency(f),
            Osc::Square(g) => g.set_frequency(f),
            Osc::Tri(g) => g.set_frequency(f),
        }
    }
    pub fn get(&self) -> f64 {
        match self {
            Osc::Sine(g) => g.get_frequency(),
            Osc::Saw(g) => g.get_frequency(),
            Osc::Square(g) => g.get_frequency(),
            Osc::Tri(g) => g.get_frequency(),
        }
    }
}

/// The ideal waveform at phase p in cycles, 0 <= p < 1.
fn wave(kind: i64, p: f64) -> f64 {
    let p = p.rem_euclid(1.0);
    match kind.rem_euclid(4) {
        0 => (2.0 * std::f64::consts::PI * p).sin(),
        1 => 2.0 * (if p >= 0.5 { p - 1.0 } else { p }),
        2 => {
            if p < 0.5 {
                1.0
            } else {
                -1.0
            }
        }
        _ => {
            if p < 0.25 {
                4.0 * p
            } else if p < 0.75 {
                2.0 - 4.0 * p
            } else {
                4.0 * p - 4.0
            }
        }
    }
}

const NAMES: [&str; 4] = ["sine", "sawtooth", "square", "triangle"];

fn hz(v: i64) -> f64 {
    v.clamp(1, 23_999_999) as f64 / 1000.0
}

fn some_freq(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.logu(1, 20_000),
        1 => r.range(12_000_000, 23_999_999),
        2 => r.pick(&[440_000, 1_000_000, 10_000, 4_800_000, 12_000_000, 16_000_000, 100_000, 6_000_000]),
        _ => r.logu(10_000, 12_000_000),
    }
}

const BUFS: &[i64] = &[1, 5, 32, 64, 128, 480, 512, 1024, 4096];

fn c10_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.below(4) as i64;
    let f0 = some_freq(r);
    let total = if r.below(if thorough { 60 } else { 200 }) == 0 {
        if r.chance(0.03) {
            20_000_000
        } else if thorough {
            5_000_000
        } else {
            1_500_000
        }
    } else {
        r.logu(20, 30_000)
    };
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let style = r.below(4);
    let mut cur = f0;
    let mut tasks = vec![];
    if !r.chance(0.1) {
        tasks.push(task(mean, move |r| {
            cur = match style {
                // vibrato, sweep, jumps, all
                0 => (f0 as f64 * (0.94 + 0.12 * r.f())) as i64,
                1 => (cur as f64 * if r.chance(0.5) { 1.06 } else { 0.943 }) as i64,
                2 => some_freq(r),
                _ => {
                    if r.chance(0.5) {
                        some_freq(r)
                    } else {
                        cur + r.range(-1000, 1000)
                    }
                }
            }
            .clamp(1, 23_999_999);
            st(1, &[cur])
        }));
    }
    let steps = host(r, total, tasks, &net, 0, BUFS, 300);
    Plan { p: vec![ent, kind, f0], steps }
}

fn c10_run(plan: &Plan, c: &mut Ctx) -> Res {
    let kind = plan.par(1).rem_euclid(4);
    let mut f = hz(plan.par(2));
    let mut o = Osc::new(kind, f);
    let name = NAMES[kind as usize];
    c.net(plan);
    c.probe(match kind {
        0 => "sine",
        1 => "sawtooth",
        2 => "square",
        _ => "triangle",
    });
    let g = o.get();
    ensure!((g - f).abs() <= 1e-9 * f, "frequency_reads_back", "{} built for {} Hz reads {}", name, f, g);
    let mut ph = 0f64;
    let mut n = 0f64;
    let (mut lo, mut hi) = (f32::MAX, f32::MIN);
    let mut since_change = None;
    for s in &plan.steps {
        match s.op {
            0 => {
                for _ in 0..s.arg(0).max(0) {
                    let y = o.next();
                    c.out(y);
                    ensure!(y.abs() <= 1.0, "out_of_range", "{} sample {} is {}", name, n, y);
                    lo = lo.min(y);
                    hi = hi.max(y);
                    let eps = 1e-9 + n * 4e-16;
                    let tol = 1e-5 + 8.0 * eps;
                    let y = y as f64;
                    // within rounding of a discontinuity both sides are right
                    let ok = [ph, ph - eps, ph + eps].iter().any(|p| (y - wave(kind, *p)).abs() <= tol);
                    ensure!(
                        ok,
                        "wrong_phase",
                        "{} sample {}: {} where the waveform is {} at phase {:.9} ({} Hz, {:?} samples after the last change)",
                        name, n, y, wave(kind, ph), ph, f, since_change
                    );
                    ph += f / 48000.0;
                    if ph >= 1.0 {
                        ph -= 1.0;
                    }
                    n += 1.0;
                    if let Some(k) = &mut since_change {
                        *k += 1;
                    }
                }
                if n > 1_000_000.0 {
                    c.probe("over_a_million_samples");
                }
            }
            _ => {
                if s.tag == LOST {
                    continue;
                }
                f = hz(s.arg(0));
                o.set(f);
                since_change = Some(0u64);
                c.probe(if kind == 3 && (0.25..0.75).contains(&ph) { "retuned_while_falling" } else { "retuned" });
                let g = o.get();
                ensure!((g - f).abs() <= 1e-9 * f, "frequency_reads_back", "{} set to {} Hz reads {}", name, f, g);
            }
        }
    }
    c.nontrivial = hi > lo;
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    params: &["ent", "wave", "mhz"],
    ops: &[("run", &["n"]), ("freq", &["mhz"])],
    gen: c10_gen,
    run: c10_run,
    quick: 270_000,
    thorough: 8_100_000,
    rule: "the output moved",
    oracle: "ideal waveform at the accumulated phase (f64), either side accepted within rounding of a discontinuity",
    real: &["generators::Sine, Sawtooth, Square, Triangle"],
    stub: &["control task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["sine", "sawtooth", "square", "triangle", "retuned", "retuned_while_falling", "over_a_million_samples"],
};

// ---- C11 --------------------------------------------------------------------------------------------------------

/// Tests that hold for every window of an ideal generator except with negligible probability.
fn stats(who: &str, v: &[f32]) -> Res {
    let n = v.len() as f64;
    let sq = n.sqrt();
    let mut m = 0f64;
    let mut m2 = 0f64;
    let mut hist = [0u64; 32];
    for &x in v {
        ensure!((-1.0..=1.0).contains(&x), "out_of_range", "{}: sample {}", who, x);
        m += x as f64;
        m2 += (x as f64).powi(2);
        hist[(((x as f64 + 1.0) * 16.0) as usize).min(31)] += 1;
    }
    m /= n;
    m2 /= n;
    ensure!(m.abs() <= 7.0 * 0.5774 / sq, "biased", "{}: mean {} over {} samples", who, m, n);
    ensure!((m2 - 1.0 / 3.0).abs() <= 7.0 * 0.2982 / sq, "wrong_level", "{}: mean square {} over {} samples", who, m2, n);
    let e = n / 32.0;
    let chi: f64 = hist.iter().map(|h| (*h as f64 - e).powi(2) / e).sum();
    ensure!(chi < 120.0, "not_uniform", "{}: chi-square {} on 31 degrees of freedom, {} samples", who, chi, n);
    if v.len() >= 300_000 {
        let mut fine = vec![0u32; 4096];
        for &x in v {
            fine[(((x as f64 + 1.0) * 2048.0) as usize).min(4095)] += 1;
        }
        let e = n / 4096.0;
        let chi: f64 = fine.iter().map(|h| (*h as f64 - e).powi(2) / e).sum();
        ensure!(chi < 5000.0, "not_uniform", "{}: chi-square {} on 4095 degrees of freedom, {} samples", who, chi, n);
    }
    // no value comes more often than a grid of 16 bits would have it
    let mut all: Vec<u32> = v.iter().map(|x| if *x == 0.0 { 0 } else { x.to_bits() }).collect();
    all.sort_unstable();
    let share = n / 65536.0;
    let most = share + 8.0 * share.sqrt() + 12.0;
    for g in all.chunk_by(|a, b| a == b) {
        ensure!((g.len() as f64) < most, "not_uniform", "{}: {} came {} times in {} samples", who, f32::from_bits(g[0]), g.len(), n);
    }
    for lag in 1..=16usize {
        let s: f64 = (lag..v.len()).map(|i| v[i] as f64 * v[i - lag] as f64).sum();
        let rho = s / ((v.len() - lag) as f64) * 3.0;
        ensure!(rho.abs() <= 7.0 / (n - lag as f64).sqrt(), "not_white", "{}: correlation {} at lag {} over {} samples", who, rho, lag, n);
    }
    Ok(())
}

fn unrelated(who: &str, a: &[f32], b: &[f32]) -> Res {
    let n = a.len().min(b.len());
    for lag in 0..4usize {
        let s: f64 = (lag..n).map(|i| a[i] as f64 * b[i - lag] as f64).sum();
        let rho = s / ((n - lag) as f64) * 3.0;
        ensure!(rho.abs() <= 7.0 / ((n - lag) as f64).sqrt(), "related", "{}: cross correlation {} at lag {}", who, rho, lag);
    }
    Ok(())
}

fn c11_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let threads = r.range(1, 3);
    let n = if thorough { r.logu(4000, 60_000) } else { r.logu(4000, 16_000) };
    let gens = r.range(1, 4);
    // now and then one generator runs for a long time: nothing in it may come round again
    if r.chance(if thorough { 0.001 } else { 0.004 }) {
        let n = r.logu(300_000, 5_000_000);
        return Plan { p: vec![ent, r.below(2) as i64, 1, n, 1], steps: vec![st(0, &[0, n])] };
    }
    // calls: which generator runs how many samples next; clones and drops in between
    let mut steps = vec![];
    let mut left = n * gens;
    let mean = r.logu(1, 3000) as f64;
    while left > 0 && steps.len() < 2000 {
        let k = r.gap(mean);
        steps.push(st(0, &[r.below(8) as i64, k]));
        left -= k;
        if r.chance(0.02) {
            steps.push(st(1, &[r.below(8) as i64]));
        }
        if r.chance(0.01) {
            steps.push(st(2, &[r.below(8) as i64]));
        }
    }
    Plan { p: vec![ent, r.below(2) as i64, threads, n, gens], steps }
}

/// Noise as it comes from `Default` and `Clone` where it offers them, a new one otherwise.
struct Any<T>(std::marker::PhantomData<T>);
trait Offered<T> {
    fn by_default(&self) -> T;
}
impl<T: Default> Offered<T> for Any<T> {
    fn by_default(&self) -> T {
        T::default()
    }
}
trait Copied<T> {
    fn copy(&self, t: &T) -> T;
}
impl<T: Clone> Copied<T> for Any<T> {
    fn copy(&self, t: &T) -> T {
        t.clone()
    }
}
trait NotOffered {
    fn by_default(&self) -> Noise {
        Noise::new()
    }
    fn copy(&self, _: &Noise) -> Noise {
        Noise::new()
    }
}
impl NotOffered for &Any<Noise> {}

/// All generators of one simulated thread; every stream gets at least n samples.
fn noise_thread(plan: &Plan) -> Vec<Vec<f32>> {
    let n = plan.par(3).clamp(4000, 5_000_000) as usize;
    let mut gens: Vec<Option<Noise>> = (0..plan.par(4).clamp(1, 6)).map(|i| Some(if i % 2 == 0 { Noise::new() } else { (&Any(std::marker::PhantomData::<Noise>)).by_default() })).collect();
    let mut out: Vec<Vec<f32>> = gens.iter().map(|_| vec![]).collect();
    for s in &plan.steps {
        let i = s.arg(0).rem_euclid(gens.len() as i64) as usize;
        match s.op {
            0 => {
                if let Some(g) = &mut gens[i] {
                    for _ in 0..s.arg(1).clamp(0, 5_000_000) {
                        out[i].push(g.process());
                    }
                }
            }
            1 => {
                if gens.len() < 6 {
                    if let Some(g) = &gens[i] {
                        let k = (&Any(std::marker::PhantomData::<Noise>)).copy(g);
                        gens.push(Some(k));
                        out.push(vec![]);
                    }
                }
            }
            _ => {
                if i > 0 && out[i].len() >= n {
                    gens[i] = None;
                }
            }
        }
    }
    for (g, o) in gens.iter_mut().zip(out.iter_mut()) {
        if let Some(g) = g {
            while o.len() < n {
                o.push(g.process());
            }
        }
    }
    out
}

fn c11_run(plan: &Plan, c: &mut Ctx) -> Res {
    let threads = plan.par(2).clamp(1, 4);
    let mut streams: Vec<(String, Vec<f32>)> = vec![];
    let ent = plan.par(0) as u64;
    let faulty = plan.par(1) != 0;
    if faulty {
        c.fault("faulty_entropy_supply");
    }
    for t in 0..threads {
        let p = plan.clone();
        // every thread is a process run of its own as far as entropy goes
        let h = std::thread::spawn(move || {
            quiet_thread();
            os::enter_sim(hash2(ent, t as u64), faulty);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| noise_thread(&p)));
            r.map_err(|_| crate::take_panic())
        });
        match h.join() {
            Ok(Ok(v)) => {
                for (i, s) in v.into_iter().enumerate() {
                    streams.push((format!("thread {} generator {}", t, i), s));
                }
            }
            Ok(Err(Some((false, m)))) => crate::fail!("panic", "panicked: {}", m),
            _ => crate::fail!("harness", "noise thread failed"),
        }
    }
    if plan.par(3) >= 1_000_000 {
        c.probe("million_samples");
    }
    if threads > 1 {
        c.probe("several_threads");
    }
    for s in &plan.steps {
        match s.op {
            1 => c.probe("cloned"),
            2 => c.probe("dropped"),
            _ => {}
        }
    }
    let mut seen: HashMap<(u32, u32, u32), usize> = HashMap::new();
    for (i, (who, s)) in streams.iter().enumerate() {
        for x in s {
            c.out(*x);
        }
        stats(who, s)?;
        for w in s.windows(3) {
            let k = (w[0].to_bits(), w[1].to_bits(), w[2].to_bits());
            if let Some(j) = seen.insert(k, i) {
                crate::fail!("repeated", "{} and {} share three consecutive samples {:?}", streams[j].0, who, w);
            }
        }
    }
    for i in 0..streams.len() {
        for j in 0..i {
            unrelated(&format!("{} and {}", streams[j].0, streams[i].0), &streams[i].1, &streams[j].1)?;
        }
    }
    if streams.len() > 1 {
        c.probe("several_generators");
    }
    c.nontrivial = true;
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    params: &["ent", "entf", "threads", "samples", "generators"],
    ops: &[("run", &["generator", "n"]), ("clone", &["generator"]), ("drop", &["generator"])],
    gen: c11_gen,
    run: c11_run,
    quick: 4_700,
    thorough: 110_000,
    rule: "every case draws at least 4000 samples",
    oracle: "range, mean, power, chi-square on 32 bins (4096 for long streams), no value more often than on a 16-bit grid, autocorrelation to lag 16 and cross-correlation at 7 sigma; no three consecutive samples occur twice in any stream of the case",
    real: &["generators::Noise", "rand's thread generator, its reseeding and its entropy calls"],
    stub: &["operating system entropy (seeded, short reads and EINTR in half the cases)"],
    faults: &["faulty_entropy_supply"],
    probes: &["several_threads", "several_generators", "cloned", "dropped", "million_samples"],
};
