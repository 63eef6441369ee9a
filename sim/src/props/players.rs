//! C08, C09: clip players against an exact position reference.

use crate::plan::{st, Plan, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task};
use crate::{ensure, Ctx, Prop, Res};
use bae_rs::generators::{Generator, MonoWav};
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::{Mono, SampleFormat};

const REAL: &[&str] = &["utils::mono_resampler::MonoResampler", "generators::MonoWav", "utils::read_wav (clips loaded from a stream)"];
const STUB: &[&str] = &["control task, transport and audio callback (simulated host)", "byte stream the clip comes from"];

/// Integer range of the clips that lie on the grid of a PCM format.
fn grid(kind: i64) -> Option<(u64, f64)> {
    match kind {
        0 => Some((65535, 32767.0)),
        3 => Some((255, 128.0)),
        4 => Some((16_777_215, 8_388_607.0)),
        _ => None,
    }
}

fn stored(seed: i64, n: u64, i: u64) -> i64 {
    (hash2(seed as u64, i) % n) as i64 - (n / 2) as i64
}

fn frame(seed: i64, kind: i64, i: u64) -> f32 {
    match (kind, grid(kind)) {
        // on the grid of a format, so that a clip stored as PCM is the same clip
        (_, Some((n, full))) => (stored(seed, n, i) as f64 / full) as f32,
        (1, _) => (((i.wrapping_mul(7919).wrapping_add(seed as u64 & 1023)) & 1023) as f32 - 511.0) / 512.0,
        // louder than full scale
        (5, _) => (hash2(seed as u64, i) % 2001) as f32 / 125.0 - 8.0,
        _ => (hash2(seed as u64, i) % 2001) as f32 / 1000.0 - 1.0,
    }
}

/// The clip as the first channel of a WAV file.
fn pcm(rate: u32, n: u64, seed: i64, kind: i64, channels: u64, chunk: usize) -> Vec<u8> {
    let (range, _) = grid(kind).unwrap();
    let width = match kind {
        3 => 1,
        0 => 2,
        _ => 3,
    };
    let mut body = vec![];
    for i in 0..n {
        for ch in 0..channels {
            let v = if ch == 0 { stored(seed, range, i) } else { stored(seed ^ ch as i64, range, i + 1) };
            match width {
                1 => body.push((v + 128) as u8),
                w => body.extend(&(v as i32).to_le_bytes()[..w]),
            }
        }
    }
    let mut b = Vec::new();
    b.extend(b"WAVEfmt ");
    b.extend(16u32.to_le_bytes());
    b.extend(1u16.to_le_bytes());
    b.extend((channels as u16).to_le_bytes());
    b.extend(rate.to_le_bytes());
    b.extend((rate * (channels * width as u64) as u32).to_le_bytes());
    b.extend(((channels * width as u64) as u16).to_le_bytes());
    b.extend((8 * width as u16).to_le_bytes());
    if chunk > 0 {
        b.extend(b"LIST");
        b.extend((chunk as u32).to_le_bytes());
        b.resize(b.len() + chunk + chunk % 2, 7);
    }
    b.extend(b"data");
    b.extend((body.len() as u32).to_le_bytes());
    b.extend(&body);
    if body.len() % 2 == 1 {
        b.push(0);
    }
    let mut f = b"RIFF".to_vec();
    f.extend((b.len() as u32).to_le_bytes());
    f.extend(b);
    f
}

enum Player {
    R(MonoResampler),
    W(MonoWav),
}

impl Player {
    fn next(&mut self) -> f32 {
        match self {
            Player::R(r) => r.process(),
            Player::W(w) => w.process(),
        }
    }
    fn set(&mut self, s: f64) {
        match self {
            Player::R(r) => r.set_playback_speed(s),
            Player::W(w) => w.get_mut().set_playback_speed(s),
        }
    }
    fn get(&self) -> f64 {
        match self {
            Player::R(r) => r.get_playback_speed(),
            Player::W(w) => w.get().get_playback_speed(),
        }
    }
}

/// Position in frames, kept as integer and fraction so that it stays exact over long runs.
#[derive(Clone, Copy)]
struct Pos {
    i: i64,
    f: f64,
}

impl Pos {
    fn advance(&mut self, step: f64) {
        let si = step.floor();
        self.f += step - si;
        self.i += si as i64;
        while self.f >= 1.0 {
            self.f -= 1.0;
            self.i += 1;
        }
    }
}

struct Clip {
    n: i64,
    seed: i64,
    kind: i64,
    /// loop bounds after normalisation, None when the clip does not loop
    lp: Option<(i64, i64)>,
}

impl Clip {
    fn at(&self, i: i64) -> f64 {
        frame(self.seed, self.kind, i as u64) as f64
    }
    /// Value at a position; None past the end.
    fn value(&self, p: Pos) -> Option<f64> {
        match self.lp {
            Some((ls, le)) => {
                let mut i = p.i;
                if i >= le {
                    i = ls + (i - ls) % (le - ls);
                }
                let nx = if i + 1 >= le { ls } else { i + 1 };
                let (a, b) = (self.at(i), self.at(nx));
                Some(a + p.f * (b - a))
            }
            None => {
                if p.i >= self.n {
                    return None;
                }
                let a = self.at(p.i);
                let b = if p.i + 1 >= self.n { a } else { self.at(p.i + 1) };
                Some(a + p.f * (b - a))
            }
        }
    }
}

fn play(plan: &Plan, c: &mut Ctx, clip: &Clip, mut pl: Player, rate: f64, speed0: f64) -> Res {
    let mut speed = 1.0;
    if speed0 != 1.0 {
        pl.set(speed0);
        speed = speed0;
    }
    let mut pos = Pos { i: 0, f: 0.0 };
    let mut n = 0f64;
    let mut dist = 0f64;
    let mut reach = 1f64;
    let mut audible = false;
    c.net(plan);
    for s in &plan.steps {
        match s.op {
            0 => {
                for _ in 0..s.arg(0).max(0) {
                    let y = pl.next();
                    c.out(y);
                    ensure!(y.is_finite(), "not_finite", "sample {} is {}", n, y);
                    let eps = 1e-9 + 2.3e-16 * (n * (reach + 1.0) + 4.0 * dist);
                    let tol = if clip.kind == 5 { 8e-6 + 32.0 * eps } else { 1e-6 + 4.0 * eps };
                    let want = clip.value(pos);
                    let ok = |w: Option<f64>| match w {
                        Some(v) => (y as f64 - v).abs() <= tol,
                        None => y == 0.0,
                    };
                    let mut good = ok(want);
                    if !good && clip.lp.is_none() {
                        // within rounding of the very end of the clip both sides are right
                        let end = (pos.i - clip.n) as f64 + pos.f;
                        if end.abs() <= eps && clip.n > 0 {
                            good = if end >= 0.0 { ok(clip.value(Pos { i: clip.n - 1, f: 0.0 })) } else { y == 0.0 };
                        }
                    }
                    ensure!(
                        good,
                        if want.is_none() { "not_silent_after_end" } else { "wrong_sample" },
                        "sample {}: {} where the clip has {:?} at position {}+{:.6} (of {} frames, loop {:?}, speed {})",
                        n, y, want, pos.i, pos.f, clip.n, clip.lp, speed
                    );
                    if want.is_none() {
                        c.probe("past_end");
                    } else if y != 0.0 {
                        audible = true;
                    }
                    let step = rate / 48000.0 * speed;
                    pos.advance(step);
                    n += 1.0;
                    dist += step;
                    if let Some((ls, le)) = clip.lp {
                        reach = reach.max(le as f64 + step);
                        if pos.i >= 1 << 24 {
                            c.probe("beyond_2_24_frames");
                        }
                        if pos.i >= le {
                            c.probe("wrapped");
                            if step > (le - ls) as f64 {
                                c.probe("step_longer_than_loop");
                            }
                            pos.i = ls + (pos.i - ls) % (le - ls);
                        }
                        if pos.i + 1 == le && pos.f > 0.0 {
                            c.probe("across_seam");
                        }
                    } else {
                        reach = reach.max(pos.i as f64);
                        if pos.i >= 1 << 24 {
                            c.probe("beyond_2_24_frames");
                        }
                        if pos.i == clip.n - 1 && pos.f > 0.0 {
                            c.probe("last_frame_held");
                        }
                    }
                }
            }
            _ => {
                if s.tag == LOST {
                    continue;
                }
                speed = s.arg(0).clamp(0, 100_000_000_000) as f64 / 1e6;
                pl.set(speed);
                c.probe("speed_changed");
                if speed == 0.0 {
                    c.probe("speed_zero");
                }
                let g = pl.get();
                ensure!((g - speed).abs() <= 1e-12 * speed, "speed_reads_back", "speed set to {}, reads {}", speed, g);
            }
        }
    }
    if n > 1e6 {
        c.probe("million_samples");
    }
    c.nontrivial = audible && n > 2.0;
    Ok(())
}

fn track(n: i64, seed: i64, kind: i64) -> Vec<Mono> {
    (0..n as u64).map(|i| Mono::from_sample(frame(seed, kind, i))).collect()
}

const RATES: &[i64] = &[8000, 11025, 16000, 22050, 32000, 44100, 48000, 48000, 88200, 96000, 192000];

fn some_rate(r: &mut Rng) -> i64 {
    if r.chance(0.7) {
        r.pick(RATES)
    } else {
        if r.chance(0.1) {
            r.logu(1, 10_000_000)
        } else {
            r.logu(500, 400_000)
        }
    }
}

fn some_speed(r: &mut Rng, fast: bool) -> i64 {
    match r.below(10) {
        0 => 1_000_000,
        1 => 0,
        2 => r.pick(&[500_000, 2_000_000, 250_000, 4_000_000, 1_500_000]),
        3 => r.range(990_000, 1_010_000),
        4 if fast => r.logu(4_000_000, 40_000_000_000),
        5 => r.logu(if fast { 1 } else { 1000 }, 100_000),
        _ => r.logu(100_000, 8_000_000),
    }
}

const BUFS: &[i64] = &[1, 7, 32, 64, 128, 480, 512, 1024, 4096];

fn schedule(r: &mut Rng, total: i64, fast: bool) -> Vec<crate::plan::Step> {
    let net = swarm_net(r);
    let mean = r.logu(2, total.max(4)) as f64;
    let calm = r.chance(0.15);
    let mut tasks = vec![];
    if !calm {
        tasks.push(task(mean, move |r| {
            let v = some_speed(r, fast);
            st(1, &[v])
        }));
        if r.chance(0.3) {
            tasks.push(task(mean * 2.0, move |r| {
                let v = some_speed(r, false);
                st(1, &[v])
            }));
        }
    }
    host(r, total, tasks, &net, 0, BUFS, 200)
}

fn c08_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind;
    let frames;
    let mut via = r.below(3) as i64;
    let huge = r.below(if thorough { 60 } else { 150 }) == 0;
    let long = r.chance(0.1);
    if huge {
        frames = r.range(17_000_000, 18_000_000);
        kind = 1;
        via = r.below(2) as i64;
    } else if long {
        frames = r.logu(100_000, 1_000_000);
        kind = 1;
        via = r.below(2) as i64;
    } else {
        frames = if r.chance(0.05) { r.range(0, 3) } else { r.logu(1, 20_000) };
        kind = if via == 2 { r.pick(&[0, 3, 4]) } else { r.pick(&[0, 2, 2, 5]) };
    }
    if via == 2 && frames == 0 {
        via = 1;
    }
    let rate = some_rate(r);
    let mut steps = vec![];
    if huge || long {
        // get far into the clip quickly, then listen at ordinary speeds
        let stepfr = r.range(2000, 20_000);
        let far = frames * r.range(70, 97) / 100;
        steps.push(st(1, &[(stepfr as f64 * 48000.0 / rate as f64 * 1e6) as i64]));
        steps.push(st(0, &[far / stepfr]));
        steps.push(st(1, &[some_speed(r, false).max(900_000).min(2_000_000)]));
        let n = r.range(3000, 20_000);
        steps.extend(schedule(r, n, false));
        if r.chance(0.5) {
            steps.push(st(1, &[(stepfr as f64 * 48000.0 / rate as f64 * 1e6) as i64]));
            steps.push(st(0, &[frames / stepfr + 10]));
        }
    } else {
        let whole = frames as f64 * 48000.0 / rate as f64;
        let mut total = ((whole * (0.3 + 1.5 * r.f())) as i64).clamp(8, if thorough { 150_000 } else { 40_000 });
        if r.chance(0.0006) {
            total = r.logu(1_000_000, 20_000_000);
        }
        steps = schedule(r, total, r.clone().chance(0.2));
        if r.chance(0.5) {
            steps.push(st(1, &[((frames as f64 / 20.0 + 1.0) * 48000.0 / rate as f64 * 1e6) as i64]));
            steps.push(st(0, &[40]));
            steps.push(st(1, &[1_000_000]));
            steps.push(st(0, &[20]));
        }
    }
    let sp = if r.chance(0.5) { 1_000_000 } else { some_speed(r, false) };
    let (frac, ch) = (if via != 2 && r.chance(0.3) { r.range(1, 999) } else { 0 }, if r.chance(0.5) { 1 } else { r.range(1, 8) });
    let p = vec![ent, frames, rate, r.seed(), via, kind, sp, frac, ch, r.seed(), if r.chance(0.7) { 0 } else { r.range(1, 40) }];
    Plan { p, steps }
}

fn c08_run(plan: &Plan, c: &mut Ctx) -> Res {
    let n = plan.par(1).clamp(0, 20_000_000);
    let via = plan.par(4);
    // rates need not be whole numbers, except those in a file
    let rate = plan.par(2).clamp(1, 10_000_000) as f64 + if via == 2 { 0.0 } else { plan.par(7).clamp(0, 999) as f64 / 1000.0 };
    let seed = plan.par(3);
    let kind = if via == 2 && grid(plan.par(5)).is_none() { 0 } else { plan.par(5) };
    let clip = Clip { n, seed, kind, lp: None };
    let pl = match via {
        0 => Player::R(MonoResampler::new(track(n, seed, kind), rate, 0, 0)),
        2 => {
            let n = n.min(1_000_000) as u64;
            if n == 0 {
                return Ok(());
            }
            let o = plan.par(9) as u64;
            let b = pcm(rate as u32, n, seed, kind, plan.par(8).clamp(1, 64) as u64, plan.par(10).clamp(0, 1000) as usize);
            let script = (0..o % 30).map(|k| crate::io::act(1 + (hash2(o, k) % 2) as i64, 1 + (hash2(o, 100 + k) % 50) as i64)).collect();
            let mut r = crate::io::SimSource::new(b, script, (o / 100 % 4 * 1000 + 1) as usize, None);
            let w = MonoWav::from_source(&mut r);
            r.count(c);
            if plan.par(10) > 0 {
                c.faults("extra_chunk", 1);
            }
            c.probe("loaded_from_stream");
            Player::W(w)
        }
        _ => Player::W(MonoWav::from_track(rate, track(n, seed, kind))),
    };
    play(plan, c, &clip, pl, rate, plan.par(6).clamp(0, 1_000_000_000) as f64 / 1e6)
}

pub static C08: Prop = Prop {
    id: "C08",
    params: &["ent", "frames", "rate", "seed", "via", "kind", "speed0", "rate_milli", "channels", "delivery", "other_chunk"],
    ops: &[("run", &["n"]), ("speed", &["micro"])],
    gen: c08_gen,
    run: c08_run,
    quick: 110_000,
    thorough: 2_600_000,
    rule: "the clip was audible for more than two samples",
    oracle: "position kept as integer and fraction (exact over long runs); linear interpolation of the clip there; silence past the end",
    real: REAL,
    stub: STUB,
    faults: &["message_duplicated", "message_delayed", "message_lost", "read_short", "read_eintr", "extra_chunk"],
    probes: &["past_end", "speed_changed", "speed_zero", "beyond_2_24_frames", "million_samples", "last_frame_held", "loaded_from_stream"],
};

fn c09_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let huge = r.chance(0.0015);
    let n = if huge { r.range(16_700_000, 18_000_000) } else if r.chance(0.3) { r.range(1, 12) } else { r.logu(2, 30_000) };
    let (mut a, mut b) = match r.below(6) {
        0 => (0, n),
        1 => (0, r.range(1, n)),
        2 => (r.range(0, n - 1), n),
        3 => (r.range(0, n - 1), n + r.logu(1, 5000)),
        _ if huge => (n - r.logu(1, 100_000), n - r.range(-5, 5)),
        4 => {
            let e = r.range(1, n);
            (e - 1, e)
        }
        _ => {
            let x = r.range(0, n);
            let y = r.range(0, n);
            (x.min(y), x.max(y))
        }
    };
    if r.chance(0.02) {
        a = r.range(1, n + 2);
        b = a;
    }
    if r.chance(0.25) && a > 0 {
        std::mem::swap(&mut a, &mut b);
    }
    if b == 0 {
        b = 1;
    }
    let rate = some_rate(r);
    let total = if r.chance(0.1) {
        if thorough { 400_000 } else { 100_000 }
    } else if r.chance(0.0004) {
        r.logu(1_000_000, 20_000_000)
    } else {
        r.logu(50, 15_000)
    };
    let fast = r.chance(0.5);
    let mut steps = vec![];
    if r.chance(0.4) || huge {
        // reach the loop quickly
        let sp = ((a.min(n).max(1) as f64 / 30.0).max(1.0) * 48000.0 / rate as f64 * 1e6) as i64;
        steps.push(st(1, &[sp]));
        steps.push(st(0, &[31]));
        steps.push(st(1, &[some_speed(r, false)]));
    }
    steps.extend(schedule(r, total, fast));
    let sp = if r.chance(0.5) { 1_000_000 } else { some_speed(r, false) };
    let frac = if r.chance(0.3) { r.range(1, 999) } else { 0 };
    Plan { p: vec![ent, n, rate, r.seed(), if huge { 1 } else { r.pick(&[0, 1, 2, 2, 5]) }, a, b, sp, frac], steps }
}

fn c09_run(plan: &Plan, c: &mut Ctx) -> Res {
    let n = plan.par(1).clamp(1, 20_000_000);
    let rate = plan.par(2).clamp(1, 10_000_000) as f64 + plan.par(8).clamp(0, 999) as f64 / 1000.0;
    let (seed, kind) = (plan.par(3), plan.par(4));
    let a = plan.par(5).clamp(0, 1 << 40);
    // (k, 0) asks for both "exchange" and "no loop": not a defined request
    let b = plan.par(6).clamp(if a > 0 { 1 } else { 0 }, 1 << 40);
    let (ls, le) = (a.min(b), a.max(b).min(n));
    if b < a {
        c.probe("bounds_in_reverse_order");
    }
    if a.max(b) > n {
        c.probe("end_past_clip");
    }
    let lp = if le > ls { Some((ls, le)) } else { None };
    if lp.is_none() {
        c.probe("empty_loop");
    }
    let clip = Clip { n, seed, kind, lp };
    let pl = Player::R(MonoResampler::new(track(n, seed, kind), rate, a as usize, b as usize));
    play(plan, c, &clip, pl, rate, plan.par(7).clamp(0, 1_000_000_000) as f64 / 1e6)
}

pub static C09: Prop = Prop {
    id: "C09",
    params: &["ent", "frames", "rate", "seed", "kind", "loop_start", "loop_end", "speed0", "rate_milli"],
    ops: &[("run", &["n"]), ("speed", &["micro"])],
    gen: c09_gen,
    run: c09_run,
    quick: 120_000,
    thorough: 3_900_000,
    rule: "the clip was audible for more than two samples",
    oracle: "exact position wrapped into the loop by modulo; interpolation of the looped frames as a ring",
    real: REAL,
    stub: STUB,
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["wrapped", "step_longer_than_loop", "across_seam", "bounds_in_reverse_order", "end_past_clip", "empty_loop", "speed_changed", "speed_zero", "beyond_2_24_frames", "million_samples"],
};
