//! C12: the ADSR envelope against a set of reference envelopes (more than one where rounding may decide a stage change).

use crate::plan::{st, Plan, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task};
use crate::{ensure, Ctx, Prop, Res};
use bae_rs::modifiers::{Modifier, ADSR};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    Attack,
    Decay,
    Sustain,
    /// largest drop per sample, samples left, slope when the fall is exactly prescribed
    Release { drop: f64, left: f64, slope: Option<f64> },
    Stopped,
}

#[derive(Clone, Copy, Debug)]
struct Cand {
    st: Stage,
    g: f64,
}

struct Spec {
    na: f64,
    nd: f64,
    nr: f64,
    s: f64,
}

const TOL: f64 = 1e-6;

impl Spec {
    /// Envelopes one sample later.
    fn step(&self, c: &Cand, thr: f64, out: &mut Vec<Cand>) {
        match c.st {
            Stage::Attack => {
                let g = if self.na < 1.0 { 2.0 } else { c.g + 1.0 / self.na };
                if g >= 1.0 - thr {
                    out.push(Cand { st: Stage::Decay, g: 1.0 });
                }
                if g < 1.0 + thr {
                    out.push(Cand { st: Stage::Attack, g: g.min(1.0) });
                }
            }
            Stage::Decay => {
                let g = if self.nd < 1.0 { -1.0 } else { c.g - (1.0 - self.s) / self.nd };
                if g <= self.s + thr {
                    out.push(Cand { st: Stage::Sustain, g: self.s });
                }
                if g > self.s - thr {
                    out.push(Cand { st: Stage::Decay, g: g.max(self.s) });
                }
            }
            Stage::Release { drop, left, slope } => {
                out.push(Cand { st: Stage::Release { drop, left: left - 1.0, slope }, g: slope.map(|d| (c.g - d).max(0.0)).unwrap_or(c.g) })
            }
            s => out.push(Cand { st: s, g: c.g }),
        }
    }

    fn release(&self, c: &Cand) -> Cand {
        match c.st {
            Stage::Release { .. } | Stage::Stopped => *c,
            s => {
                let n = self.nr.max(1.0);
                Cand {
                    st: Stage::Release {
                        drop: c.g.max(self.s) / n,
                        left: self.nr.ceil() + 2.0,
                        slope: if s == Stage::Sustain { Some(self.s / n) } else { None },
                    },
                    g: c.g,
                }
            }
        }
    }
}

fn secs(ns: i64) -> Duration {
    Duration::from_nanos(ns.clamp(0, 7_200_000_000_000) as u64)
}

fn some_ns(r: &mut Rng, max_ms: f64) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => r.range(1, 60_000),                     // about one sample and less
        2 => r.range(1, 40) * 20_833_333 / 1000,     // a few whole samples
        3 => r.range(60_000, 600_000_000_000) ,      // up to ten minutes, seen in part only
        _ => (r.logu(1, 1000) as f64 / 1000.0 * max_ms * 1e6) as i64,
    }
}

fn gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let maxms = if thorough { 2000.0 } else { 600.0 };
    let mut a = some_ns(r, maxms);
    let mut d = some_ns(r, maxms);
    let mut rel = some_ns(r, maxms);
    // seldom: stages of minutes, played in full
    let slow = r.chance(0.0006);
    if slow {
        let v = r.logu(3_000, 250_000) * 1_000_000;
        match r.below(3) {
            0 => (a, d, rel) = (v, d.min(v), rel.min(v)),
            1 => (a, d, rel) = (a.min(v), v, rel.min(v)),
            _ => (a, d, rel) = (a.min(v), d.min(v), v),
        }
    }
    let s = match r.below(7) {
        0 => 0,
        1 => r.range(1, 20_000),
        2 => -10_000_000,
        3 => -r.range(1, 100),
        4 => -r.range(60_000, 400_000),
        _ => -r.range(100, 60_000),
    };
    let n = |ns: i64| (ns as f64 * 48e-6) as i64;
    let whole = if slow { n(a) + n(d) } else { (n(a) + n(d)).min(60_000) } + 20;
    let mut total = match r.below(4) {
        0 => r.logu(1, whole),
        1 => n(a) + r.range(-3, 3),
        2 => n(a) + n(d) + r.range(-3, 3),
        _ => whole + r.logu(1, 2000),
    };
    total = total.clamp(0, if slow { 30_000_000 } else if thorough { 300_000 } else { 80_000 });
    let net = swarm_net(r);
    let mut steps = vec![];
    if total > 0 {
        let mean = total as f64 * 2.0;
        let t = if r.chance(0.3) { vec![task(mean, |_| st(1, &[]))] } else { vec![] };
        steps = host(r, total, t, &net, 0, &[1, 32, 64, 480, 512], 20);
    }
    let mut tail = host(r, 40 + n(rel).min(100_000) * 3 / 2, vec![task(1.0 + n(rel).min(20_000) as f64 / 2.0, |_| st(1, &[]))], &net, 0, &[1, 32, 64, 480], 6);
    steps.push(st(1, &[]));
    steps.append(&mut tail);
    if n(rel) < 120_000 || slow {
        steps.push(st(0, &[n(rel) + 20]));
    }
    Plan { p: vec![ent, a, d, s, rel, r.below(3) as i64, r.seed(), if r.chance(0.7) { 0 } else { r.range(-60, 60) }], steps }
}

fn run(plan: &Plan, c: &mut Ctx) -> Res {
    let (a, d, rel) = (secs(plan.par(1)), secs(plan.par(2)), secs(plan.par(4)));
    let db = if plan.par(3) <= -9_000_000 { f64::NEG_INFINITY } else { plan.par(3).min(100_000) as f64 / 1000.0 };
    let sp = Spec {
        na: a.as_secs_f64() * 48000.0,
        nd: d.as_secs_f64() * 48000.0,
        nr: rel.as_secs_f64() * 48000.0,
        s: 10f64.powf(db.min(0.0) / 20.0),
    };
    for (n, z) in [(sp.na, "zero_attack"), (sp.nd, "zero_decay"), (sp.nr, "zero_release")] {
        if n == 0.0 {
            c.probe(z);
        }
    }
    if sp.s == 0.0 {
        c.probe("sustain_minus_infinity");
    }
    if db > 0.0 {
        c.probe("sustain_above_0_db");
    }
    c.net(plan);
    let (kind, seed) = (plan.par(5).rem_euclid(3), plan.par(6) as u64);
    let mut m = ADSR::new(a, d, db, rel);
    let mut cands = vec![Cand { st: Stage::Attack, g: 0.0 }];
    let mut next: Vec<Cand> = vec![];
    let mut n = 0u64;
    let mut released = false;
    let mut seen = [false; 5];
    // the gain is the same for every level of the signal
    let scale = 2f32.powi(plan.par(7).clamp(-60, 60) as i32);
    for s in &plan.steps {
        match s.op {
            0 => {
                for _ in 0..s.arg(0).max(0) {
                    let x: f32 = match kind {
                        0 => 1.0,
                        1 => {
                            let v = (hash2(seed, n) % 900) as f32 / 1000.0 + 0.1;
                            if hash2(seed, n) & 1024 == 0 {
                                v
                            } else {
                                -v
                            }
                        }
                        _ => {
                            if (n / 50) % 2 == 0 {
                                0.9
                            } else {
                                -0.9
                            }
                        }
                    };
                    let x = x * scale;
                    let y = m.process(x);
                    c.out(y);
                    let g = y as f64 / x as f64;
                    ensure!(g.is_finite() && g >= -1e-9 && g <= 1.0 + TOL, "gain_out_of_range", "sample {}: gain {}", n, g);
                    let thr = 1e-9 + n as f64 * 2e-16;
                    next.clear();
                    for k in &cands {
                        sp.step(k, thr, &mut next);
                    }
                    let mut late = false;
                    next.retain_mut(|k| match k.st {
                        Stage::Release { drop, left, slope } => {
                            let prev = k.g;
                            let fits = match slope {
                                Some(_) => (g - prev).abs() <= TOL,
                                None => g <= prev + TOL && (g >= prev - drop * (1.0 + 1e-9) - TOL),
                            };
                            if slope.is_none() {
                                k.g = g.min(prev);
                            }
                            if fits && left <= 0.0 && y != 0.0 {
                                late = true;
                                return false;
                            }
                            if fits && y == 0.0 && (slope.is_none() || prev <= TOL) && (prev == 0.0 || slope.is_none()) {
                                k.st = Stage::Stopped;
                                k.g = 0.0;
                            }
                            fits
                        }
                        Stage::Stopped => y == 0.0,
                        // held, so known as well as the level itself
                        Stage::Sustain => (g - k.g).abs() <= TOL * k.g + 1e-12,
                        _ => (g - k.g).abs() <= TOL,
                    });
                    // equal candidates are one
                    let mut i = 0;
                    while i < next.len() {
                        let k = next[i];
                        if next[..i].iter().any(|o| std::mem::discriminant(&o.st) == std::mem::discriminant(&k.st) && (o.g - k.g).abs() < 1e-13) {
                            next.swap_remove(i);
                        } else {
                            i += 1;
                        }
                    }
                    ensure!(
                        !next.is_empty(),
                        if late { "release_too_long" } else { "wrong_gain" },
                        "sample {}: gain {} (attack {} decay {} sustain {} release {} samples, release requested: {}); the envelope was {:?}",
                        n, g, sp.na, sp.nd, sp.s, sp.nr, released, cands
                    );
                    std::mem::swap(&mut cands, &mut next);
                    seen[match cands[0].st {
                        Stage::Attack => 0,
                        Stage::Decay => 1,
                        Stage::Sustain => 2,
                        Stage::Release { .. } => 3,
                        Stage::Stopped => 4,
                    }] = true;
                    n += 1;
                }
            }
            _ => {
                if s.tag == LOST {
                    continue;
                }
                c.probe(match cands[0].st {
                    _ if released => "released_again",
                    Stage::Attack if n == 0 => "released_before_start",
                    Stage::Attack => "released_in_attack",
                    Stage::Decay => "released_in_decay",
                    _ => "released_in_sustain",
                });
                released = true;
                m.release();
                for k in cands.iter_mut() {
                    *k = sp.release(k);
                }
            }
        }
    }
    if n > 3_000_000 {
        c.probe("over_a_minute");
    }
    if seen[4] {
        c.probe("stopped");
    }
    c.nontrivial = n > 0 && seen.iter().filter(|x| **x).count() >= 2;
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    params: &["ent", "attack_ns", "decay_ns", "sustain_mdb", "release_ns", "signal", "seed", "level_log2"],
    ops: &[("run", &["n"]), ("release", &[])],
    gen,
    run,
    quick: 110_000,
    thorough: 2_500_000,
    rule: "at least two stages of the envelope were seen",
    oracle: "set of reference envelopes in f64 (both sides of a stage change kept where rounding decides it), gain within 1e-6; release bounded in slope and length, exact from sustain",
    real: &["modifiers::ADSR"],
    stub: &["control task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "zero_attack", "zero_decay", "zero_release", "sustain_minus_infinity", "sustain_above_0_db", "released_again", "released_before_start",
        "released_in_attack", "released_in_decay", "released_in_sustain", "stopped", "over_a_minute",
    ],
};
