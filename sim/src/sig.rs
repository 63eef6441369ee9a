//! Deterministic test signals and tolerance helpers.

use crate::rng::hash2;

/// A bounded signal, |x| <= 1. Kinds: 0 impulse, 1 step, 2 white, 3 sine, 4 sparse clicks, 5 square burst, 6 silence,
/// 7 slow ramp, 8 white with gaps of silence.
pub fn signal(kind: i64, seed: i64, i: u64) -> f32 {
    let h = |k: u64| hash2(seed as u64, k);
    let u = |k: u64| ((h(k) >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0) as f32;
    match kind.rem_euclid(9) {
        0 => {
            if i == 0 {
                1.0
            } else {
                0.0
            }
        }
        1 => 1.0,
        2 => u(i),
        3 => {
            let f = 20.0 + (h(u64::MAX) % 8000) as f64;
            (2.0 * std::f64::consts::PI * f * i as f64 / 48000.0).sin() as f32
        }
        4 => {
            if h(i) % 37 == 0 {
                u(i ^ 0x55AA)
            } else {
                0.0
            }
        }
        5 => {
            let p = 3 + h(u64::MAX) % 400;
            if (i / p) % 2 == 0 {
                0.9
            } else {
                -0.9
            }
        }
        6 => 0.0,
        7 => ((i % 9600) as f32 / 4800.0) - 1.0,
        _ => {
            if h(i / 700) % 2 == 0 {
                u(i)
            } else {
                0.0
            }
        }
    }
}

/// An exactly summable value: a multiple of 1/64 with |x| <= 2.
pub fn dyadic(seed: u64, k: u64) -> f32 {
    (hash2(seed, k) % 257) as f32 / 64.0 - 2.0
}
