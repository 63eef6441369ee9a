//! Shared helpers for the workloads.

use crate::io::{act, Act};
use crate::plan::{st, Plan, Step};
use crate::rng::Rng;

/// Scripted stream reactions in a plan: all steps of kind `op` with arguments (kind, n).
pub fn script(plan: &Plan, op: usize) -> Vec<Act> {
    plan.steps.iter().filter(|s| s.op == op).map(|s| act(s.arg(0), s.arg(1))).collect()
}

/// Generate stream reactions: a swarm choice of calm, short, interrupted or both.
pub fn gen_io(r: &mut Rng, op: usize, max: i64) -> (Vec<Step>, i64) {
    let mode = r.below(5);
    let n = if mode == 0 { 0 } else { r.range(1, max) };
    let mut v = vec![];
    for _ in 0..n {
        let k = match mode {
            1 => r.below(2) as i64,
            2 => r.pick(&[0, 2]),
            3 => r.pick(&[1, 1, 2]),
            _ => r.below(3) as i64,
        };
        let len = if k == 1 { r.logu(1, 4096) } else { 0 };
        v.push(st(op, &[k, len]));
    }
    let tail = match mode {
        0 => 0,
        _ => {
            if r.chance(0.5) {
                0
            } else {
                r.logu(1, 5000)
            }
        }
    };
    (v, tail)
}

pub fn u16le(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}
pub fn u32le(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}

pub struct WavFile {
    pub tag: u16,
    pub channels: u16,
    pub rate: u32,
    pub byte_rate: u32,
    pub align: u16,
    pub bits: u16,
    pub data: Vec<u8>,
}

/// Strict parser: the bytes must be exactly one complete RIFF/WAVE file.
pub fn parse(b: &[u8]) -> Result<WavFile, String> {
    if b.len() < 12 {
        return Err(format!("only {} bytes", b.len()));
    }
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" {
        return Err("not RIFF/WAVE".into());
    }
    let size = u32le(b, 4) as usize;
    if size + 8 != b.len() {
        return Err(format!("RIFF size {} does not fit the {} bytes on the sink", size, b.len()));
    }
    let mut fmt: Option<Vec<u8>> = None;
    let mut data: Option<Vec<u8>> = None;
    let mut i = 12;
    while i < b.len() {
        if i + 8 > b.len() {
            return Err("chunk header cut off".into());
        }
        let id = &b[i..i + 4];
        let n = u32le(b, i + 4) as usize;
        let end = i + 8 + n + n % 2;
        if end > b.len() {
            return Err("chunk reaches past the end".into());
        }
        let body = b[i + 8..i + 8 + n].to_vec();
        if id == b"fmt " {
            if fmt.is_some() || n < 16 {
                return Err("bad fmt chunk".into());
            }
            fmt = Some(body);
        } else if id == b"data" {
            if data.is_some() || fmt.is_none() {
                return Err("bad data chunk".into());
            }
            data = Some(body);
        }
        i = end;
    }
    let f = fmt.ok_or("no fmt chunk")?;
    Ok(WavFile {
        tag: u16le(&f, 0),
        channels: u16le(&f, 2),
        rate: u32le(&f, 4),
        byte_rate: u32le(&f, 8),
        align: u16le(&f, 12),
        bits: u16le(&f, 14),
        data: data.ok_or("no data chunk")?,
    })
}

/// Stored integer of one sample.
pub fn stored(data: &[u8], bits: u16, i: usize) -> i64 {
    match bits {
        8 => data[i] as i64 - 128,
        16 => i16::from_le_bytes([data[2 * i], data[2 * i + 1]]) as i64,
        _ => ((i32::from_le_bytes([0, data[3 * i], data[3 * i + 1], data[3 * i + 2]])) >> 8) as i64,
    }
}

/// Full-scale integer of a bit depth (the divisor from stored integers to samples).
pub fn full_scale(bits: u16) -> f64 {
    match bits {
        8 => 128.0,
        16 => 32767.0,
        _ => 8388607.0,
    }
}
