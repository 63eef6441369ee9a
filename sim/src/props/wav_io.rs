//! C01..C05: saving and loading WAV streams over unreliable byte streams and storage.

use super::common::*;
use crate::io::{SimSink, SimSource, SinkFail};
use crate::os;
use crate::plan::{st, Plan};
use crate::rng::{hash2, Rng};
use crate::{ensure, fail, Ctx, Prop, Res};
use bae_rs::utils::{read_wav, write_wav};

const MAXCH: i64 = 70_000;

/// Sample i of channel c of a recording.
fn sample(kind: i64, seed: i64, c: usize, i: usize, wide: bool) -> f32 {
    let h = hash2(seed as u64 ^ (c as u64) << 40, i as u64);
    let u = (h >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
    let x = match kind.rem_euclid(6) {
        0 => u,
        1 => [0.0, 1.0, -1.0, 0.5, -0.5, 1.0 / 32767.0, -1.0 / 128.0, 1e-9][(h % 8) as usize],
        2 => (i as f64 * 0.01 * (1.0 + c as f64)).sin(),
        3 => u * 1e-3,
        4 => u.signum(),
        _ => u * u * u,
    };
    let x = if wide {
        match h % 5 {
            0 => x * 3.0,
            1 => x * 1e9,
            2 if h % 7 == 0 => x.signum() * f64::INFINITY,
            _ => x,
        }
    } else {
        x
    };
    x as f32
}

/// A recording of some kind of signal, which may fill only a part of it.
fn recording(kind: i64, seed: i64, ch: usize, len: usize, wide: bool) -> Vec<Vec<f32>> {
    let (kind, shape) = (kind.rem_euclid(6), (kind / 6).rem_euclid(8));
    let part = hash2(seed as u64, 5) as usize;
    let one = |c: usize, i: usize| match shape {
        1 if i < part % (len + 1) => 0.0,
        2 if i >= part % (len + 1) => 0.0,
        3 => [0.0, -0.0][part % 2],
        4 => sample(kind, seed, c, 0, wide),
        5 => sample(kind, seed, 0, i, wide),
        6 if c == part % ch => 0.0,
        7 if i != part % len.max(1) => 0.0,
        _ => sample(kind, seed, c, i, wide),
    };
    (0..ch).map(|c| (0..len).map(|i| one(c, i)).collect()).collect()
}

fn pick_kind(r: &mut Rng) -> i64 {
    let kind = r.below(6) as i64;
    kind + if r.chance(0.2) { 6 * r.range(1, 7) } else { 0 }
}

/// Does the stored integer represent the sample? `x` is already clamped.
fn quantised_ok(q: i64, x: f64, bits: u16) -> bool {
    let (e, tol) = match bits {
        8 => ((x * 128.0).min(127.0), 0.51),
        16 => (x * 32767.0, 0.51),
        _ => (x * 8388607.0, 1.0),
    };
    (q as f64 - e).abs() <= tol
}

fn depth(bps: i64) -> u16 {
    bps.clamp(0, 65535) as u16
}

fn representable(ch: usize, bps: u16) -> bool {
    ch * (bps as usize / 8) <= 65535
}

/// Mostly ordinary layouts, now and then a very wide one.
fn pick_channels(r: &mut Rng) -> i64 {
    if r.chance(0.06) {
        r.pick(&[15, 17, 31, 33, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4096, 8191, 10000])
    } else {
        r.pick(&[1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 16])
    }
}

/// Mostly short recordings, now and then one of 64 Ki samples and more.
fn pick_len(r: &mut Rng, big: i64) -> i64 {
    if r.chance(0.00025) {
        // a minute and more; past 2^24 samples
        if r.chance(0.05) {
            (1 << 24) + r.range(0, 2)
        } else {
            r.pick(&[999_999, (1 << 20) - 1, 1 << 20, (1 << 21) + 1, 2_880_000, 5_592_406]) + r.range(0, 1)
        }
    } else if r.chance(0.15) {
        r.range(0, 3)
    } else if r.chance(0.012) {
        r.pick(&[32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 100_000, 131_073]) + r.range(0, 1)
    } else {
        r.logu(1, big)
    }
}

const MAXLEN: i64 = 17_000_000;

/// Samples per channel that still make a case of tolerable size.
fn cap_len(len: i64, ch: i64) -> i64 {
    let ch = ch.max(1);
    len.min(if len > 200_000 && ch <= 8 { MAXLEN / ch } else { 4.max(20_000 / ch).max(if ch < 3 { 200_000 } else { 0 }) })
}

fn pick_bps(r: &mut Rng) -> i64 {
    r.pick(&[8, 16, 24])
}

// ---- C01 --------------------------------------------------------------------------------------------------------

fn gen01(r: &mut Rng, thorough: bool) -> Plan {
    let mut bps = pick_bps(r);
    let mut ch = pick_channels(r);
    let mut len = pick_len(r, if thorough { 20000 } else { 3000 });
    let (mut odd, mut odd_by) = (-1, 0);
    if r.chance(0.15) {
        match r.below(4) {
            0 => ch = 0,
            1 => bps = r.pick(&[0, 1, 4, 7, 9, 12, 15, 17, 20, 23, 25, 32, 40, 48, 64, 65535, 65528, 264, 272, 280]),
            2 => {
                ch = ch.max(2);
                odd = r.range(0, ch - 1);
                odd_by = r.pick(&[-1, 1, -2, 2, 7, -100000]);
            }
            _ => {
                ch = r.pick(&[65535, 65536, 65537, 32767, 32768, 32769, 21845, 21846, 22000, 43690, 40000, 60000]);
                len = r.range(0, 2);
            }
        }
    }
    let clip = r.chance(0.6) as i64;
    let (steps, tail) = gen_io(r, 0, 12);
    Plan { p: vec![r.seed(), ch, len, bps, clip, pick_kind(r), r.seed() & 0xFFFF, odd, odd_by, tail], steps }
}

struct Req {
    tracks: Vec<Vec<f32>>,
    bps: u16,
    clip: bool,
    valid: bool,
    ch: usize,
    len: usize,
}

fn request(plan: &Plan) -> Req {
    let ch = plan.par(1).clamp(0, MAXCH) as usize;
    let mut len = plan.par(2).clamp(0, MAXLEN) as usize;
    if ch > 16 {
        len = len.min(4.max(20_000 / ch));
    } else if len > 200_000 {
        len = len.min(MAXLEN as usize / ch.max(1));
    }
    let bps = depth(plan.par(3));
    let clip = plan.par(4) != 0;
    let mut tracks = recording(plan.par(5), plan.par(6), ch, len, clip);
    let mut even = true;
    let odd = plan.par(7);
    if odd >= 0 && ch > 1 {
        let o = odd as usize % ch;
        let want = (len as i64 + plan.par(8)).clamp(0, MAXLEN) as usize;
        if want != len {
            even = false;
            tracks[o].resize(want, 0.25);
        }
    }
    let valid = ch > 0 && even && matches!(bps, 8 | 16 | 24) && representable(ch, bps);
    Req { tracks, bps, clip, valid, ch, len }
}

fn run01(plan: &Plan, c: &mut Ctx) -> Res {
    let q = request(plan);
    let mut sink = SimSink::new(script(plan, 0), plan.par(9).clamp(0, 1 << 20) as usize, SinkFail::None);
    let r = write_wav(q.tracks.clone(), q.bps, &mut sink, q.clip);
    sink.count(c);
    c.bytes(&sink.bytes);
    c.samples += q.len as u64;
    c.nontrivial = !q.valid || sink.shorts + sink.intrs > 0;
    if !q.valid {
        c.probe("invalid_request");
        ensure!(r.is_err(), "accepted-invalid", "{} channels, {} bits, lengths equal: {}: reported success", q.ch, q.bps, plan.par(7) < 0);
        ensure!(sink.bytes.is_empty(), "wrote-invalid", "{} bytes written for a request that was refused", sink.bytes.len());
        return Ok(());
    }
    if let Err(e) = &r {
        // short writes and interruptions are no failure
        ensure!(sink.failed, "refused-valid", "{} channels x {} samples at {} bits refused: {}", q.ch, q.len, q.bps, e);
        return Ok(());
    }
    let f = match parse(&sink.bytes) {
        Ok(f) => f,
        Err(e) => fail!("malformed", "success reported, but the sink holds no complete file: {}", e),
    };
    ensure!(
        sink.flushed_at == Some(sink.bytes.len()),
        "not-flushed",
        "success reported, but the sink was not flushed after the last byte ({:?} of {})",
        sink.flushed_at,
        sink.bytes.len()
    );
    ensure!(
        f.tag == 1 && f.channels as usize == q.ch && f.rate == 48000 && f.bits == q.bps,
        "header",
        "header says format {} channels {} rate {} bits {}",
        f.tag, f.channels, f.rate, f.bits
    );
    let align = q.ch * q.bps as usize / 8;
    ensure!(f.align as usize == align && f.byte_rate as usize == align * 48000, "header", "align {} byte rate {}", f.align, f.byte_rate);
    ensure!(f.data.len() == align * q.len, "length", "{} data bytes for {} frames of {} bytes", f.data.len(), q.len, align);
    for i in 0..q.len {
        for (k, t) in q.tracks.iter().enumerate() {
            let x = if q.clip { (t[i] as f64).clamp(-1.0, 1.0) } else { t[i] as f64 };
            let s = stored(&f.data, q.bps, i * q.ch + k);
            ensure!(quantised_ok(s, x, q.bps), "sample", "channel {} sample {}: {} stored as {} at {} bits", k, i, t[i], s, q.bps);
        }
    }
    if q.bps == 24 && f.data.len() % 2 == 1 {
        c.probe("odd_length_24_bit");
    }
    if q.ch > 1000 {
        c.probe("very_many_channels");
    }
    if q.len == 0 {
        c.probe("empty_recording");
    }
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    params: &["ent", "channels", "len", "bits", "clip", "kind", "sigseed", "odd_channel", "odd_by", "tail"],
    ops: &[("write", &["kind", "n"])],
    gen: gen01,
    run: run01,
    quick: 140_000,
    thorough: 5_600_000,
    rule: "at least one write was shortened or interrupted, or the request was one that must be refused",
    oracle: "independent WAV parser over the accepted bytes; quantisation recomputed in f64; flush position",
    real: &["bae_rs::utils::write_wav", "sample_format quantisers", "wav and riff crates"],
    stub: &["the sink (simulated: short writes, EINTR)"],
    faults: &["write_short", "write_eintr"],
    probes: &["invalid_request", "odd_length_24_bit", "very_many_channels", "empty_recording"],
};

// ---- C02 --------------------------------------------------------------------------------------------------------

fn gen02(r: &mut Rng, _thorough: bool) -> Plan {
    let bps = pick_bps(r);
    let ch = pick_channels(r);
    let len = cap_len(pick_len(r, 2000), ch);
    let total = 44 + ch * len * bps / 8;
    let total = total + total % 2;
    let at = match r.below(5) {
        0 => r.range(0, 48),
        1 => total - r.range(0, 3.min(total)),
        2 => total,
        _ => r.range(0, total),
    };
    let mode = r.pick(&[1, 1, 1, 2, 2, 3, 3, 4, 5, 0]);
    let flush_intr = if mode == 0 { r.range(1, 4) } else if r.chance(0.3) { r.range(1, 4) } else { 0 };
    let (steps, tail) = gen_io(r, 0, 10);
    Plan { p: vec![r.seed(), ch, len, bps, 1, pick_kind(r), r.seed() & 0xFFFF, -1, 0, tail, mode, at, r.below(crate::io::KINDS as u64) as i64, r.below(2) as i64, flush_intr], steps }
}

fn run02(plan: &Plan, c: &mut Ctx) -> Res {
    let q = request(plan);
    if !q.valid {
        return Ok(());
    }
    let mut perfect = SimSink::perfect();
    let r = write_wav(q.tracks.clone(), q.bps, &mut perfect, q.clip);
    ensure!(r.is_ok(), "refused-valid", "a perfect sink was refused: {:?}", r);
    let whole = perfect.bytes;
    let at = plan.par(11).clamp(0, 1 << 30) as usize;
    let mode = match plan.par(10).rem_euclid(6) {
        0 => SinkFail::None,
        1 => SinkFail::Err(at, plan.par(12)),
        2 => SinkFail::Zero(at),
        3 => SinkFail::Flush(plan.par(12)),
        5 => SinkFail::FlushOnce(plan.par(12)),
        _ => SinkFail::Once(at, plan.par(12)),
    };
    let mut sink = SimSink::new(script(plan, 0), plan.par(9).clamp(0, 1 << 20) as usize, mode);
    sink.lenient_flush = plan.par(13) == 1;
    sink.flush_intr = plan.par(14).clamp(0, 50);
    let r = write_wav(q.tracks, q.bps, &mut sink, q.clip);
    sink.count(c);
    c.bytes(&sink.bytes);
    c.word(r.is_ok() as u64);
    c.samples += q.len as u64;
    ensure!(
        sink.bytes.len() <= whole.len() && sink.bytes[..] == whole[..sink.bytes.len()],
        "not-a-prefix",
        "the {} bytes on the failed sink are not a prefix of the file of {} bytes",
        sink.bytes.len(),
        whole.len()
    );
    let must_fail = match mode {
        SinkFail::Err(..) | SinkFail::Zero(_) => sink.failed || at < whole.len(),
        SinkFail::Flush(_) => true,
        // it may be tried again
        SinkFail::Once(..) => sink.bytes.len() < whole.len(),
        SinkFail::FlushOnce(_) => sink.flushed_at != Some(whole.len()),
        SinkFail::None => false,
    };
    if must_fail {
        c.nontrivial = true;
        ensure!(r.is_err(), "false-success", "success reported although the sink failed ({:?}) with {} of {} bytes accepted", mode, sink.bytes.len(), whole.len());
        if sink.bytes.len() == whole.len() {
            c.probe("failed_after_last_byte");
        }
        if sink.bytes.len() < 44 {
            c.probe("failed_inside_header");
        }
    } else if r.is_ok() {
        ensure!(sink.bytes.len() == whole.len(), "incomplete", "success with {} of {} bytes", sink.bytes.len(), whole.len());
        ensure!(sink.flushed_at == Some(whole.len()), "unflushed", "success, but no flush of the whole file succeeded ({} attempts)", sink.flushes);
        c.probe("fault_beyond_the_end");
    } else {
        ensure!(sink.intrs > 0 || sink.failed, "refused-valid", "refused without any failure: {:?}", r);
    }
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    params: &["ent", "channels", "len", "bits", "clip", "kind", "sigseed", "odd_channel", "odd_by", "tail", "fail_mode", "fail_at", "error", "flush_succeeds", "flush_interrupts"],
    ops: &[("write", &["kind", "n"])],
    gen: gen02,
    run: run02,
    quick: 190_000,
    thorough: 11_000_000,
    rule: "the sink failed for good during the save",
    oracle: "the run over a perfect sink is the reference: accepted bytes must be its prefix, the result must be an error, calls after the failure are bounded",
    real: &["bae_rs::utils::write_wav", "wav and riff crates"],
    stub: &["the sink (simulated: I/O error, disk full, zero-length writes, failing flush, short writes, EINTR)"],
    faults: &["write_error", "write_enospc", "write_zero", "flush_error", "flush_error_once", "write_error_once", "write_short", "write_eintr"],
    probes: &["failed_after_last_byte", "failed_inside_header", "fault_beyond_the_end"],
};

// ---- files for C03, C04 -----------------------------------------------------------------------------------------

struct Spec {
    ch: usize,
    bits: u16,
    rate: u32,
    frames: usize,
    seed: i64,
    fmt_len: usize,
}

fn raw(spec: &Spec, i: usize) -> i64 {
    let span = 1i64 << spec.bits;
    let half = span / 2;
    // zero as a byte, or silence
    let nought = if spec.seed & 1 == 0 && spec.bits == 8 { -half } else { 0 };
    let part = hash2(spec.seed as u64, 5) as usize % (spec.frames + 1);
    let mut at = i;
    match spec.seed >> 16 & 7 {
        1 if i / spec.ch < part => return nought,
        2 if i / spec.ch >= part => return nought,
        3 => return nought,
        4 => at = 0,
        5 => at = i / spec.ch,
        // text as it stands in files, at odd and even places
        6 => {
            let text = b"fmt data\0\0\0\0RIFF";
            let n = spec.bits as usize / 8;
            let v = (0..n).fold(0i64, |v, k| v | (text[(i * n + k) % text.len()] as i64) << (8 * k));
            return if spec.bits == 8 { v - half } else if v >= half { v - span } else { v };
        }
        7 => return -1,
        _ => {}
    }
    let h = hash2(spec.seed as u64, at as u64);
    match h % 16 {
        0 => -half,
        1 => half - 1,
        2 => 0,
        3 => -1,
        4 => 1,
        _ => ((h >> 8) % span as u64) as i64 - half,
    }
}

fn spec(plan: &Plan) -> Spec {
    let ch = plan.par(1).clamp(1, 21_845) as usize;
    let bits = [8u16, 16, 24][plan.par(2).rem_euclid(3) as usize];
    Spec {
        ch,
        bits,
        // the header stores bytes per second in 32 bits
        rate: plan.par(3).clamp(1, 400_000).min(u32::MAX as i64 / (ch as i64 * bits as i64 / 8)) as u32,
        frames: (plan.par(4).clamp(0, MAXLEN) as usize).min(if ch <= 8 { MAXLEN as usize / ch } else { 400_000 / ch }),
        seed: plan.par(5),
        fmt_len: [16, 18][plan.par(6).rem_euclid(2) as usize],
    }
}

// chunk identifiers are four arbitrary bytes, and case matters
const IDS: [&[u8; 4]; 20] = [
    b"LIST", b"JUNK", b"fact", b"cue ", b"bext", b"PEAK", b"id3 ", b"smpl", b"inst", b"PAD ", b"LIST", b"_PMX", b"DATA", b"FMT ", b"RIFF", b"WAVE", b"\0\0\0\0",
    b"\xff\xfe\x80\x81", b"dat\0", b"fmt\0",
];

fn chunk(out: &mut Vec<u8>, id: &[u8], body: &[u8]) {
    out.extend_from_slice(id);
    out.extend_from_slice(&(body.len() as u32).to_le_bytes());
    out.extend_from_slice(body);
    if body.len() % 2 == 1 {
        out.push(0);
    }
}

fn extra(out: &mut Vec<u8>, id: i64, n: i64, seed: u64) {
    let id = IDS[id.rem_euclid(IDS.len() as i64) as usize];
    let n = n.clamp(0, 3_000_000) as usize;
    if id == b"LIST" {
        let mut body = if n % 3 == 0 { b"adtl".to_vec() } else { b"INFO".to_vec() };
        let mut k = 0;
        while body.len() < n {
            let sub: &[u8] = match hash2(seed, k) % 6 {
                0 => b"INAM",
                1 => b"IART",
                2 => b"labl",
                3 => b"note",
                4 => b"data",
                _ => b"fmt ",
            };
            let m = (hash2(seed, k + 1000) % 40) as usize;
            let b: Vec<u8> = (0..m).map(|i| (hash2(seed + 7, i as u64) >> 3) as u8).collect();
            chunk(&mut body, sub, &b);
            k += 1;
        }
        chunk(out, id, &body);
    } else {
        let b: Vec<u8> = (0..n).map(|i| (hash2(seed, i as u64) >> 5) as u8).collect();
        chunk(out, id, &b);
    }
}

/// Encode a well-formed file; extras: (place 0 before fmt, 1 between fmt and data, 2 after data, id, length).
fn encode(s: &Spec, extras: &[(i64, i64, i64)]) -> Vec<u8> {
    let mut body = b"WAVE".to_vec();
    let put = |body: &mut Vec<u8>, place: i64| {
        for (k, e) in extras.iter().enumerate() {
            if e.0.rem_euclid(3) == place {
                extra(body, e.1, e.2, hash2(s.seed as u64, k as u64 + 99));
            }
        }
    };
    put(&mut body, 0);
    let mut f = vec![];
    let align = s.ch * s.bits as usize / 8;
    f.extend_from_slice(&1u16.to_le_bytes());
    f.extend_from_slice(&(s.ch as u16).to_le_bytes());
    f.extend_from_slice(&s.rate.to_le_bytes());
    f.extend_from_slice(&(align as u32 * s.rate).to_le_bytes());
    f.extend_from_slice(&(align as u16).to_le_bytes());
    f.extend_from_slice(&s.bits.to_le_bytes());
    f.resize(s.fmt_len, 0);
    chunk(&mut body, b"fmt ", &f);
    put(&mut body, 1);
    let mut d = vec![];
    for i in 0..s.frames * s.ch {
        let v = raw(s, i);
        match s.bits {
            8 => d.push((v + 128) as u8),
            16 => d.extend_from_slice(&(v as i16).to_le_bytes()),
            _ => d.extend_from_slice(&(v as i32).to_le_bytes()[..3]),
        }
    }
    chunk(&mut body, b"data", &d);
    put(&mut body, 2);
    let mut out = b"RIFF".to_vec();
    out.extend_from_slice(&(body.len() as u32).to_le_bytes());
    out.extend_from_slice(&body);
    out
}

fn extras(plan: &Plan, op: usize) -> Vec<(i64, i64, i64)> {
    plan.steps.iter().filter(|s| s.op == op).map(|s| (s.arg(0), s.arg(1), s.arg(2))).collect()
}

fn gen_file(r: &mut Rng, big: i64) -> Vec<i64> {
    let ch = pick_channels(r);
    let frames = cap_len(pick_len(r, big), ch);
    let rate = r.pick(&[48000, 44100, 8000, 96000, 22050, 11025, 192000, 1, 44101]);
    let seed = r.seed() & 0xFFFF;
    let content = if r.chance(0.25) { r.range(1, 7) } else { 0 };
    vec![r.seed(), ch, r.below(3) as i64, rate, frames, seed | content << 16, r.chance(0.3) as i64]
}

fn gen_extras(r: &mut Rng, op: usize, steps: &mut Vec<crate::plan::Step>) {
    if r.chance(0.5) {
        let most = if r.chance(0.004) { r.logu(10, 3000) } else { 4 };
        for _ in 0..r.range(1, most) {
            steps.push(st(op, &[r.below(3) as i64, r.below(IDS.len() as u64) as i64, if r.chance(0.3) { r.range(0, 3) } else if r.chance(0.001) { r.logu(1000, 3_000_000) } else { r.logu(1, 600) }]));
        }
    }
}

// ---- C03 --------------------------------------------------------------------------------------------------------

fn gen03(r: &mut Rng, thorough: bool) -> Plan {
    let mut p = gen_file(r, if thorough { 8000 } else { 1500 });
    let (mut steps, tail) = gen_io(r, 0, 12);
    gen_extras(r, 1, &mut steps);
    p.push(tail);
    p.push(if r.chance(0.5) { 0 } else { r.logu(1, 3000) });
    Plan { p, steps }
}

fn run03(plan: &Plan, c: &mut Ctx) -> Res {
    let s = spec(plan);
    let ex = extras(plan, 1);
    let mut bytes = encode(&s, &ex);
    let len = bytes.len();
    let trailing = plan.par(8).clamp(0, 10_000) as usize;
    for i in 0..trailing {
        bytes.push(hash2(s.seed as u64 ^ 77, i as u64) as u8);
    }
    let mut src = SimSource::new(bytes, script(plan, 0), plan.par(7).clamp(0, 1 << 20) as usize, None);
    let r = read_wav(&mut src);
    src.count(c);
    c.faults("extra_chunk", ex.len() as u64);
    if trailing > 0 {
        c.fault("trailing_bytes");
    }
    c.samples += s.frames as u64;
    c.nontrivial = src.shorts + src.intrs > 0 || !ex.is_empty() || trailing > 0;
    let (h, t) = match r {
        Ok(x) => x,
        Err(e) => fail!("refused", "a well-formed file ({} channels, {} bits, {} frames, {} extra chunks) was refused: {}", s.ch, s.bits, s.frames, ex.len(), e),
    };
    ensure!(src.pos <= len, "overread", "{} bytes after the end of the file were consumed", src.pos - len);
    let align = s.ch * s.bits as usize / 8;
    ensure!(
        h.audio_format == 1
            && h.channel_count as usize == s.ch
            && h.sampling_rate == s.rate
            && h.bits_per_sample == s.bits
            && h.bytes_per_sample as usize == align
            && h.bytes_per_second == align as u32 * s.rate,
        "header",
        "header read as {:?}, stored {} channels {} Hz {} bits",
        h, s.ch, s.rate, s.bits
    );
    ensure!(t.len() == s.ch, "channels", "{} tracks for {} channels", t.len(), s.ch);
    let fs = full_scale(s.bits);
    let tol = if s.bits == 24 { 0.6 } else { 0.3 } / fs;
    for (k, tr) in t.iter().enumerate() {
        ensure!(tr.len() == s.frames, "length", "channel {} has {} of {} frames", k, tr.len(), s.frames);
        for (i, y) in tr.iter().enumerate() {
            let v = raw(&s, i * s.ch + k);
            c.word(y.to_bits() as u64);
            ensure!((*y as f64 - v as f64 / fs).abs() <= tol, "sample", "channel {} frame {}: stored {} of {} bits, loaded {}", k, i, v, s.bits, y);
        }
    }
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    params: &["ent", "channels", "depth", "rate", "frames", "sigseed", "fmt_ext", "tail", "trailing"],
    ops: &[("read", &["kind", "n"]), ("chunk", &["place", "id", "len"])],
    gen: gen03,
    run: run03,
    quick: 370_000,
    thorough: 22_000_000,
    rule: "a read was shortened or interrupted, or the file carries additional chunks or is followed by other bytes",
    oracle: "independent WAV encoder: every loaded sample is compared with the integer that was stored; source position after the call",
    real: &["bae_rs::utils::read_wav", "sample_format scalers", "wav and riff crates"],
    stub: &["the source (simulated: short reads, EINTR)"],
    faults: &["read_short", "read_eintr", "extra_chunk", "trailing_bytes"],
    probes: &[],
};

// ---- C04 --------------------------------------------------------------------------------------------------------

fn gen04(r: &mut Rng, thorough: bool) -> Plan {
    let mut p = gen_file(r, if thorough { 4000 } else { 600 });
    let (mut steps, tail) = gen_io(r, 0, 6);
    gen_extras(r, 1, &mut steps);
    let mode = r.below(8) as i64;
    p.push(tail);
    p.push(mode);
    // where it is cut or fails, in 1/65536 of the file, and an absolute offset
    let (frac, off) = match r.below(4) {
        0 => (0, r.range(0, 60)),
        1 => (65536, -r.range(1, 20)),
        _ => (r.range(0, 65535), 0),
    };
    p.push(frac);
    p.push(off);
    p.push(r.below(crate::io::KINDS as u64) as i64);
    if (2..6).contains(&mode) {
        let n = r.range(1, 6);
        for _ in 0..n {
            // (offset, value, kind): most of them inside the structure
            let at = if r.chance(0.7) { r.range(0, 60) } else { r.range(0, 4000) };
            let v = r.pick(&[0, 1, 0xFF, 0x7F, 0x80, 0xFE, 3, 17]);
            let kind = r.below(5) as i64;
            steps.push(st(2, &[at, if r.chance(0.5) { v } else { r.range(0, 255) }, kind]));
        }
    }
    if mode == 5 {
        p.push(r.pick(&[1, 3, 40, 5000, 60_000]));
    } else {
        p.push(0);
    }
    Plan { p, steps }
}

fn nested(depth: usize, seed: u64) -> Vec<u8> {
    let mut b = b"RIFF\xff\xff\xff\x7fWAVE".to_vec();
    for i in 0..depth {
        b.extend_from_slice(match hash2(seed, i as u64 / 1000) % 3 {
            0 => b"LIST",
            1 => b"RIFF",
            _ => b"seqt",
        });
        b.extend_from_slice(&0x7fff_ffffu32.to_le_bytes());
        b.extend_from_slice(b"adtl");
    }
    b
}

fn run04(plan: &Plan, c: &mut Ctx) -> Res {
    let s = spec(plan);
    let mode = plan.par(8).rem_euclid(8);
    let mut bytes = match mode {
        5 => nested(plan.par(12).clamp(0, 100_000) as usize, s.seed as u64),
        4 => {
            // grammar-generated structure with arbitrary sizes
            let mut b = b"RIFF".to_vec();
            b.extend_from_slice(&(hash2(s.seed as u64, 1) as u32).to_le_bytes());
            b.extend_from_slice(b"WAVE");
            for k in 0..(hash2(s.seed as u64, 2) % 7) {
                let h = hash2(s.seed as u64, 100 + k);
                let id: &[u8; 4] = [b"fmt ", b"data", b"LIST", b"RIFF", b"\xff\xfe\xfd\xfc", b"junk", b"fmt "][(h % 7) as usize];
                b.extend_from_slice(id);
                let n = [(h >> 8) as u32 % 64, 16, 18, 0, u32::MAX, 0x7fff_ffff, 15, 17][(h >> 40) as usize % 8];
                b.extend_from_slice(&n.to_le_bytes());
                for i in 0..(n % 64) as u64 {
                    b.push(if id == b"fmt " && i < 2 { (i == 0) as u8 } else { hash2(h, i) as u8 });
                }
            }
            b
        }
        _ => encode(&s, &extras(plan, 1)),
    };
    let whole = bytes.len();
    let cut = ((whole as i64 * plan.par(9).clamp(0, 65536)) >> 16).saturating_add(plan.par(10)).clamp(0, whole as i64) as usize;
    let mut fail = None;
    match mode {
        0 => {
            bytes.truncate(cut);
            if cut < whole {
                c.fault("truncated");
            }
        }
        1 | 6 | 7 => fail = Some((cut, plan.par(11))),
        _ => {
            for st in plan.steps.iter().filter(|s| s.op == 2) {
                let n = bytes.len();
                if n == 0 {
                    break;
                }
                let i = st.arg(0).rem_euclid(n as i64) as usize;
                let v = st.arg(1) as u8;
                c.fault("corrupted");
                match st.arg(2).rem_euclid(5) {
                    0 => bytes[i] = v,
                    1 => bytes[i] ^= 1 << (v & 7),
                    2 => bytes.insert(i, v),
                    3 => {
                        bytes.remove(i);
                    }
                    _ => {
                        for j in i..(i + 4).min(n) {
                            bytes[j] = v;
                        }
                    }
                }
            }
        }
    }
    let given = bytes.len();
    let reference = if mode >= 6 { read_wav(&mut bytes.as_slice()).ok() } else { None };
    let mut src = SimSource::new(bytes, script(plan, 0), plan.par(7).clamp(0, 1 << 20) as usize, fail);
    (src.once, src.ends) = (mode >= 6, mode == 7);
    let base = os::mark();
    os::limit(1 << 30);
    let r = read_wav(&mut src);
    os::unlimit();
    let peak = os::peak().saturating_sub(base);
    src.count(c);
    c.word(r.is_ok() as u64);
    c.samples += s.frames as u64;
    let delivered = src.pos as u64;
    ensure!(peak <= 64 * delivered + (4 << 20), "memory", "{} bytes reserved for a source that delivered {} bytes", peak, delivered);
    match mode {
        0 if cut < whole => {
            c.nontrivial = true;
            ensure!(r.is_err(), "partial", "{} of {} bytes were delivered, yet loading succeeded", given, whole);
        }
        1 if cut < whole => {
            c.nontrivial = true;
            ensure!(r.is_err(), "partial", "the source failed after {} of {} bytes, yet loading succeeded", cut, whole);
        }
        6 | 7 if cut < whole => {
            c.nontrivial = true;
            // it may be tried again, but nothing may be missing then
            if let (Ok((h, t)), Some((h0, t0))) = (&r, &reference) {
                ensure!(t == t0 && h.channel_count == h0.channel_count && h.sampling_rate == h0.sampling_rate && h.bits_per_sample == h0.bits_per_sample, "partial", "the source failed once after {} of {} bytes, yet loading succeeded with something else than the stored audio", cut, whole);
            }
        }
        0 | 1 | 6 | 7 => ensure!(r.is_ok() || src.intrs > 0, "refused", "an undamaged file was refused: {:?}", r.err()),
        _ => {
            c.nontrivial = true;
            match &r {
                Ok((h, t)) => {
                    c.probe("damaged_but_loaded");
                    ensure!(t.len() == h.channel_count as usize, "channels", "{} tracks, header says {}", t.len(), h.channel_count);
                    let n: usize = t.iter().map(|t| t.len()).sum();
                    ensure!(n as u64 <= delivered, "invented", "{} samples out of {} bytes", n, delivered);
                }
                Err(_) => c.probe("damaged_and_refused"),
            }
            if mode == 5 {
                c.probe("deep_nesting");
            }
        }
    }
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    params: &["ent", "channels", "depth", "rate", "frames", "sigseed", "fmt_ext", "tail", "mode", "cut_64k", "cut_off", "error", "nest"],
    ops: &[("read", &["kind", "n"]), ("chunk", &["place", "id", "len"]), ("damage", &["at", "value", "kind"])],
    gen: gen04,
    run: run04,
    quick: 740_000,
    thorough: 24_000_000,
    rule: "the file was cut short, the source failed before its end, or bytes were corrupted, inserted, removed or hostile",
    oracle: "truncation or failure before the last byte must give an error; otherwise termination without panic, stack overflow or allocation beyond 64 x delivered + 4 MB",
    real: &["bae_rs::utils::read_wav", "wav and riff crates"],
    stub: &["the source (simulated)", "the allocator (counting, 1 GB budget)"],
    faults: &["truncated", "read_error", "read_error_once", "read_ended_once", "corrupted", "read_short", "read_eintr"],
    probes: &["damaged_but_loaded", "damaged_and_refused", "deep_nesting"],
};

// ---- C05 --------------------------------------------------------------------------------------------------------

fn gen05(r: &mut Rng, thorough: bool) -> Plan {
    let ch = pick_channels(r);
    let len = pick_len(r, if thorough { 6000 } else { 1200 });
    let (mut steps, tail) = gen_io(r, 0, 8);
    for _ in 0..r.range(1, 8) {
        let (f, o) = match r.below(3) {
            0 => (0, r.range(0, 50)),
            1 => (65536, -r.range(0, 6)),
            _ => (r.range(0, 65535), r.range(0, 3)),
        };
        steps.push(st(1, &[f, o]));
    }
    Plan { p: vec![r.seed(), ch, len, pick_bps(r), 0, pick_kind(r), r.seed() & 0xFFFF, -1, 0, tail], steps }
}

fn run05(plan: &Plan, c: &mut Ctx) -> Res {
    let mut q = request(plan);
    if !q.valid {
        return Ok(());
    }
    q.clip = false;
    for t in q.tracks.iter_mut() {
        for x in t.iter_mut() {
            *x = x.clamp(-1.0, 1.0);
        }
    }
    let mut sink = SimSink::new(script(plan, 0), plan.par(9).clamp(0, 1 << 20) as usize, SinkFail::None);
    let r = write_wav(q.tracks.clone(), q.bps, &mut sink, q.clip);
    sink.count(c);
    c.samples += q.len as u64;
    if r.is_err() {
        ensure!(sink.intrs > 0, "refused", "saving failed on a working disk: {:?}", r);
        return Ok(());
    }
    let disk = sink.bytes;
    let load = |n: usize| {
        let mut src = SimSource::new(disk[..n].to_vec(), vec![], 0, None);
        read_wav(&mut src)
    };
    for s in plan.steps.iter().filter(|s| s.op == 1) {
        let n = ((disk.len() as i64 * s.arg(0).clamp(0, 65536)) >> 16).saturating_add(s.arg(1)).clamp(0, disk.len() as i64) as usize;
        if n == disk.len() {
            continue;
        }
        c.fault("power_cut");
        c.nontrivial = true;
        let r = load(n);
        ensure!(r.is_err(), "partial", "{} of {} bytes survived the power cut, yet loading succeeded", n, disk.len());
    }
    let (h, t) = match load(disk.len()) {
        Ok(x) => x,
        Err(e) => fail!("lost", "a completely saved recording ({} x {} at {} bits) does not load: {}", q.ch, q.len, q.bps, e),
    };
    ensure!(h.channel_count as usize == q.ch && h.sampling_rate == 48000 && h.bits_per_sample == q.bps, "header", "{:?}", h);
    ensure!(t.len() == q.ch, "channels", "{} tracks for {} channels", t.len(), q.ch);
    let step = 1.0 / full_scale(q.bps);
    for k in 0..q.ch {
        ensure!(t[k].len() == q.len, "length", "channel {}: {} of {} samples", k, t[k].len(), q.len);
        for i in 0..q.len {
            let (a, b) = (q.tracks[k][i] as f64, t[k][i] as f64);
            c.word(t[k][i].to_bits() as u64);
            ensure!((a - b).abs() <= step * 1.02, "sample", "channel {} sample {}: saved {}, loaded {} ({} bits)", k, i, a, b, q.bps);
        }
    }
    if q.bps != 24 {
        let mut again = SimSink::perfect();
        let r = write_wav(t, q.bps, &mut again, false);
        ensure!(r.is_ok() && again.bytes == disk, "resave", "saving the reloaded {} bit recording again gave other bytes", q.bps);
        c.probe("resaved");
    }
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    params: &["ent", "channels", "len", "bits", "clip", "kind", "sigseed", "odd_channel", "odd_by", "tail"],
    ops: &[("write", &["kind", "n"]), ("power_cut", &["at_64k", "offset"])],
    gen: gen05,
    run: run05,
    quick: 210_000,
    thorough: 6_100_000,
    rule: "power was cut before the last byte at least once",
    oracle: "the recording itself: only a prefix survives the cut, a reload of less than the whole must fail, of the whole must return every sample within one step; a second save must be byte-identical",
    real: &["bae_rs::utils::write_wav and read_wav", "sample_format", "wav and riff crates"],
    stub: &["the disk (simulated: short writes, EINTR, power cut keeping a prefix)"],
    faults: &["power_cut", "write_short", "write_eintr"],
    probes: &["resaved"],
};
