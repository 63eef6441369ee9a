//! C06: the in-memory byte source; C07: the binary-to-table tool under a scripted file system.

use super::common::*;
use crate::io::Act;
use crate::plan::{st, Plan};
use crate::rng::{hash2, Rng};
use crate::{ensure, fail, Ctx, Fail, Prop, Res};
use bae_rs::debug::VecReader;
use std::io::Read;
use std::process::{Command, Stdio};

fn payload(seed: i64, n: usize) -> Vec<u8> {
    (0..n).map(|i| hash2(seed as u64, i as u64) as u8).collect()
}

// ---- C06 --------------------------------------------------------------------------------------------------------

fn gen06(r: &mut Rng, thorough: bool) -> Plan {
    let max = if r.chance(0.00002) { 40_000_000 } else if r.chance(0.001) { 1_000_000 } else if thorough { 100_000 } else { 5_000 };
    let n = |r: &mut Rng| if r.chance(0.2) { r.range(0, 3) } else { r.logu(1, max) };
    // usual block sizes, as payload and as buffer
    let even = r.chance(0.15);
    let block = |r: &mut Rng| (r.range(1, 4) << r.range(3, if max > 100_000 { 18 } else { 13 })).min(1 << 20);
    let (a, b) = if even { (block(r), block(r)) } else { (n(r), n(r)) };
    let mut steps = vec![];
    for _ in 0..r.range(1, 40) {
        let len = if r.chance(0.15) {
            0
        } else if even && r.chance(0.7) {
            block(r)
        } else if r.chance(0.0005) {
            r.logu(100_000, 4_000_000)
        } else { r.logu(1, (a.max(b) + 2).max(4)) };
        steps.push(st(0, &[r.below(2) as i64, len, r.below(14) as i64, r.seed() & 0xFFFF]));
    }
    Plan { p: vec![r.seed(), a, b, r.seed() & 0xFFFF, r.below(4) as i64], steps }
}

fn run06(plan: &Plan, c: &mut Ctx) -> Res {
    let mut data: Vec<Vec<u8>> = (0..2).map(|k| payload(plan.par(3) + k as i64, plan.par(1 + k).clamp(0, 64 << 20) as usize)).collect();
    for d in data.iter_mut() {
        match plan.par(4).rem_euclid(4) {
            2 => d.iter_mut().for_each(|b| *b &= 0x7f),
            3 => {
                // characters of one and of two bytes
                let mut i = 0;
                while i < d.len() {
                    if d[i] & 0x80 != 0 && i + 1 < d.len() {
                        d[i] = 0xC3;
                        d[i + 1] = 0x80 | (d[i + 1] & 0x3f);
                        i += 2;
                    } else {
                        d[i] &= 0x7f;
                        i += 1;
                    }
                }
            }
            _ => {}
        }
    }
    let mut rd: Vec<VecReader> = data
        .iter()
        .map(|d| {
            let mut v = Vec::with_capacity(d.len() + (hash2(plan.par(3) as u64, 3) % 2 * 100) as usize);
            v.extend_from_slice(d);
            VecReader::new(v)
        })
        .collect();
    let mut pos = [0usize; 2];
    let one = |c: &mut Ctx, rd: &mut VecReader, data: &[u8], pos: &mut usize, len: usize, salt: u64| -> Res {
        let mut buf: Vec<u8> = (0..len).map(|i| hash2(salt, i as u64) as u8).collect();
        let before = buf.clone();
        let n = match rd.read(&mut buf) {
            Ok(n) => n,
            Err(e) => fail!("error", "read failed: {}", e),
        };
        let left = data.len() - *pos;
        ensure!(n <= len && n <= left, "count", "read of {} reported {} with {} bytes left", len, n, left);
        ensure!(n > 0 || len == 0 || left == 0, "early-end", "end of data reported with {} bytes left", left);
        ensure!(buf[..n] == data[*pos..*pos + n], "bytes", "wrong bytes at {} (read of {})", *pos, len);
        ensure!(buf[n..] == before[n..], "overwrite", "the buffer was changed beyond the {} bytes reported", n);
        if n < len && left > n {
            c.probe("short_read");
        }
        *pos += n;
        c.word(n as u64);
        Ok(())
    };
    for (k, s) in plan.steps.iter().enumerate() {
        let w = s.arg(0).rem_euclid(2) as usize;
        let len = s.arg(1).clamp(0, 1 << 22) as usize;
        let left = data[w].len() - pos[w];
        let salt = s.arg(3) as u64 ^ 0x51;
        // after a call that failed it is open how much it took
        let resume = |rd: &mut VecReader, data: &[u8], pos: &mut usize| -> Res {
            let mut b = [0u8; 1];
            match rd.read(&mut b) {
                Ok(0) => *pos = data.len(),
                Ok(1) if *pos < data.len() && (data[*pos..].contains(&b[0])) => {
                    // it may have taken a part: from here on only what follows the byte it delivered
                    let mut rest = vec![];
                    let r = rd.read_to_end(&mut rest);
                    ensure!(r.is_ok(), "error", "read_to_end failed: {:?}", r);
                    let n = rest.len() + 1;
                    ensure!(n <= data.len() - *pos && data[data.len() - n] == b[0] && data[data.len() - n + 1..] == rest[..], "bytes", "after a failed call the source delivers {} bytes that are not the end of its payload", n);
                    *pos = data.len();
                }
                r => fail!("bytes", "after a failed call at {} of {} the source delivered {:?} {:?}", *pos, data.len(), r, b),
            }
            Ok(())
        };
        match s.arg(2).rem_euclid(14) {
            4 if len > left => {
                let mut b = vec![0; len];
                let r = rd[w].read_exact(&mut b);
                ensure!(r.is_err(), "invented", "read_exact of {} succeeded with {} bytes left", len, left);
                resume(&mut rd[w], &data[w], &mut pos[w])?;
            }
            6 | 7 => {
                // scattered over several buffers, empty ones among them
                let m = 1 + (hash2(salt, 0) % 5) as usize;
                let mut parts: Vec<usize> = (0..m).map(|i| if hash2(salt, 10 + i as u64) % 4 == 0 { 0 } else { hash2(salt, 20 + i as u64) as usize % (len + 1) }).collect();
                if hash2(salt, 1) % 3 == 0 {
                    parts[0] = len;
                }
                let mut bufs: Vec<Vec<u8>> = parts.iter().enumerate().map(|(k, n)| (0..*n).map(|i| hash2(salt + k as u64, i as u64) as u8).collect()).collect();
                let before: Vec<u8> = bufs.concat();
                let r = {
                    let mut io: Vec<std::io::IoSliceMut> = bufs.iter_mut().map(|b| std::io::IoSliceMut::new(b)).collect();
                    rd[w].read_vectored(&mut io)
                };
                let n = match r {
                    Ok(n) => n,
                    Err(e) => fail!("error", "read_vectored failed: {}", e),
                };
                let after: Vec<u8> = bufs.concat();
                ensure!(n <= after.len() && n <= left, "count", "read_vectored over {:?} reported {} with {} bytes left", parts, n, left);
                ensure!(n > 0 || after.is_empty() || left == 0, "early-end", "read_vectored over {:?} reported the end with {} bytes left", parts, left);
                ensure!(after[..n] == data[w][pos[w]..pos[w] + n], "bytes", "read_vectored over {:?} delivered wrong bytes at {}", parts, pos[w]);
                ensure!(after[n..] == before[n..], "overwrite", "read_vectored over {:?} changed more than the {} bytes it reported", parts, n);
                pos[w] += n;
                c.fault("scattered_buffers");
            }
            8 if salt % 3 == 0 => {
                // behind what the vector already holds
                let mut b: Vec<u8> = (0..hash2(salt, 2) % 50).map(|i| hash2(salt, i) as u8).collect();
                let head = b.clone();
                let r = rd[w].read_to_end(&mut b);
                ensure!(matches!(r, Ok(n) if n == left), "count", "read_to_end reported {:?} with {} bytes left", r, left);
                ensure!(b.len() == head.len() + left && b[..head.len()] == head[..] && b[head.len()..] == data[w][pos[w]..], "bytes", "read_to_end behind {} bytes made {} of {}", head.len(), b.len(), left);
                pos[w] = data[w].len();
            }
            9 if salt % 3 == 0 => {
                let mut t: String = "h\u{e9}ad"[..(hash2(salt, 2) % 2) as usize * 5].to_string();
                let head = t.clone();
                let r = rd[w].read_to_string(&mut t);
                match std::str::from_utf8(&data[w][pos[w]..]) {
                    Ok(want) => {
                        ensure!(matches!(r, Ok(n) if n == left), "count", "read_to_string reported {:?} with {} bytes left", r, left);
                        ensure!(t.strip_prefix(head.as_str()) == Some(want), "bytes", "read_to_string delivered something else than the {} bytes left", left);
                        pos[w] = data[w].len();
                        c.probe("read_as_text");
                    }
                    Err(_) => {
                        ensure!(r.is_err() && t == head, "invented", "read_to_string of bytes that are no text: {:?}, {} bytes in the string", r, t.len());
                        resume(&mut rd[w], &data[w], &mut pos[w])?;
                    }
                }
            }
            10 => {
                let b: Vec<u8> = match (&mut rd[w]).take(len as u64).bytes().collect::<Result<_, _>>() {
                    Ok(b) => b,
                    Err(e) => fail!("error", "bytes() failed: {}", e),
                };
                let n = len.min(left);
                ensure!(b[..] == data[w][pos[w]..pos[w] + n], "bytes", "bytes() delivered {} bytes or wrong ones at {}", b.len(), pos[w]);
                pos[w] += n;
            }
            11 => {
                let mut b = vec![];
                let r = std::io::copy(&mut (&mut rd[w]).take(len as u64), &mut b);
                let n = len.min(left);
                ensure!(matches!(r, Ok(k) if k == n as u64) && b[..] == data[w][pos[w]..pos[w] + n], "bytes", "copying {} bytes at {}: {:?}, {} bytes", n, pos[w], r, b.len());
                pos[w] += n;
            }
            12 if salt % 4 == 0 => {
                // a buffer in between takes as much as it likes, but all arrives
                let mut b = vec![];
                let r = std::io::BufReader::with_capacity(len.clamp(1, 9000), &mut rd[w]).read_to_end(&mut b);
                ensure!(r.is_ok() && b[..] == data[w][pos[w]..], "bytes", "buffered reading at {} delivered {} of {} bytes", pos[w], b.len(), left);
                pos[w] = data[w].len();
            }
            13 if salt % 5 == 0 => {
                let (x, y) = rd.split_at_mut(1);
                let mut b = vec![];
                let r = x[0].by_ref().chain(y[0].by_ref()).read_to_end(&mut b);
                let want = [&data[0][pos[0]..], &data[1][pos[1]..]].concat();
                ensure!(r.is_ok() && b == want, "bytes", "the two sources chained delivered {} of {} bytes", b.len(), want.len());
                pos = [data[0].len(), data[1].len()];
            }
            4 => {
                // read_exact: either everything asked for, or an error with nothing invented
                let mut b = vec![0; len];
                let r = rd[w].read_exact(&mut b);
                ensure!(r.is_ok(), "early-end", "read_exact of {} failed with {} bytes left", len, left);
                ensure!(b[..] == data[w][pos[w]..pos[w] + len], "bytes", "read_exact delivered wrong bytes at {}", pos[w]);
                pos[w] += len;
            }
            5 => {
                let mut b = vec![];
                let n = (&mut rd[w]).take(len as u64).read_to_end(&mut b).unwrap_or(usize::MAX);
                ensure!(n == len.min(left) && b.len() == n, "count", "take({}).read_to_end delivered {} with {} left", len, n, left);
                ensure!(b[..] == data[w][pos[w]..pos[w] + n], "bytes", "wrong bytes at {}", pos[w]);
                pos[w] += n;
            }
            _ => one(c, &mut rd[w], &data[w], &mut pos[w], len, k as u64 + 5)?,
        }
        if len == 0 {
            c.fault("empty_buffer");
        }
        if len > left {
            c.fault("buffer_beyond_end");
        }
    }
    c.nontrivial = plan.steps.len() > 1;
    for w in 0..2 {
        let mut guard = 0;
        while pos[w] < data[w].len() {
            one(c, &mut rd[w], &data[w], &mut pos[w], 777, 3)?;
            guard += 1;
            ensure!(guard < 2_000_000, "no-progress", "the source does not reach its end");
        }
        for len in [1usize, 64, 0, 5] {
            one(c, &mut rd[w], &data[w], &mut pos[w], len, 9)?;
        }
    }
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    params: &["ent", "len_a", "len_b", "sigseed", "text"],
    ops: &[("read", &["reader", "len", "how", "salt"])],
    gen: gen06,
    run: run06,
    quick: 1_000_000,
    thorough: 37_000_000,
    rule: "at least two read calls of chosen sizes on two interleaved sources",
    oracle: "cursor model over the payload, sentinel pattern in the buffers",
    real: &["bae_rs::debug::VecReader"],
    stub: &[],
    faults: &["empty_buffer", "buffer_beyond_end", "scattered_buffers"],
    probes: &["read_as_text"],
};

// ---- C07 --------------------------------------------------------------------------------------------------------

const ERRNOS: [i32; 24] = [
    libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES, libc::EFBIG, libc::EPIPE, libc::EROFS, libc::ENOENT, libc::EMFILE,
    libc::ENFILE, libc::EAGAIN, libc::ETIMEDOUT, libc::EINVAL, libc::ESTALE, libc::EPERM, libc::EBUSY, libc::EISDIR, libc::ENOTDIR,
    libc::ENXIO, libc::EBADF, libc::ENOMEM, libc::ETXTBSY, libc::EOPNOTSUPP, libc::ECONNRESET,
];

fn gen07(r: &mut Rng, thorough: bool) -> Plan {
    let big = r.chance(0.01);
    let len = if r.chance(0.0002) { r.logu(1_000_000, 6_000_000) } else if r.chance(0.15) { r.range(0, 3) } else { r.logu(1, if thorough || big { 300_000 } else { 12_000 }) };
    // the sizes of buffers, give or take one
    let len = if r.chance(0.08) { (r.range(1, 6) << r.range(4, if big { 16 } else { 11 })) + r.pick(&[0, 0, 0, -1, 1]) } else { len };
    let (mut steps, rt) = gen_io(r, 0, 8);
    let (ws, wt) = gen_io(r, 1, 8);
    steps.extend(ws);
    // tails so small that the run takes for ever are pointless
    let lim = |t: i64| if t > 0 { t.max(len / 200 + 1) } else { 0 };
    let mode = r.pick(&[0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5]);
    let out = len * 5;
    let at = match mode {
        1 => {
            let v = [0, r.range(0, len), len, len];
            r.pick(&v)
        }
        2 | 3 => {
            let v = [0, r.range(0, 40), r.range(0, out.max(1)), (len * 4).min(out)];
            r.pick(&v)
        }
        _ => 0,
    };
    Plan { p: vec![r.seed(), len, r.seed() & 0xFFFF, r.below(4) as i64, lim(rt), lim(wt), mode, at, r.below(24) as i64, r.pick(&[0, 0, 1, 2, 3])], steps }
}

fn scriptstr(v: &[Act]) -> String {
    v.iter()
        .map(|a| match a {
            Act::Full => "f".to_string(),
            Act::Short(n) => format!("s{}", n),
            Act::Intr => "i".to_string(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// The bytes of the one table a source text defines.
fn table(text: &str) -> Result<Vec<u8>, String> {
    let (head, rest) = text.split_once('=').ok_or("no '='")?;
    if !(head.contains("static") || head.contains("const")) {
        return Err("no static or const item".into());
    }
    let rest = rest.trim();
    let body = rest.strip_suffix(';').ok_or("does not end with ';'")?.trim_end();
    let body = body.strip_prefix('&').unwrap_or(body);
    let body = body.strip_prefix('[').and_then(|b| b.strip_suffix(']')).ok_or("no [...]")?;
    let mut out = vec![];
    let items: Vec<&str> = body.split(',').map(|s| s.trim()).collect();
    for (k, it) in items.iter().enumerate() {
        if it.is_empty() && k + 1 == items.len() {
            break;
        }
        let it = it.strip_suffix("u8").unwrap_or(it);
        let v = match it.strip_prefix("0x") {
            Some(h) => u8::from_str_radix(h, 16),
            None => it.parse::<u8>(),
        };
        out.push(v.map_err(|_| format!("entry {} is {:?}", k, it.chars().take(20).collect::<String>()))?);
    }
    Ok(out)
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run07(plan: &Plan, c: &mut Ctx) -> Res {
    let h = |m: String| Fail { class: "harness".into(), msg: m };
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let exe = format!("{}/target/bin2str/debug/bin2str", root);
    let shim = format!("{}/target/faultio.so", root);
    let base = std::env::var_os("BAESIM_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let dir = base.join(format!("c07-{}", crate::os::real_pid()));
    let scratch = Scratch(dir.clone());
    std::fs::create_dir_all(&dir).map_err(|e| h(e.to_string()))?;
    let n = plan.par(1).clamp(0, 8_000_000) as usize;
    let mut data = payload(plan.par(2), n);
    match plan.par(3).rem_euclid(4) {
        0 => data.iter_mut().for_each(|b| *b %= 10),
        1 => data.iter_mut().for_each(|b| *b |= 0x80),
        _ => {}
    }
    std::fs::write(dir.join("input.wav"), &data).map_err(|e| h(e.to_string()))?;
    let _ = std::fs::remove_file(dir.join("output.rs"));
    // what an earlier run (or anything else) left under the name of the output
    let old = match plan.par(9).rem_euclid(4) {
        1 => Some(vec![b'x'; 10 + n / 3]),
        2 => Some(format!("pub static FILE: [u8; _] = [{}];", "17, ".repeat(n + 50)).into_bytes()),
        3 => Some(payload(plan.par(2) ^ 5, n * 8 + 1000)),
        _ => None,
    };
    if let Some(o) = old {
        std::fs::write(dir.join("output.rs"), o).map_err(|e| h(e.to_string()))?;
        c.probe("output_existed");
    }
    let mode = plan.par(6).rem_euclid(6);
    let (at, en) = (plan.par(7).max(0), ERRNOS[plan.par(8).rem_euclid(24) as usize]);
    let mut cmd = Command::new(&exe);
    let clamp = |v: i64| if v <= 0 { 0 } else { v.max(n as i64 / 5000) };
    cmd.current_dir(&dir)
        .env_clear()
        .env("LD_PRELOAD", &shim)
        .env("FIO_LOG", dir.join("faults.log"))
        .env("FIO_R", scriptstr(&script(plan, 0)))
        .env("FIO_W", scriptstr(&script(plan, 1)))
        .env("FIO_RT", clamp(plan.par(4)).to_string())
        .env("FIO_WT", clamp(plan.par(5)).to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    match mode {
        1 => {
            cmd.env("FIO_RF", format!("{}:{}", at, en));
        }
        2 => {
            cmd.env("FIO_WF", format!("{}:{}", at, en));
        }
        3 => {
            cmd.env("FIO_WF", format!("{}:0", at));
        }
        4 => {
            cmd.env("FIO_OF", format!("r:{}", en));
        }
        5 => {
            cmd.env("FIO_OF", format!("w:{}", en));
        }
        _ => {}
    }
    let status = cmd.status().map_err(|e| h(format!("{}: {}", exe, e)))?;
    let log = std::fs::read(dir.join("faults.log")).map_err(|e| h(format!("shim left no log: {}", e)))?;
    let (mut hard, mut intr) = (None, false);
    for b in &log {
        match b {
            b's' => c.fault("read_short"),
            b'W' => c.fault("write_short"),
            b'i' => {
                intr = true;
                c.fault("read_eintr")
            }
            b'I' => {
                intr = true;
                c.fault("write_eintr")
            }
            b'S' => hard = Some("retry-storm"),
            b'e' => hard = Some("read_error"),
            b'E' => hard = Some("write_error"),
            b'Z' => hard = Some("write_zero"),
            b'o' => hard = Some("open_read_error"),
            b'O' => hard = Some("open_write_error"),
            _ => {}
        }
    }
    if hard == Some("retry-storm") || status.code() == Some(86) {
        fail!("retry-storm", "the tool kept repeating file operations without end");
    }
    if let Some(k) = hard {
        c.fault(k);
    }
    c.nontrivial = !log.is_empty();
    c.word(status.success() as u64);
    c.bytes(&log);
    if status.success() {
        if let Some(k) = hard {
            fail!("false-success", "the tool exited successfully although a file operation failed ({} at byte {})", k, at);
        }
        let text = match std::fs::read(dir.join("output.rs")).map(String::from_utf8) {
            Ok(Ok(t)) => t,
            _ => fail!("no-output", "exit status 0 without a readable output.rs"),
        };
        c.bytes(text.as_bytes());
        match table(&text) {
            Err(e) => fail!("not-a-table", "exit status 0, but output.rs ({} bytes) is not one complete table: {}", text.len(), e),
            Ok(t) => {
                ensure!(t.len() == data.len(), "incomplete", "exit status 0, but the table has {} of {} bytes", t.len(), data.len());
                if let Some(i) = (0..t.len()).find(|&i| t[i] != data[i]) {
                    fail!("wrong-byte", "byte {} is {} in the input and {} in the table", i, data[i], t[i]);
                }
            }
        }
        c.probe("success_under_faults");
    } else {
        ensure!(hard.is_some() || intr, "refused", "the tool failed ({:?}) without any failing file operation", status);
        c.probe("failure_reported");
    }
    drop(scratch);
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    params: &["ent", "len", "sigseed", "kind", "read_tail", "write_tail", "mode", "at", "errno", "earlier_output"],
    ops: &[("read", &["kind", "n"]), ("write", &["kind", "n"])],
    gen: gen07,
    run: run07,
    quick: 65_000,
    thorough: 1_600_000,
    rule: "at least one file operation of the tool was shortened, interrupted or failed",
    oracle: "the produced source text is parsed back and compared byte for byte; any permanently failed operation must end in a nonzero status",
    real: &["the compiled bin2str binary", "std::fs, std::io", "kernel file I/O in a scratch directory"],
    stub: &["open/read/write of the libc (LD_PRELOAD): short, EINTR, errno, disk full, zero-length writes"],
    faults: &["read_short", "write_short", "read_eintr", "write_eintr", "read_error", "write_error", "write_zero", "open_read_error", "open_write_error"],
    probes: &["success_under_faults", "failure_reported", "output_existed"],
};
