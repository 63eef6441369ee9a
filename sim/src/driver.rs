//! Runs batches of cases in worker processes, finds the lowest failing case, minimises it, writes the replay file and
//! the evidence.

use crate::plan::{shrink, Plan};
use crate::rng::hash2;
use crate::{case_plan, os, props, run_case, Outcome, Prop};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(45);

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn plan_sigs(plan: &Plan) -> (u64, u64) {
    let mut whole = 7u64;
    for v in plan.p.iter().skip(1) {
        whole = hash2(whole, *v as u64);
    }
    let mut sched = 11u64;
    for s in &plan.steps {
        sched = hash2(sched, (s.op as u64) << 8 | s.tag as u64);
        whole = hash2(whole, (s.op as u64) << 8 | s.tag as u64);
        for v in &s.a {
            whole = hash2(whole, *v as u64);
        }
    }
    (whole, sched)
}

fn oneline(s: &str) -> String {
    let s: String = s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect();
    s.chars().take(1500).collect()
}

// ---- worker -----------------------------------------------------------------------------------------------------

pub fn worker(a: &[String]) -> i32 {
    let prop = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let start: u64 = a[3].parse().unwrap();
    let stride: u64 = a[4].parse().unwrap();
    let count: u64 = a[5].parse().unwrap();
    let out = std::io::stdout();
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    let mut pending = String::new();
    let mut idx = start;
    while idx < count {
        pending.push_str(&format!("S {}\n", idx));
        {
            let mut o = out.lock();
            if o.write_all(pending.as_bytes()).is_err() || o.flush().is_err() {
                return 0;
            }
        }
        pending.clear();
        let plan = case_plan(prop, seed, idx, thorough);
        let (sig, sched) = plan_sigs(&plan);
        let (o, c) = run_case(prop, &plan);
        for (k, v) in &c.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &c.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        match o {
            Outcome::Held => pending.push_str(&format!(
                "D {} {} {} {} {} {} {}\n",
                idx, sig, sched, c.digest, c.nontrivial as u8, c.samples, plan.steps.len()
            )),
            Outcome::Violated(f) => {
                pending.push_str(&format!("V {} {}\t{}\n", idx, f.class, oneline(&f.msg)));
                break;
            }
            Outcome::Broken(m) => {
                pending.push_str(&format!("B {} {}\n", idx, oneline(&m)));
                break;
            }
        }
        idx += stride;
    }
    use std::sync::atomic::Ordering::Relaxed;
    for (k, v) in [
        ("entropy_bytes", &os::ENTROPY_BYTES),
        ("entropy_short", &os::ENTROPY_SHORT),
        ("entropy_eintr", &os::ENTROPY_EINTR),
        ("clock_reads", &os::CLOCK_READS),
        ("process_id_reads", &os::PID_READS),
    ] {
        pending.push_str(&format!("P os_{} {}\n", k, v.load(Relaxed)));
    }
    for (k, v) in faults {
        pending.push_str(&format!("F {} {}\n", k, v));
    }
    for (k, v) in probes {
        pending.push_str(&format!("P {} {}\n", k, v));
    }
    pending.push_str("END\n");
    let mut o = out.lock();
    let _ = o.write_all(pending.as_bytes());
    let _ = o.flush();
    0
}

struct W {
    child: Child,
    cur: Option<u64>,
    last: Instant,
    ended: bool,
    eof: bool,
    stopped: bool,
}

#[derive(Default)]
struct Batch {
    evals: u64,
    sigs: HashSet<u64>,
    scheds: HashSet<u64>,
    outcomes: HashSet<u64>,
    digests: HashMap<u64, u64>,
    samples: u64,
    steps: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    nontrivial: u64,
    first: Option<(u64, String, String)>,
    broken: Option<String>,
    capped: bool,
    last_idx: u64,
}

fn spawn_worker(prop: &Prop, seed: u64, tier: &str, start: u64, stride: u64, count: u64, id: usize, tx: &mpsc::Sender<(usize, Option<String>)>) -> W {
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .args(["worker", prop.id, &seed.to_string(), tier, &start.to_string(), &stride.to_string(), &count.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send((id, Some(l))).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send((id, None));
    });
    W { child, cur: None, last: Instant::now(), ended: false, eof: false, stopped: false }
}

fn run_batch(prop: &'static Prop, seed: u64, tier: &str, count: u64, workers: usize, cap: Duration, digest_limit: u64) -> Batch {
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel();
    let n = workers.min(count.max(1) as usize);
    let mut ws: Vec<W> = (0..n).map(|i| spawn_worker(prop, seed, tier, i as u64, n as u64, count, i, &tx)).collect();
    let mut b = Batch::default();
    let note = |b: &mut Batch, idx: u64, class: &str, msg: &str| {
        if b.first.as_ref().map(|f| idx < f.0).unwrap_or(true) {
            b.first = Some((idx, class.to_string(), msg.to_string()));
        }
    };
    while ws.iter().any(|w| !w.eof) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((i, Some(l))) => {
                let w = &mut ws[i];
                w.last = Instant::now();
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "S" => w.cur = rest.parse().ok(),
                    "D" => {
                        let f: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                        if f.len() == 7 {
                            w.cur = None;
                            b.evals += 1;
                            b.last_idx = b.last_idx.max(f[0]);
                            b.scheds.insert(f[2]);
                            b.outcomes.insert(f[3]);
                            if f[4] == 1 {
                                b.nontrivial += 1;
                                b.sigs.insert(f[1]);
                            }
                            b.samples += f[5];
                            b.steps += f[6];
                            if f[0] < digest_limit {
                                b.digests.insert(f[0], f[3]);
                            }
                        }
                    }
                    "V" => {
                        w.cur = None;
                        b.evals += 1;
                        if let Some((idx, r)) = rest.split_once(' ') {
                            let (class, msg) = r.split_once('\t').unwrap_or((r, ""));
                            note(&mut b, idx.parse().unwrap_or(u64::MAX), class, msg);
                        }
                    }
                    "B" => {
                        w.cur = None;
                        if b.broken.is_none() {
                            b.broken = Some(rest.to_string());
                        }
                    }
                    "F" | "P" => {
                        if let Some((name, v)) = rest.rsplit_once(' ') {
                            let m = if k == "F" { &mut b.faults } else { &mut b.probes };
                            *m.entry(name.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "END" => w.ended = true,
                    _ => {}
                }
            }
            Ok((i, None)) => {
                let w = &mut ws[i];
                w.eof = true;
                let st = w.child.wait();
                if !w.ended && !w.stopped {
                    match w.cur {
                        Some(idx) => {
                            let how = format!("the process running the case died: {:?}", st);
                            note(&mut b, idx, "crash", &how);
                        }
                        None => b.broken = b.broken.take().or(Some(format!("worker died between cases: {:?}", st))),
                    }
                }
            }
            Err(_) => {}
        }
        let lim = b.first.as_ref().map(|f| f.0);
        let over = t0.elapsed() > cap;
        b.capped |= over && ws.iter().any(|w| !w.eof && !w.stopped);
        let mut hung = vec![];
        for w in ws.iter_mut() {
            if w.eof || w.stopped {
                continue;
            }
            let beyond = matches!((lim, w.cur), (Some(l), Some(c)) if c > l);
            if beyond || over {
                w.stopped = true;
                let _ = w.child.kill();
            } else if w.cur.is_some() && w.last.elapsed() > HANG {
                w.stopped = true;
                let _ = w.child.kill();
                hung.push(w.cur.unwrap());
            }
        }
        for idx in hung {
            note(&mut b, idx, "hang", "the case did not end within 45 s");
        }
    }
    b
}

// ---- single plans -----------------------------------------------------------------------------------------------

/// Run a plan file in a fresh process; class of the violation if there is one.
fn exec_sub(path: &str, limit: Duration) -> Result<Option<(String, String)>, String> {
    let exe = std::env::current_exe().expect("exe");
    let mut ch = Command::new(exe)
        .args(["exec", path])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut r = None;
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if let Some(x) = l.strip_prefix("RESULT ") {
                r = Some(x.to_string());
            }
        }
        let _ = tx.send(r);
    });
    let got = rx.recv_timeout(limit);
    if got.is_err() {
        let _ = ch.kill();
        let _ = ch.wait();
        return Ok(Some(("hang".into(), format!("did not end within {} s", limit.as_secs()))));
    }
    let st = ch.wait().map_err(|e| e.to_string())?;
    match got.unwrap() {
        Some(r) => match r.split_once(' ') {
            Some(("violated", x)) => {
                let (c, m) = x.split_once('\t').unwrap_or((x, ""));
                Ok(Some((c.to_string(), m.to_string())))
            }
            _ if r.starts_with("held") => Ok(None),
            _ => Err(r),
        },
        None => Ok(Some(("crash".into(), format!("the process running the case died: {:?}", st)))),
    }
}

/// Cases run one after another in one process, for violations that depend on what the process did before.
struct History {
    prop: &'static Prop,
    seed: u64,
    tier: String,
    cases: Vec<u64>,
}

impl History {
    fn to_text(&self, header: &[(&str, String)]) -> String {
        let mut t = format!("# baesim history: the cases below, one after another in one process\nhistory {}\nseed {}\ntier {}\n", self.prop.id, self.seed as i64, self.tier);
        for (k, v) in header {
            t.push_str(&format!("# {}: {}\n", k, oneline(v)));
        }
        let stride = if self.cases.len() > 1 { self.cases[1] - self.cases[0] } else { 1 };
        if self.cases.len() > 200 && self.cases.windows(2).all(|w| w[1] - w[0] == stride) {
            t.push_str(&format!("range {} {} {}\n", self.cases[0], stride, self.cases[self.cases.len() - 1]));
        } else {
            let v: Vec<String> = self.cases.iter().map(|c| c.to_string()).collect();
            t.push_str(&format!("cases {}\n", v.join(" ")));
        }
        t
    }

    fn load(path: &str) -> Option<History> {
        let text = std::fs::read_to_string(path).ok()?;
        let line = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string()));
        let prop = props::find(&line("history ")?)?;
        let seed = line("seed ")?.parse::<i64>().ok()? as u64;
        let tier = line("tier ")?;
        let nums = |s: String| s.split_whitespace().map(|x| x.parse::<u64>().ok()).collect::<Option<Vec<u64>>>();
        let cases = match line("range ") {
            Some(r) => {
                let r = nums(r)?;
                (*r.first()?..=*r.get(2)?).step_by((*r.get(1)?).max(1) as usize).collect()
            }
            None => nums(line("cases ")?)?,
        };
        Some(History { prop, seed, tier, cases })
    }

    fn run(&self) -> Outcome {
        for idx in &self.cases {
            match run_case(self.prop, &case_plan(self.prop, self.seed, *idx, self.tier == "thorough")).0 {
                Outcome::Held => {}
                Outcome::Violated(f) => return Outcome::Violated(crate::Fail { class: f.class, msg: format!("case {}: {}", idx, f.msg) }),
                o => return o,
            }
        }
        Outcome::Held
    }

    /// Does it end in a violation of this class when it is run in a fresh process?
    fn fails(&self, path: &str, class: &str, limit: Duration) -> Option<String> {
        std::fs::write(path, self.to_text(&[])).ok()?;
        match exec_sub(path, limit) {
            Ok(Some((c, m))) if c == class => Some(m),
            _ => None,
        }
    }
}

/// The shortest history that shows a violation which its case alone does not show.
fn find_history(prop: &'static Prop, seed: u64, tier: &str, idx: u64, stride: u64, class: &str, path: &str, limit: Duration) -> Option<(History, String)> {
    let t0 = Instant::now();
    let all: Vec<u64> = (idx % stride.max(1)..=idx).step_by(stride.max(1) as usize).collect();
    let mut k = 2;
    let mut best = loop {
        let whole = k >= all.len();
        let h = History { prop, seed, tier: tier.into(), cases: all[all.len() - k.min(all.len())..].to_vec() };
        let left = limit.checked_sub(t0.elapsed())?;
        if let Some(m) = h.fails(path, class, left) {
            break (h, m);
        }
        if whole {
            return None;
        }
        // the whole history soon, if a few cases do not do it
        k = if k >= 512 { all.len() } else { k * 4 };
    };
    // leave out what is not needed
    let mut chunk = best.0.cases.len() / 2;
    while chunk > 0 && best.0.cases.len() <= 4096 {
        let mut at = 0;
        while at + 1 < best.0.cases.len() {
            if t0.elapsed() > limit / 2 {
                return Some(best);
            }
            let mut cases = best.0.cases.clone();
            let end = (at + chunk).min(cases.len() - 1);
            cases.drain(at..end);
            let h = History { prop, seed, tier: tier.into(), cases };
            match h.fails(path, class, Duration::from_secs(20)) {
                Some(m) => best = (h, m),
                None => at += chunk,
            }
        }
        chunk /= 2;
    }
    Some(best)
}

fn load(path: &str) -> Result<(&'static Prop, Plan), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let id = Plan::prop_of(&text).ok_or("no prop line")?;
    let prop = props::find(&id).ok_or("unknown property")?;
    Ok((prop, Plan::from_text(prop, &text)?))
}

pub fn exec(path: &str, verbose: bool) -> i32 {
    if verbose {
        // decide in a fresh process so that aborts and hangs are reported too
        let _scratch = Scratch::new();
        let (id, limit) = match History::load(path) {
            Some(h) => (Ok(h.prop.id), 700),
            None => (load(path).map(|x| x.0.id), 60),
        };
        return match (id, exec_sub(path, Duration::from_secs(limit))) {
            (Ok(id), Ok(Some((c, m)))) => {
                println!("{} {}: {}", id, c, m);
                println!("VIOLATION property={} replay={}", id, path);
                1
            }
            (Ok(id), Ok(None)) => {
                println!("{}: held on this plan", id);
                0
            }
            (e, f) => {
                eprintln!("error: {:?} {:?}", e, f);
                3
            }
        };
    }
    let outcome = match History::load(path) {
        Some(h) => Ok(h.run()),
        None => load(path).map(|(prop, plan)| run_case(prop, &plan).0),
    };
    match outcome {
        Err(e) => {
            println!("RESULT error {}", e);
            3
        }
        Ok(o) => match o {
            Outcome::Held => {
                println!("RESULT held ");
                0
            }
            Outcome::Violated(f) => {
                println!("RESULT violated {}\t{}", f.class, oneline(&f.msg));
                1
            }
            Outcome::Broken(m) => {
                println!("RESULT broken {}", oneline(&m));
                3
            }
        },
    }
}

pub fn shrink_main(a: &[String]) -> i32 {
    let (path, class, out, secs) = (&a[0], &a[1], &a[2], a[3].parse::<u64>().unwrap_or(40));
    let (prop, plan) = match load(path) {
        Ok(x) => x,
        Err(_) => return 3,
    };
    let t0 = Instant::now();
    let lim = Duration::from_secs(secs);
    let isolated = class == "crash" || class == "hang";
    let tmp = format!("{}.cand", out);
    let mut fails = |p: &Plan| -> bool {
        let hit = if isolated {
            if std::fs::write(&tmp, p.to_text(prop, &[])).is_err() {
                return false;
            }
            matches!(exec_sub(&tmp, Duration::from_secs(8)), Ok(Some((c, _))) if c == *class)
        } else {
            matches!(run_case(prop, p).0, Outcome::Violated(f) if f.class == *class)
        };
        if hit {
            let _ = std::fs::write(out, p.to_text(prop, &[]));
        }
        hit
    };
    let mut stop = || t0.elapsed() > lim;
    shrink(plan, &mut fails, &mut stop);
    let _ = std::fs::remove_file(&tmp);
    0
}

pub fn show(id: &str, idx: u64) -> i32 {
    let prop = props::find(id).expect("property");
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    print!("{}", case_plan(prop, verif_seed(), idx, thorough).to_text(prop, &[]));
    0
}

fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

/// A directory for everything the cases of this run put on the real disk; workers may be killed at any time.
struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("baesim-{}", crate::os::real_pid()));
        let _ = std::fs::create_dir_all(&d);
        std::env::set_var("BAESIM_SCRATCH", &d);
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---- check ------------------------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn jlist(v: &[&str]) -> String {
    let v: Vec<String> = v.iter().map(|s| js(s)).collect();
    format!("[{}]", v.join(", "))
}

pub fn check(id: &str) -> i32 {
    let prop = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let t0 = Instant::now();
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let seed = verif_seed();
    let mut count = if thorough { prop.thorough } else { prop.quick };
    if let Some(n) = std::env::var("BAESIM_CASES").ok().and_then(|s| s.parse().ok()) {
        count = n;
    }
    if let Some(n) = std::env::var("BAESIM_PERCENT").ok().and_then(|s| s.parse::<u64>().ok()) {
        count = (count * n / 100).max(48);
    }
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let cap = Duration::from_secs(if thorough { 700 } else { 300 });
    println!("baesim {} tier={} seed={} cases={} workers={}", id, tier, seed, count, cores);
    let twin = count.min(48);
    let _scratch = Scratch::new();
    let b = run_batch(prop, seed, tier, count, cores, cap, twin);

    if b.first.is_none() {
        if let Some(m) = &b.broken {
            eprintln!("harness error: {}", m);
            return 3;
        }
    }

    // the same first cases again, in other processes and another distribution over processes
    let mut mismatch = vec![];
    let mut twin_compared = 0;
    let mut found = b.first.clone();
    let explore_s = t0.elapsed().as_secs_f64();
    if found.is_none() {
        let t = run_batch(prop, seed, tier, twin, 1 + (cores > 2) as usize * 2, cap, twin);
        for (k, v) in &b.digests {
            if let Some(w) = t.digests.get(k) {
                twin_compared += 1;
                if v != w {
                    mismatch.push(*k);
                }
            }
        }
        mismatch.sort();
        if !mismatch.is_empty() {
            if prop.id == "C25" {
                found = Some((mismatch[0], "process".into(), "two processes rendered the same session differently".into()));
            } else {
                println!("note: cases {:?} gave another outcome in a second process", mismatch);
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    let mut report = String::new();
    if let Some((idx, class, msg)) = &found {
        violations = 1;
        let plan = case_plan(prop, seed, *idx, thorough);
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let base = format!("{}/{}-{}-{}-{}", dir, prop.id, tier, seed, idx);
        let orig = format!("{}.orig.plan", base);
        let path = format!("{}.plan", base);
        let small = format!("{}.small", base);
        let header = |m: &str| {
            vec![("seed", format!("VERIF_SEED={} tier={} case={}", seed, tier, idx)), ("violation", m.to_string())]
        };
        let whole = plan.to_text(prop, &header(&format!("{}: {}", class, msg)));
        let _ = std::fs::write(&path, &whole);
        let first = exec_sub(&path, Duration::from_secs(75));
        let same = matches!(&first, Ok(Some((c, _))) if c == class) || class == "process";
        let alone = matches!(&first, Ok(Some(_)));
        let mut history = None;
        if !same && !alone && class != "hang" && class != "crash" {
            // not this case alone: what its process did before matters
            let limit = Duration::from_secs(if thorough { 120 } else { 300 });
            history = find_history(prop, seed, tier, *idx, cores.min(count.max(1) as usize) as u64, class, &path, limit);
        }
        if let Some((h, m)) = &history {
            println!("note: the case shows the violation only after other cases have run in the same process");
            let _ = std::fs::write(&path, h.to_text(&[("seed", format!("VERIF_SEED={} tier={}", seed, tier)), ("violation", format!("{}: {}", class, m))]));
        } else if !same {
            match &first {
                Ok(Some((c, m))) => println!("note: the case ended as {} ({}), its replay as {}: {}", class, msg, c, m),
                Ok(None) if class == "hang" => {
                    eprintln!("harness error: case {} was slow but ends: not counted as a hang", idx);
                    return 3;
                }
                Ok(None) => {
                    eprintln!("harness error: case {} ({}: {}) does not replay", idx, class, msg);
                    return 3;
                }
                Err(e) => {
                    eprintln!("harness error: replay of case {}: {}", idx, e);
                    return 3;
                }
            }
        }
        let class = match &first {
            Ok(Some((c, _))) => c.clone(),
            _ => class.clone(),
        };
        let mut final_msg = msg.clone();
        let mut minimised = false;
        if let Some((h, m)) = &history {
            final_msg = format!("after {} other cases, {}", h.cases.len() - 1, m);
            minimised = h.cases.len() <= 4096;
        } else if class != "process" {
            let _ = std::fs::write(&orig, &whole);
            let _ = std::fs::remove_file(&small);
            let exe = std::env::current_exe().expect("exe");
            let secs = if thorough { 120 } else { 40 };
            if let Ok(mut ch) = Command::new(exe)
                .args(["shrink", &path, &class, &small, &secs.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
            {
                let s0 = Instant::now();
                loop {
                    match ch.try_wait() {
                        Ok(Some(_)) | Err(_) => break,
                        Ok(None) => {}
                    }
                    if s0.elapsed() > Duration::from_secs(secs + 20) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            if let Ok(Some((c, m))) = if std::path::Path::new(&small).exists() { exec_sub(&small, Duration::from_secs(75)) } else { Ok(None) } {
                if c == class {
                    if let Ok((_, p)) = load(&small) {
                        let _ = std::fs::write(&path, p.to_text(prop, &header(&format!("{}: {}", c, m))));
                        final_msg = m;
                        minimised = true;
                    }
                }
            }
            let _ = std::fs::remove_file(&small);
            let _ = std::fs::remove_file(format!("{}.cand", small));
        }
        report = format!("case {} {}: {}", idx, class, final_msg);
        println!("violated in case {} (seed {}), {}: {}", idx, seed, class, final_msg);
        println!("replay file {}minimised; replay with: {}/check.sh replay {}", if minimised { "" } else { "not " }, root(), path);
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
    }

    // evidence
    let mut faults: BTreeMap<String, u64> = prop.faults.iter().map(|k| (k.to_string(), 0)).collect();
    for (k, v) in &b.faults {
        *faults.entry(k.clone()).or_insert(0) += v;
    }
    let mut probes: BTreeMap<String, u64> = prop.probes.iter().map(|k| (k.to_string(), 0)).collect();
    for (k, v) in &b.probes {
        *probes.entry(k.clone()).or_insert(0) += v;
    }
    let never: Vec<&str> = faults.iter().chain(probes.iter()).filter(|x| *x.1 == 0 && !x.0.starts_with("os_")).map(|x| x.0.as_str()).collect();
    let mut samples = vec![];
    for i in [0, count / 2] {
        let p = case_plan(prop, seed, i, thorough).to_text(prop, &[("case", i.to_string())]);
        let p: String = if p.len() > 1600 { format!("{}... ({} steps)", p.chars().take(1600).collect::<String>(), p.lines().count()) } else { p };
        samples.push(js(&p));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"oracle\": {},\n  \"cases_planned\": {},\n  \"wall_cap_hit\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {:.3},\n  \"schedule_steps\": {},\n  \"faults_fired\": {},\n  \"probes_hit\": {},\n  \"never_hit\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct sequences of (step kind, delivery outcome) over the merged schedule\",\n  \"distinct_outcomes\": {},\n  \"outcome_measure\": \"distinct digests of everything the code under test returned\",\n  \"determinism\": {{\"cases_run_twice_in_other_processes\": {}, \"mismatches\": {}}},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"workers\": {}\n }},\n \"assumptions\": [\"the simulated streams, entropy, allocator and control transport behave as their documentation says\", \"sampling: a clean batch is evidence, not proof\"],\n \"result\": {},\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        js(prop.id), js(tier), seed as i64,
        b.evals, b.sigs.len(),
        js(&format!("One case = one plan generated from hash(VERIF_SEED, property, case number). Non-trivial: {}. Distinct: parameters or schedule differ.", prop.rule)),
        samples.join(", "), js(prop.oracle), count, b.capped,
        (b.evals as f64 / explore_s * 3600.0) as u64, (b.evals as f64 / explore_s * 3600.0) as u64,
        b.samples as f64 / 48000.0, b.steps, jmap(&faults), jmap(&probes), jlist(&never),
        b.scheds.len(), b.outcomes.len(), twin_compared, mismatch.len(),
        jlist(prop.real), jlist(prop.stub), cores, js(&report), violations, wall
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop.id), ev) {
        eprintln!("cannot write evidence: {}", e);
        if code == 0 {
            return 3;
        }
    }
    println!(
        "{}: {} cases ({} non-trivial, {} distinct), {:.1} simulated s, {:.1} s wall; never hit: {:?}",
        prop.id, b.evals, b.nontrivial, b.sigs.len(), b.samples as f64 / 48000.0, wall, never
    );
    code
}

/// Determinism of the simulator: every case of a range under several seeds, run in two different process layouts.
pub fn selftest(a: &[String]) -> i32 {
    let ids: Vec<String> = if a.is_empty() { props::all().iter().map(|p| p.id.to_string()).collect() } else { a.to_vec() };
    let n: u64 = std::env::var("BAESIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    let seeds: u64 = std::env::var("BAESIM_SEEDS").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
    let mut bad = 0;
    let _scratch = Scratch::new();
    for id in ids {
        let prop = props::find(&id).expect("property");
        let mut compared = 0;
        let mut diff = 0;
        for s in 1..=seeds {
            let x = run_batch(prop, s, "quick", n, 8, Duration::from_secs(600), n);
            let y = run_batch(prop, s, "quick", n, 3, Duration::from_secs(600), n);
            for (k, v) in &x.digests {
                compared += 1;
                if y.digests.get(k) != Some(v) {
                    diff += 1;
                }
            }
            if let Some(f) = &x.first {
                println!("{} seed {}: violated {:?}", id, s, f);
                bad += 1;
            }
            if let Some(f) = &x.broken {
                println!("{} seed {}: broken {:?}", id, s, f);
                bad += 1;
            }
        }
        println!("{}: {} cases compared over {} seeds, {} differ", id, compared, seeds, diff);
        bad += diff;
    }
    (bad > 0) as i32
}
