//! baesim: deterministic simulation of BAE with fault injection.
//!
//!   baesim check <ID>            run the check (VERIF_TIER, VERIF_SEED), write evidence, report
//!   baesim replay <plan file>    execute one recorded plan exactly, report the violation it shows
//!   baesim show <ID> <case>      print the plan of one case
//!   baesim worker ... / exec ... / shrink ...   internal
//!   baesim selftest [IDs]        run every case stream twice in different processes and process counts, compare

mod driver;
mod io;
mod os;
mod plan;
mod props;
mod rng;
mod sched;
mod sig;

use plan::Plan;
use rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOC: os::Counting = os::Counting;

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::Fail { class: $class.to_string(), msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($a:tt)*) => {
        if !$cond { $crate::fail!($class, $($a)*) }
    };
}

pub struct Prop {
    pub id: &'static str,
    /// Plan parameters; the first is always the entropy seed of the simulated threads.
    pub params: &'static [&'static str],
    pub ops: &'static [(&'static str, &'static [&'static str])],
    pub gen: fn(&mut Rng, bool) -> Plan,
    pub run: fn(&Plan, &mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// what makes a case non-trivial
    pub rule: &'static str,
    pub oracle: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub faults: &'static [&'static str],
    pub probes: &'static [&'static str],
}

/// What one execution records.
#[derive(Default)]
pub struct Ctx {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// simulated samples at 48 kHz
    pub samples: u64,
    pub digest: u64,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn fault(&mut self, k: &'static str) {
        self.faults(k, 1)
    }
    pub fn faults(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(k).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn word(&mut self, w: u64) {
        self.digest = (self.digest ^ w).wrapping_mul(0x100000001B3).rotate_left(29);
    }
    pub fn out(&mut self, y: f32) {
        self.word(y.to_bits() as u64);
        self.samples += 1;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.word(u64::from_le_bytes(w));
        }
    }
    /// Count the transport faults of a schedule.
    pub fn net(&mut self, plan: &Plan) {
        for s in &plan.steps {
            match s.tag {
                plan::DUP => self.fault("message_duplicated"),
                plan::LATE => self.fault("message_delayed"),
                plan::LOST => self.fault("message_lost"),
                _ => {}
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Forget the panic recorded on this thread (after a deliberate catch_unwind in a harness), returning its text.
pub fn take_panic() -> Option<(bool, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub fn quiet_thread() {
    QUIET.with(|q| *q.borrow_mut() = true);
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| *q.borrow()) {
            old(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut harness = loc.starts_with("src/");
        if msg.starts_with("SIMFAIL:") {
            harness = false;
        } else if !harness && !loc.contains("/repo/") {
            // somewhere in std or a dependency: whose call was it?
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            for l in bt.lines() {
                let l = l.trim();
                if let Some(at) = l.strip_prefix("at ") {
                    if at.contains("/repo/") {
                        break;
                    }
                    if at.starts_with("./src/") || at.contains("/sim/src/") {
                        if at.contains("main.rs") {
                            continue;
                        }
                        harness = true;
                        break;
                    }
                }
            }
        }
        // keep the first panic: later ones are consequences
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((harness, format!("{} at {}", msg, loc)));
            }
        });
    }));
}

pub enum Outcome {
    Held,
    Violated(Fail),
    Broken(String),
}

pub fn panic_outcome() -> Outcome {
    match take_panic() {
        Some((true, m)) => Outcome::Broken(m),
        Some((false, m)) => match m.strip_prefix("SIMFAIL:") {
            Some(rest) => {
                let (class, msg) = rest.split_once(':').unwrap_or(("simfail", rest));
                Outcome::Violated(Fail { class: class.to_string(), msg: msg.trim().to_string() })
            }
            None => Outcome::Violated(Fail { class: "panic".into(), msg: format!("panicked: {}", m) }),
        },
        None => Outcome::Broken("panic without record".into()),
    }
}

/// Execute one plan on a fresh simulated thread.
pub fn run_case(prop: &'static Prop, plan: &Plan) -> (Outcome, Ctx) {
    let plan = plan.clone();
    let entf = prop.params.iter().position(|n| *n == "entf").map(|i| plan.par(i) != 0).unwrap_or(false);
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            quiet_thread();
            // on some threads another life went before: the same case, lived through and judged like the second one
            let lives = if rng::hash2(plan.par(0) as u64, 0x2222) % 8 == 0 { 2 } else { 1 };
            let mut c = Ctx::default();
            let mut r = Ok(Ok(()));
            for life in 0..lives {
                c = Ctx::default();
                os::enter_sim(if life + 1 == lives { plan.par(0) as u64 } else { rng::hash2(plan.par(0) as u64, 77) }, entf);
                r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&plan, &mut c)));
                os::unlimit();
                if !matches!(r, Ok(Ok(()))) {
                    break;
                }
            }
            if lives == 2 {
                c.probe("second_life");
            }
            let o = match r {
                Ok(Ok(())) => Outcome::Held,
                Ok(Err(f)) => {
                    if f.class == "harness" {
                        Outcome::Broken(f.msg)
                    } else {
                        Outcome::Violated(f)
                    }
                }
                Err(_) => panic_outcome(),
            };
            (o, c)
        })
        .expect("spawn");
    match h.join() {
        Ok(x) => x,
        Err(_) => (Outcome::Broken("simulated thread died outside the case".into()), Ctx::default()),
    }
}

pub fn case_plan(prop: &Prop, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut h = 0u64;
    for b in prop.id.bytes() {
        h = rng::hash2(h, b as u64);
    }
    let mut r = Rng::new(rng::hash2(rng::hash2(seed, h), idx));
    let plan = (prop.gen)(&mut r, thorough);
    assert_eq!(plan.p.len(), prop.params.len(), "{}: parameter count", prop.id);
    plan
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&a[2]),
        Some("worker") => driver::worker(&a[2..]),
        Some("exec") => driver::exec(&a[2], false),
        Some("replay") => driver::exec(&a[2], true),
        Some("shrink") => driver::shrink_main(&a[2..]),
        Some("show") => driver::show(&a[2], a[3].parse().unwrap()),
        Some("selftest") => driver::selftest(&a[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: baesim check|replay|show|selftest|list ...");
            2
        }
    };
    std::process::exit(code);
}
