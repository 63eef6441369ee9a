//! C16: blocks and simple sounds. C17: pause and mute. C18, C19: sound graphs. C20: parts held elsewhere.

use super::parts::*;
use crate::plan::{st, Plan, LOST};
use crate::rng::Rng;
use crate::sched::{host, swarm_net, task, Net, Task};
use crate::{ensure, Ctx, Prop, Res};
use bae_rs::channels::*;
use bae_rs::sample_format::Mono;
use bae_rs::sounds::*;
use std::collections::BTreeSet;
use std::sync::Arc;

const BUFS: &[i64] = &[1, 2, 3, 16, 32, 64, 480];

// ---- C16 --------------------------------------------------------------------------------------------------------

fn c16_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = r.logu(5, if thorough { 20_000 } else { 2000 });
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let msgs = if thorough { 200 } else { 60 };
    let gains = |r: &mut Rng| if r.chance(0.2) { r.pick(&[0, 1000, -1000]) } else { gain_milli(r, 2000) };
    let spec = |op: usize| move |r: &mut Rng| st(op, &Spec::random(r).args());
    let mut tasks: Vec<Task> = vec![];
    if r.chance(0.8) {
        tasks.push(task(mean, move |r| st(1, &[gains(r)])));
    }
    if r.chance(0.8) {
        tasks.push(task(mean, move |r| st(2, &[gains(r)])));
    }
    if r.chance(0.8) {
        tasks.push(task(mean * 3.0, spec(3)));
    }
    if r.chance(0.4) {
        tasks.push(task(mean * 5.0, move |r| st(4, &[r.range(0, 3), r.seed()])));
    }
    if total < 300 && r.chance(0.03) {
        tasks.push(task(total as f64, move |r| st(4, &[r.logu(10, 300), r.seed()])));
    }
    if r.chance(0.2) {
        tasks.push(task(mean * 2.0, move |r| st(9, &[r.below(2) as i64])));
        tasks.push(task(mean * 2.0, move |r| st(10, &[r.range(-2, 1000)])));
    }
    let blocks = r.range(0, 3);
    if blocks > 0 {
        let wild = r.chance(0.05);
        tasks.push(task(mean / 3.0, move |r| st(5, &[r.range(0, 2), if wild && r.chance(0.05) { r.pick(&[2000, -2000, 3000]) } else { r.range(-128, 128) }])));
        tasks.push(task(mean / 3.0, move |r| st(6, &[r.range(0, 2), r.pick(&[1, 1, 1, 2, 5])])));
        if r.chance(0.4) {
            tasks.push(task(mean * 4.0, move |r| st(7, &[r.range(0, 2), r.range(0, 6), r.seed()])));
            tasks.push(task(mean * 4.0, move |r| st(8, &[r.range(0, 2), r.range(0, 7), r.seed()])));
        }
    }
    let steps = host(r, total, tasks, &net, 0, BUFS, msgs);
    let s = Spec::random(r);
    Plan {
        p: vec![ent, gains(r), gains(r), s.0, s.1, s.2, s.3, r.range(0, 9), r.seed(), blocks, r.range(0, 2), level_log2(r), r.chance(0.03) as i64],
        steps,
    }
}

/// How the block of a simple sound may have been made.
fn make_block(spec: Spec, how: i64) -> (RefBlock, StandardBlock) {
    match how {
        1 => {
            // from_generator: the input is ignored
            let s = Spec(spec.0, 5, 1, spec.3);
            let (mut m, _) = RefBlock::pair(s);
            let (ng, nm) = (Count::default(), Count::default());
            m.ng = ng.clone();
            m.nm = nm;
            let b = StandardBlock::from_generator(s.make_g(&ng));
            (m, b)
        }
        2 => {
            let s = Spec(6, spec.1, 2, spec.3);
            let (mut m, _) = RefBlock::pair(s);
            let (ng, nm) = (Count::default(), Count::default());
            m.ng = ng;
            m.nm = nm.clone();
            let b = StandardBlock::from_modifier(s.make_m(&nm));
            (m, b)
        }
        _ => RefBlock::pair(spec),
    }
}

fn advanced(m: &RefBlock, how: i64) -> bool {
    match how {
        1 => m.ng.get() == m.runs,
        2 => m.nm.get() == m.runs,
        _ => m.advanced(),
    }
}

fn c16_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let how = plan.par(10).rem_euclid(3);
    let (mut gm, gb) = make_block(Spec::from(&plan.p[3..7]), how);
    c.probe(["block_from_both", "block_from_generator", "block_from_modifier"][how as usize]);
    let (mut gi, mut go) = (milli(plan.par(1)), milli(plan.par(2)));
    let mut snd = SimpleSound::new(gi, go, Arc::new(gb));
    let mut mods: Vec<RefBlock> = vec![];
    let mut free: Vec<(RefBlock, StandardBlock)> = (0..plan.par(9).clamp(0, 3)).map(|i| RefBlock::pair(Spec(0, 0, (i + 1) % 4, plan.par(8) ^ i))).collect();
    let mut n = 0u64;
    let mut peak = 0f32;
    let lv = level(plan.par(11));
    // the largest quantity met so far, in the sound and in each block
    let mut hi = 0f64;
    let mut bhi = [0f64; 3];
    let mut mag = [0f64; 3];
    let (mut paused, mut muted, mut id) = (false, false, None);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 100_000) {
                    let x = odd_input(plan.par(7), plan.par(8), n, plan.par(12) != 0) * lv;
                    let y = snd.process(x);
                    n += 1;
                    if !x.is_finite() {
                        c.probe("fed_beyond_number");
                    }
                    if paused {
                        ensure!(y == 0.0, "wrong_sound", "sample {}: {} while paused", n, y);
                        c.probe("processed_paused");
                        continue;
                    }
                    gm.pend = (x * gi as f32) as f64;
                    let higher = |hi: f64, v: f64| if v.is_finite() { hi.max(v.abs()) } else { hi };
                    hi = higher(hi, gm.pend);
                    let mut e = gm.run();
                    hi = higher(hi, e as f64);
                    for m in mods.iter_mut() {
                        m.pend = e as f64;
                        e = m.run();
                        hi = higher(hi, e as f64);
                    }
                    let want = if muted { 0.0 } else { e as f64 * go as f32 as f64 };
                    c.out(y);
                    peak = peak.max(y.abs());
                    let good = if want.is_finite() { near(y, want, hi * go.abs()) || want.abs() > 3.3e38 && y.is_infinite() } else { same(y as f64, want, 0.0) };
                    ensure!(good, "wrong_sound", "sample {}: {} where the parts give {} (input {}, gains {} and {}, {} modifiers)", n, y, want, x, gi, go, mods.len());
                    ensure!(advanced(&gm, how), "advance", "sample {}: the generator block's parts ran {}, {} and {} times after {} samples", n, gm.ng.get(), gm.nm.get(), gm.ni.get(), gm.runs);
                    for (i, m) in mods.iter().enumerate() {
                        ensure!(m.advanced(), "advance", "sample {}: the parts of modifier {} ran {}, {} and {} times after {} samples", n, i, m.ng.get(), m.nm.get(), m.ni.get(), m.runs);
                    }
                    if mods.len() > 100 {
                        c.probe("over_a_hundred_modifiers");
                    }
                }
            }
            1 => {
                gi = milli(s.arg(0));
                snd.set_input_gain(gi);
                c.probe("input_gain_changed");
            }
            2 => {
                go = milli(s.arg(0));
                snd.set_output_gain(go);
                c.probe("output_gain_changed");
            }
            3 => {
                if mods.len() < 12 {
                    let (m, b) = RefBlock::pair(Spec::from(&s.a));
                    snd.add_modifier::<u8>(Arc::new(b));
                    mods.push(m);
                    c.probe("modifier_added");
                }
            }
            4 => {
                let mut v: Vec<BlockSP> = vec![];
                let max = if s.arg(0) > 3 { 400 } else { 12 };
                for k in 0..s.arg(0).clamp(0, 400) {
                    if mods.len() < max {
                        let (m, b) = RefBlock::pair(Spec(0, 0, 3, s.arg(1) ^ k));
                        v.push(Arc::new(b));
                        mods.push(m);
                    }
                }
                if s.arg(1) & 1 == 1 && s.arg(0) > 3 {
                    // one by one
                    for b in v {
                        snd.add_modifier::<u8>(b);
                    }
                } else {
                    snd.extend_modifiers(v);
                }
                c.probe("modifiers_extended");
            }
            9 => {
                if s.arg(0) == 0 {
                    snd.toggle_pause();
                    paused = !paused;
                } else {
                    snd.toggle_mute();
                    muted = !muted;
                    c.probe("muted");
                }
            }
            10 => {
                id = if s.arg(0) < 0 { None } else { Some(s.arg(0) as usize) };
                match id {
                    Some(i) => snd.register(i),
                    None => snd.unregister(),
                }
                c.probe("registered_or_unregistered");
            }
            k => {
                if free.is_empty() {
                    continue;
                }
                let i = s.arg(0).rem_euclid(free.len() as i64) as usize;
                let (m, b) = &mut free[i];
                match k {
                    5 => {
                        let x = match s.arg(1) {
                            2000 => f32::INFINITY,
                            -2000 => f32::NEG_INFINITY,
                            3000 => f32::NAN,
                            k => k.clamp(-1000, 1000) as f32 / 64.0 * lv,
                        };
                        if !x.is_finite() {
                            c.probe("primed_beyond_number");
                        }
                        b.prime_input(x);
                        if m.pend != 0.0 {
                            c.probe("block_primed_repeatedly");
                        }
                        m.pend += x as f64;
                        if x.is_finite() {
                            mag[i] += x.abs() as f64;
                        }
                    }
                    6 => {
                        for _ in 0..s.arg(1).clamp(0, 1000) {
                            if m.pend == 0.0 {
                                c.probe("block_run_unprimed");
                            }
                            let fed = m.pend;
                            let y = b.process();
                            let e = m.run();
                            bhi[i] = bhi[i].max(std::mem::take(&mut mag[i]));
                            if e.is_finite() {
                                bhi[i] = bhi[i].max(e.abs() as f64);
                            }
                            c.out(y);
                            peak = peak.max(y.abs());
                            let same = if e.is_finite() { near(y, e as f64, bhi[i]) } else { y.is_nan() || y == e || e.is_nan() };
                            ensure!(same, "wrong_block", "block {} run {}: {} where its parts give {} for primed input {}", i, m.runs, y, e, fed);
                            ensure!(m.advanced(), "advance", "block {}: its parts ran {}, {} and {} times after {} runs", i, m.ng.get(), m.nm.get(), m.ni.get(), m.runs);
                        }
                    }
                    7 => {
                        let sp = Spec::from(&[s.arg(1), 0, 0, s.arg(2)]);
                        *b.get_g_mut() = Arc::new(sp.make_g(&m.ng));
                        m.g = sp.make_g(&Count::default());
                        c.probe("generator_replaced");
                    }
                    _ => {
                        let sp = Spec::from(&[0, s.arg(1), 0, s.arg(2)]);
                        *b.get_m_mut() = Arc::new(sp.make_m(&m.nm));
                        m.m = sp.make_m(&Count::default());
                        c.probe("modifier_replaced");
                    }
                }
            }
        }
        ensure!(snd.get_id() == id, "identity", "the sound reports {:?} where {:?} was set", snd.get_id(), id);
        for (name, want, got) in [("input", gi, snd.get_input_gain()), ("output", go, snd.get_output_gain())] {
            ensure!((want - got).abs() <= 1e-6 * (1.0 + want.abs()), "gain_reads_back", "{} gain set to {} reads {}", name, want, got);
        }
    }
    c.nontrivial = peak > 0.0;
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    params: &["ent", "in_milli", "out_milli", "gkind", "mkind", "inter", "seed", "input", "inseed", "blocks", "how", "level_log2", "odd_input"],
    ops: &[
        ("run", &["n"]),
        ("set_input_gain", &["milli"]),
        ("set_output_gain", &["milli"]),
        ("add_modifier", &["g", "m", "i", "seed"]),
        ("extend_modifiers", &["k", "seed"]),
        ("prime", &["block", "x64"]),
        ("process", &["block", "n"]),
        ("replace_generator", &["block", "kind", "seed"]),
        ("replace_modifier", &["block", "kind", "seed"]),
        ("toggle", &["mute"]),
        ("register", &["id"]),
    ],
    gen: c16_gen,
    run: c16_run,
    quick: 700_000,
    thorough: 16_000_000,
    rule: "the output was not silent throughout",
    oracle: "model of blocks and chain over twins of the parts, call counts of every part",
    real: &["StandardBlock", "SimpleSound", "half of the cases: real oscillators, clips, filters, delays, echoes, gains and envelopes as parts"],
    stub: &["half of the cases: synthetic parts", "control task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "block_from_both", "block_from_generator", "block_from_modifier", "input_gain_changed", "output_gain_changed", "modifier_added",
        "modifiers_extended", "block_primed_repeatedly", "block_run_unprimed", "generator_replaced", "modifier_replaced",
        "primed_beyond_number", "fed_beyond_number", "processed_paused", "muted", "registered_or_unregistered", "over_a_hundred_modifiers",
    ],
};

// ---- C17 --------------------------------------------------------------------------------------------------------

fn c17_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = r.logu(5, if thorough { 20_000 } else { 2500 });
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let kind = r.below(3) as i64;
    let mut tasks = vec![task(mean, |_: &mut Rng| st(1, &[])), task(mean, |_: &mut Rng| st(2, &[]))];
    if r.chance(0.3) {
        tasks.remove(r.below(2) as usize);
    }
    if r.chance(0.4) {
        tasks.push(task(mean, |r: &mut Rng| st(3, &[r.range(0, 7), gain_milli(r, 2000), r.seed()])));
    }
    if r.chance(0.2) {
        tasks.push(task(mean, |r: &mut Rng| st(4, &[r.range(-2, 1000)])));
    }
    let steps = host(r, total, tasks, &net, 0, BUFS, if thorough { 300 } else { 80 });
    Plan { p: vec![ent, kind, r.range(1, 6), r.seed(), r.range(0, 9), gain_milli(r, 2000), gain_milli(r, 2000), level_log2(r)], steps }
}

/// A sound with the nodes of its blocks, for editing it later.
pub enum Built {
    Simple(SimpleSound),
    Graph(ComplexSound, Vec<GraphNode>),
}

impl Built {
    pub fn sound(&mut self) -> &mut dyn Sound {
        match self {
            Built::Simple(s) => s,
            Built::Graph(s, _) => s,
        }
    }

    /// A change of what the sound is made of: gains and modifiers, or blocks and connections.
    fn edit(&mut self, what: i64, gain: f64, seed: i64, n: &Count) {
        let mut r = Rng::new(seed as u64);
        let s = Spec::random(&mut r);
        let b = || -> BlockSP { Arc::new(s.block(n, n, &Count::default())) };
        match self {
            Built::Simple(s) => match what {
                0..=2 => s.set_input_gain(gain),
                3..=5 => s.set_output_gain(gain),
                6 => s.add_modifier::<u8>(b()),
                _ => s.extend_modifiers(vec![b()]),
            },
            Built::Graph(s, v) => {
                let (x, y) = (r.below(v.len() as u64) as usize, r.below(v.len() as u64) as usize);
                match what {
                    0..=1 => {
                        let node = s.add_block(b());
                        s.add_connection(v[x], node);
                        s.add_connection(node, s.get_output_gain());
                        v.push(node);
                    }
                    2..=4 if x != y => s.add_connection(v[x.min(y)], v[x.max(y)]),
                    5..=6 if x != y => s.remove_connection(v[x.min(y)], v[x.max(y)]),
                    _ => s.remove_connection(v[x], s.get_output_gain()),
                }
            }
        }
    }
}

/// A sound of the given kind with real and synthetic parts, and the call counter shared by all its parts.
pub fn build_sound(kind: i64, size: i64, seed: i64, gi: f64, go: f64) -> (Box<dyn Sound>, Count) {
    match build(kind, size, seed, gi, go) {
        (Built::Simple(s), n) => (Box::new(s), n),
        (Built::Graph(s, _), n) => (Box::new(s), n),
    }
}

pub fn build(kind: i64, size: i64, seed: i64, gi: f64, go: f64) -> (Built, Count) {
    let n = Count::default();
    let mut r = Rng::new(seed as u64);
    let block = |r: &mut Rng| -> BlockSP {
        let s = Spec::random(r);
        Arc::new(s.block(&n, &n, &Count::default()))
    };
    if kind == 0 {
        let mut s = SimpleSound::new(gi, go, block(&mut r));
        for _ in 0..size {
            s.add_modifier::<u8>(block(&mut r));
        }
        (Built::Simple(s), n)
    } else {
        let mut s = ComplexSound::new(gi, go);
        let mut v = vec![s.get_input_gain()];
        for _ in 0..size {
            let b = s.add_block(block(&mut r));
            let from = r.pick(&v);
            s.add_connection(from, b);
            v.push(b);
            if r.chance(0.3) {
                let (x, y) = (r.pick(&v), r.pick(&v));
                // no edges back in the order of addition: products in a loop could grow without bound
                if x < y {
                    s.add_connection(x, y);
                }
            }
        }
        if kind == 2 {
            // feedback, damped well below the gain of the paths it can close
            for _ in 0..r.range(1, 4) {
                let f = s.add_block(Arc::new(StandardBlock::from_modifier(bae_rs::modifiers::Gain::new(1.0 / 64.0))));
                let (x, y) = (r.pick(&v), r.pick(&v));
                if r.chance(0.3) {
                    s.add_connection(f, f);
                }
                s.add_connection(x.max(y), f);
                s.add_connection(f, x.min(y));
            }
        }
        s.add_connection(*v.last().unwrap(), s.get_output_gain());
        let x = r.pick(&v);
        s.add_connection(x, s.get_output_gain());
        (Built::Graph(s, v), n)
    }
}

fn c17_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let kind = plan.par(1).rem_euclid(3);
    let size = plan.par(2).clamp(0, 12);
    let (gi, go) = (milli(plan.par(5)), milli(plan.par(6)));
    let (mut snd, calls) = build(kind, size, plan.par(3), gi, go);
    let (mut twin, tcalls) = build(kind, size, plan.par(3), gi, go);
    c.probe(["simple", "graph", "graph_with_feedback"][kind as usize]);
    let (mut paused, mut muted) = (false, false);
    let mut n = 0u64;
    let mut heard = false;
    let lv = level(plan.par(7));
    let mut hi = 0f32;
    let mut id = None;
    let (mut was_paused, mut was_muted) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 100_000) {
                    let x = input(plan.par(4), plan.par(3), n) * lv;
                    let y = snd.sound().process(x);
                    let e = if paused { 0.0 } else { twin.sound().process(x) };
                    let want = if muted { 0.0 } else { e };
                    hi = hi.max(e.abs());
                    c.out(y);
                    ensure!(
                        (y.to_bits() == want.to_bits() || (y - want).abs() <= 1e-5 * hi) && (y == 0.0 || !(paused || muted)),
                        if paused || muted { "not_silent" } else { "not_continued" },
                        "sample {}: {} instead of {} (paused {}, muted {})", n, y, want, paused, muted
                    );
                    ensure!(calls.get() == tcalls.get(), "advance", "sample {} (paused {}, muted {}): {} calls to parts instead of {}", n, paused, muted, calls.get(), tcalls.get());
                    heard |= y != 0.0;
                    n += 1;
                    c.probe(match (paused, muted) {
                        (true, true) => "processed_paused_and_muted",
                        (true, false) => "processed_paused",
                        (false, true) => "processed_muted",
                        _ if was_paused => "processed_after_pause",
                        _ if was_muted => "processed_after_mute",
                        _ => "processed_fresh",
                    });
                }
            }
            1 => {
                snd.sound().toggle_pause();
                paused = !paused;
                was_paused = true;
            }
            3 => {
                snd.edit(s.arg(0), milli(s.arg(1)), s.arg(2), &calls);
                twin.edit(s.arg(0), milli(s.arg(1)), s.arg(2), &tcalls);
                c.probe(if paused { "edited_while_paused" } else if muted { "edited_while_muted" } else { "edited" });
            }
            4 => {
                id = if s.arg(0) < 0 { None } else { Some(s.arg(0) as usize) };
                match id {
                    Some(i) => snd.sound().register(i),
                    None => snd.sound().unregister(),
                }
                c.probe("registered_or_unregistered");
            }
            _ => {
                snd.sound().toggle_mute();
                muted = !muted;
                was_muted = true;
            }
        }
        let got = snd.sound().get_id();
        ensure!(got == id, "identity", "the sound reports {:?} where {:?} was set", got, id);
        ensure!(snd.sound().is_paused() == paused, "reported_state", "after {} samples is_paused() is {} where the toggles give {}", n, snd.sound().is_paused(), paused);
        ensure!(snd.sound().is_muted() == muted, "reported_state", "after {} samples is_muted() is {} where the toggles give {}", n, snd.sound().is_muted(), muted);
    }
    c.nontrivial = heard && (was_paused || was_muted);
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    params: &["ent", "kind", "size", "seed", "input", "in_milli", "out_milli", "level_log2"],
    ops: &[("run", &["n"]), ("toggle_pause", &[]), ("toggle_mute", &[]), ("edit", &["what", "milli", "seed"]), ("register", &["id"])],
    gen: c17_gen,
    run: c17_run,
    quick: 430_000,
    thorough: 11_000_000,
    rule: "at least one toggle arrived and the sound was audible at some time",
    oracle: "twin sound processed for the non-paused samples only, call counts of all parts, parity of the delivered toggles",
    real: &["SimpleSound", "ComplexSound", "StandardBlock", "generators and modifiers as parts"],
    stub: &["control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["simple", "graph", "graph_with_feedback", "processed_fresh", "processed_paused", "processed_muted", "processed_paused_and_muted", "processed_after_pause", "processed_after_mute", "edited", "edited_while_paused", "edited_while_muted", "registered_or_unregistered"],
};

// ---- graphs -----------------------------------------------------------------------------------------------------

/// A graph-based sound of logging blocks beside an account of every signal produced and not yet delivered.
struct Bench {
    snd: ComplexSound,
    nodes: Vec<GraphNode>,
    edges: BTreeSet<(usize, usize)>,
    log: Log,
    pend: Vec<f64>,
    mag: Vec<f64>,
    hold: Vec<Option<BlockSP>>,
    whole: Option<ComplexSound>,
    gi: f64,
    go: f64,
    level: f32,
    n: u64,
    /// same-sample connections of the present graph
    direct: Vec<(usize, usize)>,
    stale: bool,
    paused: bool,
    muted: bool,
}

const IN: usize = 0;
const OUT: usize = 1;

impl Bench {
    fn new(gi: f64, go: f64, level: f32) -> Bench {
        let snd = ComplexSound::new(gi, go);
        let nodes = vec![snd.get_input_gain(), snd.get_output_gain()];
        Bench {
            snd,
            nodes,
            edges: BTreeSet::new(),
            log: Log::default(),
            pend: vec![0.0; 2],
            mag: vec![0.0; 2],
            hold: vec![None, None],
            whole: None,
            gi,
            go,
            level,
            n: 0,
            direct: vec![],
            stale: false,
            paused: false,
            muted: false,
        }
    }
    fn blocks(&self) -> usize {
        self.nodes.len() - 2
    }
    fn node(&self, v: i64) -> usize {
        v.rem_euclid(self.nodes.len() as i64) as usize
    }
    fn add(&mut self, kind: i64, seed: i64, held: bool) {
        let id = self.nodes.len();
        let b: BlockSP = Arc::new(LogBlock { id, kind, seed: seed as u64, n: 0, acc: 0.0, log: self.log.clone(), level: self.level });
        self.hold.push(if held { Some(b.clone()) } else { None });
        let g = self.snd.add_block(b);
        self.nodes.push(g);
        self.pend.push(0.0);
        self.mag.push(0.0);
        self.stale = true;
    }
    /// May a and b be connected? Not if the two stages would feed themselves with growing signals.
    fn stable(&self, a: usize, b: usize) -> bool {
        a >= 2 || b >= 2 || (a, b) == (IN, OUT) || (self.gi.abs() * (1.0 + self.go.abs()) < 0.95 && self.go.abs() < 0.95)
    }
    fn connect(&mut self, a: usize, b: usize) {
        if !self.stable(a, b) {
            return;
        }
        self.snd.add_connection(self.nodes[a], self.nodes[b]);
        self.edges.insert((a, b));
        self.stale = true;
    }
    fn disconnect(&mut self, a: usize, b: usize) {
        self.snd.remove_connection(self.nodes[a], self.nodes[b]);
        self.edges.remove(&(a, b));
        self.stale = true;
    }
    /// Connections that lie on no cycle, leaving aside those into the input stage and out of the output stage.
    fn rederive(&mut self) {
        if !std::mem::take(&mut self.stale) {
            return;
        }
        let e: Vec<(usize, usize)> = self.edges.iter().copied().filter(|(a, b)| *b != IN && *a != OUT).collect();
        let n = self.nodes.len();
        let mut adj = vec![vec![]; n];
        for (a, b) in &e {
            adj[*a].push(*b);
        }
        let mut reach = vec![vec![false; n]; n];
        for s in 0..n {
            let mut st = adj[s].clone();
            while let Some(v) = st.pop() {
                if !reach[s][v] {
                    reach[s][v] = true;
                    st.extend(&adj[v]);
                }
            }
        }
        self.direct = e.into_iter().filter(|(a, b)| !reach[*b][*a]).collect();
    }
    fn cyclic(&self) -> bool {
        self.direct.len() < self.edges.len()
    }
    fn held(&self, v: usize) -> bool {
        self.whole.is_some() || self.hold[v].is_some()
    }
    fn deliver(&mut self, from: usize, y: f64, mag: f64) {
        for &(a, b) in &self.edges {
            if a == from && !(self.whole.is_some() || self.hold[b].is_some()) {
                self.pend[b] += y;
                self.mag[b] += mag;
            }
        }
    }
    fn take(&mut self, v: usize) -> (f64, f64) {
        (std::mem::take(&mut self.pend[v]), std::mem::take(&mut self.mag[v]))
    }
    /// Process one sample and settle the accounts.
    fn sample(&mut self, x: f32) -> Result<f32, crate::Fail> {
        self.rederive();
        self.log.borrow_mut().clear();
        let x = x * self.level;
        let lv = self.level as f64;
        let y = self.snd.process(x);
        let n = self.n;
        if self.paused {
            ensure!(y == 0.0, "paused_not_silent", "sample {}: {} from a paused sound", n, y);
            ensure!(self.log.borrow().is_empty(), "paused_but_ran", "sample {}: {} blocks of a paused sound ran", n, self.log.borrow().len());
            self.n += 1;
            return Ok(y);
        }
        if !self.held(IN) {
            let (p, mag) = self.take(IN);
            let o = self.gi as f32 as f64 * (x as f64 + p);
            self.deliver(IN, o, self.gi.abs() * (x.abs() as f64 + mag));
        }
        let mut pos = vec![usize::MAX; self.nodes.len()];
        let events: Vec<(usize, f64, f32)> = self.log.borrow().iter().map(|r| (r.id, r.input, r.out)).collect();
        for (k, (id, got, out)) in events.into_iter().enumerate() {
            ensure!(pos[id] == usize::MAX, "ran_twice", "sample {}: block {} ran twice", n, id - 2);
            ensure!(!self.held(id), "ran_while_held", "sample {}: block {} ran although its handle was held", n, id - 2);
            pos[id] = k;
            let (want, mag) = self.take(id);
            ensure!(
                same(got, want, 2e-5 * (lv + mag)),
                "wrong_input", "sample {}: block {} was fed {} where its predecessors produced {}", n, id - 2, got, want
            );
            self.deliver(id, out as f64, out.abs() as f64);
        }
        for v in 2..self.nodes.len() {
            ensure!(self.held(v) || pos[v] != usize::MAX, "not_run", "sample {}: block {} did not run", n, v - 2);
        }
        for &(a, b) in &self.direct {
            if a >= 2 && b >= 2 && !self.held(a) && !self.held(b) {
                ensure!(pos[a] < pos[b], "late", "sample {}: block {} ran before its predecessor {} although they are on no cycle", n, b - 2, a - 2);
            }
        }
        if self.held(OUT) {
            ensure!(y == 0.0, "not_silent", "sample {}: {} from a sound whose output stage is held", n, y);
        } else {
            let (p, mag) = self.take(OUT);
            let want = self.go as f32 as f64 * p;
            if self.muted {
                ensure!(y == 0.0, "muted_not_silent", "sample {}: {} from a muted sound", n, y);
                self.deliver(OUT, want, self.go.abs() * mag);
            } else {
                ensure!(same(y as f64, want, 2e-5 * (lv + mag) * (1.0 + self.go.abs())), "wrong_output", "sample {}: returned {} where the output stage was fed {} at gain {}", n, y, p, self.go);
                self.deliver(OUT, y as f64, y.abs() as f64);
            }
        }
        self.n += 1;
        Ok(y)
    }
    fn check_order(&self) -> Res {
        let v: Vec<usize> = self.snd.get_nodes().iter().map(|g| g.index()).collect();
        let mut s = v.clone();
        s.sort();
        let mut all: Vec<usize> = self.nodes.iter().map(|g| g.index()).collect();
        all.sort();
        ensure!(s == all, "order_lists_blocks", "after {} samples the order is {:?}, the blocks are {:?}", self.n, v, all);
        ensure!(
            v.first() == Some(&self.nodes[IN].index()) && v.last() == Some(&self.nodes[OUT].index()),
            "order_ends", "after {} samples the order is {:?}: input stage {} or output stage {} misplaced", self.n, v, self.nodes[IN].index(), self.nodes[OUT].index()
        );
        Ok(())
    }
}

fn graph_edit(r: &mut Rng, max: i64, undo: bool) -> crate::plan::Step {
    match r.below(if undo { 10 } else { 7 }) {
        0 | 1 => st(1, &[r.range(0, 2), r.seed()]),
        2..=6 => {
            // a bias towards input -> blocks -> output in the order of addition, in either direction of edge insertion
            let a = r.range(0, max);
            let b = r.range(0, max);
            match r.below(8) {
                0 => st(2, &[0, a.max(1)]),
                1 => st(2, &[a.max(2), 1]),
                2 | 3 => st(2, &[a, b]),
                4 => st(2, &[a.max(b), a.min(b).max(1)]),
                _ => st(2, &[a.min(b), a.max(b)]),
            }
        }
        _ => st(3, &[r.range(0, max), r.range(0, max)]),
    }
}

fn c18_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let max = if r.chance(0.0008) { r.range(20, 300) } else if r.chance(0.01) { 0 } else { r.range(1, if thorough { 14 } else { 9 }) };
    // the edges of a random graph, added in random order among the blocks
    let mut steps = vec![];
    for _ in 0..max {
        steps.push(st(1, &[r.range(0, 2), r.seed()]));
    }
    let mut edges = vec![];
    let cycles = r.chance(0.3);
    let m = if max == 0 {
        edges.push((0, 1));
        if cycles {
            edges.push(r.pick(&[(0, 1), (1, 0), (0, 0), (1, 1)]));
        }
        0
    } else if max > 9 && r.chance(0.5) {
        r.logu(1, 12 * max)
    } else if r.chance(0.05) {
        r.range(1, 40.min(9 * max))
    } else {
        r.range(1, 3 * max)
    };
    if max > 0 && r.chance(0.1) {
        edges.push((0, 1));
    }
    for _ in 0..m {
        let (a, b) = (r.range(2, max + 1), r.range(2, max + 1));
        let (a, b) = match r.below(5) {
            0 => (0, b),
            1 => (a, 1),
            _ => (a, b),
        };
        if cycles && r.chance(0.3) {
            edges.push((a, b));
            if r.chance(0.1) {
                edges.push(if r.chance(0.5) { (1, b) } else { (a, 0) });
            }
        } else if a == 0 || b == 1 {
            edges.push((a, b));
        } else if a != b {
            edges.push((a.min(b), a.max(b)));
        }
    }
    // block numbers carry no order of their own
    let mut perm: Vec<i64> = (2..max + 2).collect();
    for i in (1..perm.len()).rev() {
        perm.swap(i, r.below(i as u64 + 1) as usize);
    }
    let p = |v: i64| if v < 2 { v } else { perm[(v - 2) as usize] };
    for (a, b) in edges {
        steps.push(st(2, &[p(a), p(b)]));
    }
    if r.chance(0.3) {
        // a block added last
        steps.push(st(1, &[r.range(0, 2), r.seed()]));
    }
    let toggles = r.chance(0.2);
    if toggles && r.chance(0.5) {
        // paused or muted while it is built
        let at = r.below(steps.len() as u64 + 1) as usize;
        steps.insert(at, st(4, &[r.range(0, 1)]));
    }
    for _ in 0..if toggles { r.range(1, 4) } else { 0 } {
        steps.push(st(0, &[r.range(0, 4)]));
        steps.push(st(4, &[r.range(0, 1)]));
    }
    steps.push(st(0, &[r.range(1, if thorough { 60 } else { 12 })]));
    let g = r.pick(&[400, 2000]);
    Plan { p: vec![ent, gain_milli(r, g), gain_milli(r, g), r.range(0, 9), r.seed(), level_log2(r), r.chance(0.03) as i64], steps }
}

fn c19_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let big = r.chance(0.0008);
    let max = if big { r.range(20, 300) } else { r.range(2, if thorough { 12 } else { 8 }) };
    let total = r.logu(5, if thorough && !big { 3000 } else { 200 });
    let net = swarm_net(r);
    let msgs = r.range(5, if thorough { 150 } else { 50 });
    let mean = (total as f64 / msgs as f64).max(0.3);
    let mut last: Vec<crate::plan::Step> = vec![];
    let mut tasks = vec![task(mean, move |r: &mut Rng| {
        // repeat or revert an earlier edit now and then
        if !last.is_empty() && r.chance(0.3) {
            let i = r.below(last.len() as u64) as usize;
            let mut e = last[i].clone();
            if r.chance(0.7) {
                e.op = 5 - e.op;
            }
            e
        } else {
            let e = graph_edit(r, max, true);
            if e.op != 1 {
                last.push(e.clone());
            }
            e
        }
    })];
    if r.chance(0.3) {
        tasks.push(task(mean * 3.0, |r: &mut Rng| st(4, &[r.range(0, 1)])));
    }
    let mut steps = vec![];
    if big {
        for _ in 2..max {
            steps.push(st(1, &[r.range(0, 2), r.seed()]));
        }
        for _ in 0..if r.chance(0.5) { r.range(1, 2 * max) } else { r.logu(max, 12 * max) } {
            let (a, b) = (r.range(2, max), r.range(2, max));
            steps.push(match r.below(6) {
                0 => st(2, &[0, b]),
                1 => st(2, &[a, 1]),
                _ => st(2, &[a.min(b), a.max(b)]),
            });
        }
    }
    steps.extend(host(r, total, tasks, &net, 0, &[1, 2, 3, 8], msgs as usize));
    let g = r.pick(&[400, 2000]);
    Plan { p: vec![ent, gain_milli(r, g), gain_milli(r, g), r.range(0, 9), r.seed(), level_log2(r), r.chance(0.03) as i64], steps }
}

fn graph_run(plan: &Plan, c: &mut Ctx, order: bool) -> Res {
    c.net(plan);
    let mut b = Bench::new(milli(plan.par(1)), milli(plan.par(2)), level(plan.par(5)));
    let mut fed = false;
    if order {
        b.check_order()?;
    }
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                b.rederive();
                if b.cyclic() {
                    c.probe("played_with_feedback");
                } else {
                    c.probe("played_without_feedback");
                }
                if b.direct.len() > 2 * b.blocks() {
                    c.probe("dense_graph");
                }
                fed |= !b.direct.is_empty();
                if b.blocks() == 0 && fed {
                    c.probe("stages_only");
                }
                for _ in 0..s.arg(0).clamp(0, 10_000) {
                    let x = odd_input(plan.par(3), plan.par(4), b.n, plan.par(6) != 0);
                    if !x.is_finite() {
                        c.probe("fed_beyond_number");
                    }
                    let y = b.sample(x)?;
                    c.out(y);
                }
            }
            1 => {
                if b.blocks() < 400 {
                    b.add(s.arg(0), s.arg(1), false);
                    if b.paused {
                        c.probe("block_added_while_paused");
                    }
                    if b.blocks() == 100 {
                        c.probe("hundred_blocks");
                    }
                    c.probe(if b.n > 0 { "block_added_while_playing" } else { "block_added" });
                }
            }
            2 => {
                let (x, y) = (b.node(s.arg(0)), b.node(s.arg(1)));
                if b.edges.contains(&(x, y)) {
                    c.probe("existing_connection_added");
                }
                b.connect(x, y);
                if b.paused {
                    c.probe("connected_while_paused");
                }
                if y == IN || x == OUT {
                    c.probe("stage_feedback");
                }
                c.probe(if b.n > 0 { "connected_while_playing" } else { "connected" });
            }
            4 => {
                if s.arg(0) & 1 == 0 {
                    b.snd.toggle_pause();
                    b.paused = !b.paused;
                    c.probe("pause_toggled");
                } else {
                    b.snd.toggle_mute();
                    b.muted = !b.muted;
                    c.probe("mute_toggled");
                }
            }
            _ => {
                let (x, y) = (b.node(s.arg(0)), b.node(s.arg(1)));
                if !b.edges.contains(&(x, y)) {
                    c.probe("absent_connection_removed");
                } else if b.n > 0 {
                    c.probe("disconnected_while_playing");
                }
                b.disconnect(x, y);
            }
        }
        if order && s.op != 0 {
            b.check_order()?;
        }
    }
    c.nontrivial = fed && b.n > 0;
    Ok(())
}

fn c18_run(plan: &Plan, c: &mut Ctx) -> Res {
    graph_run(plan, c, false)
}
fn c19_run(plan: &Plan, c: &mut Ctx) -> Res {
    graph_run(plan, c, true)
}

const GOPS: &[(&str, &[&str])] = &[("run", &["n"]), ("add_block", &["kind", "seed"]), ("connect", &["from", "to"]), ("disconnect", &["from", "to"]), ("toggle", &["what"])];

pub static C18: Prop = Prop {
    id: "C18",
    params: &["ent", "in_milli", "out_milli", "input", "inseed", "level_log2", "odd_input"],
    ops: GOPS,
    gen: c18_gen,
    run: c18_run,
    quick: 1_100_000,
    thorough: 25_000_000,
    rule: "at least one sample processed over at least one connection that lies on no cycle",
    oracle: "account of every signal produced and due to each block, run counts, order of direct predecessors",
    real: &["ComplexSound and its input and output stages"],
    stub: &["logging blocks in place of generators and modifiers"],
    faults: &[],
    probes: &["block_added", "connected", "played_with_feedback", "played_without_feedback", "dense_graph", "stage_feedback", "hundred_blocks", "pause_toggled", "mute_toggled", "fed_beyond_number", "stages_only"],
};

pub static C19: Prop = Prop {
    id: "C19",
    params: &["ent", "in_milli", "out_milli", "input", "inseed", "level_log2", "odd_input"],
    ops: GOPS,
    gen: c19_gen,
    run: c19_run,
    quick: 920_000,
    thorough: 22_000_000,
    rule: "at least one sample processed over at least one connection that lies on no cycle",
    oracle: "account of every signal produced and due to each block across edits, reported order against the blocks",
    real: &["ComplexSound and its input and output stages"],
    stub: &["logging blocks in place of generators and modifiers", "editing task, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "block_added_while_playing", "connected_while_playing", "disconnected_while_playing", "existing_connection_added",
        "absent_connection_removed", "played_with_feedback", "played_without_feedback", "stage_feedback", "hundred_blocks", "pause_toggled", "mute_toggled", "block_added_while_paused",
        "connected_while_paused", "fed_beyond_number",
    ],
};

// ---- C20 --------------------------------------------------------------------------------------------------------

fn c20_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let kind = r.below(4) as i64;
    let total = r.logu(5, if thorough { 5000 } else { 400 });
    let net: Net = swarm_net(r);
    let mean = r.logu(1, (total / 4).max(2)) as f64;
    let hold = 0.2 + 0.7 * r.f();
    let mut tasks: Vec<Task> = vec![
        // new parts, some still held by whoever made them
        task(mean, move |r| st(1, &[r.range(0, if kind == 3 { 11 } else { 2 }), r.seed(), r.chance(hold) as i64])),
        // a holder lets go
        task(mean / if kind == 3 { 3.0 } else { 1.0 }, move |r| st(2, &[r.range(0, 83)])),
        // another owner takes a copy of the whole, uses it and drops it
        task(mean * 3.0, move |_| st(3, &[])),
        task(mean * 2.0, move |_| st(4, &[])),
        task(mean * 3.0, move |r| st(5, &[r.range(1, 3)])),
    ];
    if kind == 1 {
        tasks.push(task(mean / 3.0, move |r| {
            let e = graph_edit(r, 8, true);
            if e.op == 2 {
                st(6, &e.a)
            } else {
                st(7, &[r.range(0, 8), r.range(0, 8)])
            }
        }));
    }
    if kind == 2 {
        tasks.push(task(mean * 3.0, move |r| st(7, &[r.range(0, 12)])));
    }
    let steps = host(r, total, tasks, &net, 0, &[1, 2, 3, 8, 64], if thorough { 200 } else { 80 });
    Plan { p: vec![ent, kind, gain_milli(r, 2000), gain_milli(r, 2000), r.range(0, 9), r.seed(), if kind == 3 { r.range(0, 7) } else { r.chance(0.3) as i64 }, level_log2(r), r.below(4) as i64], steps }
}

fn c20_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    match plan.par(1).rem_euclid(4) {
        0 => c20_simple(plan, c),
        1 => c20_graph(plan, c),
        2 => c20_channel(plan, c),
        _ => c20_block(plan, c),
    }
}

/// A chain of blocks of which other owners hold single parts: generators, modifiers, combining functions.
fn c20_block(plan: &Plan, c: &mut Ctx) -> Res {
    struct B {
        m: RefBlock,
        hold: (Option<Arc<dyn bae_rs::generators::Generator>>, Option<Arc<dyn bae_rs::modifiers::Modifier>>, Option<Inter>),
        runs: [u64; 3],
    }
    let make = |spec: Spec, held: i64| {
        let (mut m, _) = RefBlock::pair(spec);
        let (ng, nm, ni) = (Count::default(), Count::default(), Count::default());
        (m.ng, m.nm, m.ni) = (ng.clone(), nm.clone(), ni.clone());
        let i = spec.make_i(&ni);
        let keep = if held & 4 != 0 { Some(i.clone()) } else { None };
        let b = StandardBlock::new(spec.make_g(&ng), spec.make_m(&nm), i);
        let hold = (if held & 1 != 0 { Some(b.get_g().clone()) } else { None }, if held & 2 != 0 { Some(b.get_m().clone()) } else { None }, keep);
        (B { m, hold, runs: [0; 3] }, b)
    };
    c.probe("block_parts");
    let (gi, go) = (milli(plan.par(2)), milli(plan.par(3)));
    let seed = plan.par(5);
    let (f, b) = make(Spec(0, 0, 3, seed), plan.par(6));
    let mut snd = SimpleSound::new(gi, go, Arc::new(b));
    let mut parts = vec![f];
    let mut n = 0u64;
    let lv = level(plan.par(7));
    let mut hi = 0f64;
    let (mut held_runs, mut resumed) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 10_000) {
                    let x = input(plan.par(4), seed, n) * lv;
                    let y = snd.process(x);
                    let mut e = 0f32;
                    for (i, p) in parts.iter_mut().enumerate() {
                        let held = [p.hold.0.is_some(), p.hold.1.is_some(), p.hold.2.is_some()];
                        for (k, name) in ["blocks_generator_held", "blocks_modifier_held", "blocks_function_held"].iter().enumerate() {
                            if held[k] {
                                held_runs = true;
                                c.probe(name);
                            }
                        }
                        p.m.pend = if i == 0 { (x * gi as f32) as f64 } else { e as f64 };
                        hi = hi.max(p.m.pend.abs());
                        e = p.m.run_held(held, &mut p.runs);
                        hi = hi.max(e.abs() as f64);
                    }
                    let want = e as f64 * go as f32 as f64;
                    c.out(y);
                    ensure!(near(y, want, hi * go.abs()), "wrong_while_held", "sample {}: {} where the parts not held give {}", n, y, want);
                    for (i, p) in parts.iter().enumerate() {
                        let ran = [p.m.ng.get(), p.m.nm.get(), p.m.ni.get()];
                        let good = ran[..2] == p.runs[..2] && (p.m.spec.2 != 3 || ran[2] == p.runs[2]);
                        ensure!(good, "advance", "sample {}: the parts of block {} ran {:?} times instead of {:?}", n, i, ran, p.runs);
                    }
                    n += 1;
                }
            }
            1 => {
                if parts.len() < 8 {
                    let k = s.arg(0).rem_euclid(12);
                    let (p, b) = make(Spec(0, k % 3 * 3, k / 3, s.arg(1)), s.arg(2) * (1 + s.arg(1).rem_euclid(7)));
                    snd.add_modifier::<u8>(Arc::new(b));
                    parts.push(p);
                }
            }
            2 => {
                let i = s.arg(0).rem_euclid(parts.len() as i64) as usize;
                let h = &mut parts[i].hold;
                let let_go = match s.arg(0).rem_euclid(7) {
                    0 | 1 => h.0.take().is_some(),
                    2 | 3 => h.1.take().is_some(),
                    4 | 5 => h.2.take().is_some(),
                    _ => h.0.take().is_some() | h.1.take().is_some() | h.2.take().is_some(),
                };
                if let_go && n > 0 {
                    resumed = true;
                    c.probe("released_after_playing");
                }
            }
            _ => {}
        }
    }
    // at last the holders keep no more than weak handles, which own nothing
    if plan.par(8) == 1 {
        let mut weak = (vec![], vec![], vec![]);
        for p in parts.iter_mut() {
            weak.0.extend(p.hold.0.take().map(|a| Arc::downgrade(&a)));
            weak.1.extend(p.hold.1.take().map(|a| Arc::downgrade(&a)));
            weak.2.extend(p.hold.2.take().map(|a| Arc::downgrade(&a)));
        }
        for _ in 0..3 {
            c.out(snd.process(lv));
        }
        if weak.0.len() + weak.1.len() + weak.2.len() > 0 {
            c.probe("weak_handles");
        }
        drop(weak);
        let before: Vec<u64> = parts.iter().flat_map(|p| [p.m.ng.get(), p.m.nm.get()]).collect();
        for _ in 0..3 {
            c.out(snd.process(lv));
        }
        let after: Vec<u64> = parts.iter().flat_map(|p| [p.m.ng.get(), p.m.nm.get()]).collect();
        ensure!(before.iter().zip(&after).all(|(a, b)| a + 3 == *b), "not_resumed", "nobody holds anything any more, but in three samples the parts went from {:?} to {:?} runs", before, after);
    }
    c.nontrivial = held_runs && resumed;
    Ok(())
}

struct Part {
    m: RefBlock,
    hold: Option<BlockSP>,
}

fn part(spec: Spec, held: bool) -> (Part, BlockSP) {
    let (m, b) = RefBlock::pair(spec);
    let b: BlockSP = Arc::new(b);
    let hold = if held { Some(b.clone()) } else { None };
    (Part { m, hold }, b)
}

fn c20_simple(plan: &Plan, c: &mut Ctx) -> Res {
    c.probe("simple_sound");
    let (gi, go) = (milli(plan.par(2)), milli(plan.par(3)));
    let (g, b) = part(Spec(0, 0, 3, plan.par(5)), plan.par(6) != 0);
    let mut snd = SimpleSound::new(gi, go, b);
    let mut parts = vec![g];
    let mut copy: Option<SimpleSound> = None;
    let mut n = 0u64;
    let lv = level(plan.par(7));
    let mut hi = 0f64;
    let (mut held_runs, mut resumed) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 10_000) {
                    let x = input(plan.par(4), plan.par(5), n) * lv;
                    let y = snd.process(x);
                    let mut e = 0f32;
                    for (i, p) in parts.iter_mut().enumerate() {
                        if p.hold.is_some() || copy.is_some() {
                            c.probe(if i == 0 { "generator_held" } else { "modifier_held" });
                            held_runs = true;
                            continue;
                        }
                        p.m.pend = if i == 0 { (x * gi as f32) as f64 } else { e as f64 };
                        hi = hi.max(p.m.pend.abs());
                        e = p.m.run();
                        hi = hi.max(e.abs() as f64);
                    }
                    let want = e as f64 * go as f32 as f64;
                    c.out(y);
                    let who: Vec<usize> = parts.iter().enumerate().filter(|p| p.1.hold.is_some()).map(|p| p.0).collect();
                    ensure!(near(y, want, hi * go.abs()), "wrong_while_held", "sample {}: {} where the parts not held give {} (held: {:?}, copy alive: {})", n, y, want, who, copy.is_some());
                    for (i, p) in parts.iter().enumerate() {
                        ensure!(p.m.advanced(), "advance", "sample {}: part {} ran {} times instead of {}", n, i, p.m.ng.get(), p.m.runs);
                    }
                    n += 1;
                }
            }
            1 => {
                if parts.len() < 8 {
                    let (p, b) = part(Spec(0, s.arg(0).rem_euclid(3) * 3, 2 + s.arg(0).rem_euclid(2), s.arg(1)), s.arg(2) != 0);
                    snd.add_modifier::<u8>(b);
                    if let Some(k) = &mut copy {
                        // the copy goes its own way: it does not get the new part, so the part must not count as held
                        let _ = k;
                        copy = None;
                    }
                    parts.push(p);
                }
            }
            2 => {
                let i = s.arg(0).rem_euclid(parts.len() as i64) as usize;
                if parts[i].hold.take().is_some() && parts[i].m.runs == 0 && n > 0 {
                    resumed = true;
                    c.probe("released_after_playing");
                }
            }
            3 => {
                copy = Some(snd.clone());
                c.probe("whole_sound_copied");
            }
            4 => {
                if copy.take().is_some() {
                    resumed = true;
                    c.probe("copy_dropped");
                }
            }
            _ => {
                if let Some(k) = &mut copy {
                    for _ in 0..s.arg(0).clamp(0, 10) {
                        let y = k.process(0.5);
                        ensure!(y == 0.0, "copy_not_silent", "a copy whose every part is shared returned {}", y);
                    }
                    c.probe("copy_used");
                }
            }
        }
    }
    if plan.par(8) == 1 {
        copy = None;
        let weak: Vec<_> = parts.iter_mut().filter_map(|p| p.hold.take()).map(|a| Arc::downgrade(&a)).collect();
        for _ in 0..3 {
            c.out(snd.process(lv));
        }
        if !weak.is_empty() {
            c.probe("weak_handles");
        }
        drop((weak, copy));
        let before: Vec<u64> = parts.iter().map(|p| p.m.ng.get()).collect();
        for _ in 0..3 {
            c.out(snd.process(lv));
        }
        let after: Vec<u64> = parts.iter().map(|p| p.m.ng.get()).collect();
        ensure!(before.iter().zip(&after).all(|(a, b)| a + 3 == *b), "not_resumed", "nobody holds anything any more, but in three samples the parts went from {:?} to {:?} runs", before, after);
    }
    c.nontrivial = held_runs && resumed;
    Ok(())
}

fn c20_graph(plan: &Plan, c: &mut Ctx) -> Res {
    c.probe("graph_sound");
    let mut b = Bench::new(milli(plan.par(2)), milli(plan.par(3)), level(plan.par(7)));
    let (mut held_runs, mut resumed) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 10_000) {
                    let x = input(plan.par(4), plan.par(5), b.n);
                    if b.hold.iter().any(|h| h.is_some()) {
                        held_runs = true;
                        c.probe("graph_block_held");
                    }
                    if b.whole.is_some() {
                        held_runs = true;
                        c.probe("whole_graph_held");
                    }
                    let y = b.sample(x)?;
                    c.out(y);
                }
            }
            1 => {
                if b.blocks() < 12 && b.whole.is_none() {
                    b.add(s.arg(0), s.arg(1), s.arg(2) != 0);
                    b.rederive();
                }
            }
            2 => {
                let i = b.node(s.arg(0));
                if b.hold[i].take().is_some() && b.n > 0 {
                    resumed = true;
                    c.probe("released_after_playing");
                }
            }
            3 => {
                b.whole = Some(b.snd.clone());
                c.probe("whole_sound_copied");
            }
            4 => {
                if b.whole.take().is_some() {
                    resumed = true;
                    c.probe("copy_dropped");
                }
            }
            5 => {
                if let Some(k) = &mut b.whole {
                    for _ in 0..s.arg(0).clamp(0, 10) {
                        let y = k.process(0.5);
                        ensure!(y == 0.0, "copy_not_silent", "a copy whose every block is shared returned {}", y);
                    }
                    c.probe("copy_used");
                }
            }
            6 => {
                let (x, y) = (b.node(s.arg(0)), b.node(s.arg(1)));
                b.connect(x, y);
            }
            _ => {
                let (x, y) = (b.node(s.arg(0)), b.node(s.arg(1)));
                b.disconnect(x, y);
            }
        }
    }
    if plan.par(8) == 1 {
        b.whole = None;
        let weak: Vec<_> = b.hold.iter_mut().filter_map(|h| h.take()).map(|a| Arc::downgrade(&a)).collect();
        for _ in 0..3 {
            c.out(b.snd.process(b.level));
        }
        if !weak.is_empty() {
            c.probe("weak_handles");
        }
        drop(weak);
        for _ in 0..3 {
            b.log.borrow_mut().clear();
            c.out(b.snd.process(b.level));
            let ran = b.log.borrow().len();
            ensure!(ran == b.blocks(), "not_resumed", "nobody holds anything any more, but {} of {} blocks ran", ran, b.blocks());
        }
    }
    c.nontrivial = held_runs && resumed;
    Ok(())
}

struct Voice {
    seed: u64,
    n: Count,
    runs: u64,
    id: usize,
    hold: Option<Arc<dyn Sound>>,
}

fn c20_channel(plan: &Plan, c: &mut Ctx) -> Res {
    c.probe("channel");
    let gain = milli(plan.par(2));
    let mut ch = StandardChannel::<Mono>::new(gain);
    let mut voices: Vec<Voice> = vec![];
    let mut copy: Option<StandardChannel<Mono>> = None;
    let (mut held_runs, mut resumed) = (false, false);
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                let len = s.arg(0).clamp(1, 480);
                ch.set_process_time(std::time::Duration::from_nanos(len as u64 * 1_000_000_000 / 48_000 + 10));
                ch.process();
                let out = ch.get_output();
                ensure!(out.len() == len as usize, "buffer_length", "{} samples instead of {}", out.len(), len);
                for (i, y) in out.iter().enumerate() {
                    let y: f32 = bae_rs::sample_format::SampleFormat::into_sample(*y);
                    let mut sum = 0f64;
                    let mut mag = 0f64;
                    for v in voices.iter_mut() {
                        if v.hold.is_some() || copy.is_some() {
                            held_runs = true;
                            c.probe("channel_sound_held");
                            continue;
                        }
                        v.runs += 1;
                        let x = LogSound::value(v.seed, v.runs);
                        sum += x;
                        mag += x.abs();
                    }
                    let want = sum * gain as f32 as f64;
                    c.out(y);
                    ensure!(near(y, want, mag * gain.abs()), "wrong_while_held", "sample {} of the buffer: {} where the sounds not held give {}", i, y, want);
                }
                for v in &voices {
                    ensure!(v.n.get() == v.runs, "advance", "a sound (held: {}) ran {} times instead of {}", v.hold.is_some(), v.n.get(), v.runs);
                }
            }
            1 => {
                if voices.len() < 8 {
                    copy = None;
                    let n = Count::default();
                    let mut a: Arc<dyn Sound> = Arc::new(LogSound { seed: s.arg(1) as u64, n: n.clone(), bad_input: Count::default(), id: None, diary: Default::default(), quiet: 0, level: 1.0, odd: false });
                    ch.add_sound(&mut a);
                    let id = match a.get_id() {
                        Some(i) => i,
                        None => crate::fail!("not_registered", "the sound reports no identifier after add_sound"),
                    };
                    voices.push(Voice { seed: s.arg(1) as u64, n, runs: 0, id, hold: if s.arg(2) != 0 { Some(a) } else { None } });
                }
            }
            2 => {
                if !voices.is_empty() {
                    let i = s.arg(0).rem_euclid(voices.len() as i64) as usize;
                    if voices[i].hold.take().is_some() {
                        resumed = true;
                        c.probe("released_after_playing");
                    }
                }
            }
            3 => {
                copy = Some(ch.clone());
                c.probe("whole_channel_copied");
            }
            4 => {
                if copy.take().is_some() {
                    resumed = true;
                    c.probe("copy_dropped");
                }
            }
            5 => {
                if let Some(k) = &mut copy {
                    k.process();
                    for y in k.get_output() {
                        let y: f32 = bae_rs::sample_format::SampleFormat::into_sample(*y);
                        ensure!(y == 0.0, "copy_not_silent", "a copy whose every sound is shared returned {}", y);
                    }
                    c.probe("copy_used");
                }
            }
            _ => {
                if !voices.is_empty() {
                    copy = None;
                    let i = s.arg(0).rem_euclid(voices.len() as i64) as usize;
                    let v = voices.remove(i);
                    c.probe(if v.hold.is_some() { "removed_while_held" } else { "removed" });
                    ch.remove_sound(v.id);
                }
            }
        }
    }
    if plan.par(8) == 1 {
        let weak: Vec<_> = voices.iter_mut().filter_map(|v| v.hold.take()).map(|a| Arc::downgrade(&a)).collect();
        drop(copy);
        ch.set_process_time(std::time::Duration::from_nanos(3 * 1_000_000_000 / 48_000 + 10));
        ch.process();
        if !weak.is_empty() {
            c.probe("weak_handles");
        }
        drop(weak);
        let before: Vec<u64> = voices.iter().map(|v| v.n.get()).collect();
        ch.process();
        let after: Vec<u64> = voices.iter().map(|v| v.n.get()).collect();
        ensure!(before.iter().zip(&after).all(|(a, b)| a + 3 == *b), "not_resumed", "nobody holds anything any more, but in three samples the sounds went from {:?} to {:?} runs", before, after);
    }
    c.nontrivial = held_runs && resumed;
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    params: &["ent", "kind", "in_milli", "out_milli", "input", "seed", "first_held", "level_log2", "weak"],
    ops: &[
        ("run", &["n"]),
        ("add_part", &["kind", "seed", "held"]),
        ("release", &["part"]),
        ("copy_whole", &[]),
        ("drop_copy", &[]),
        ("use_copy", &["n"]),
        ("connect", &["from", "to"]),
        ("disconnect_or_remove", &["a", "b"]),
    ],
    gen: c20_gen,
    run: c20_run,
    quick: 780_000,
    thorough: 18_000_000,
    rule: "some part was held while samples were processed, and some holder let go",
    oracle: "model of sound, graph or channel in which held parts are bypassed or silent and keep their state",
    real: &["SimpleSound", "ComplexSound", "StandardChannel", "StandardBlock"],
    stub: &["synthetic parts", "holders, control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &[
        "simple_sound", "graph_sound", "channel", "generator_held", "modifier_held", "graph_block_held", "whole_graph_held", "channel_sound_held", "block_parts",
        "blocks_generator_held", "blocks_modifier_held", "blocks_function_held",
        "released_after_playing", "whole_sound_copied", "whole_channel_copied", "copy_dropped", "copy_used", "removed_while_held", "removed", "weak_handles",
    ],
};

