//! C26: memory over a long session. C27: render, save, reload and play back.

use super::channel::Speakers;
use super::common::script;
use super::sounds::build_sound;
use super::system::{Obj, Set, KINDS, NAMES};
use crate::io::{SimSink, SimSource, SinkFail};
use crate::plan::{st, Plan, LOST};
use crate::rng::{hash2, Rng};
use crate::sched::{host, swarm_net, task, Task};
use crate::sig::signal;
use crate::{ensure, fail, os, Ctx, Prop, Res};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::{Mono, SampleFormat, Stereo};
use bae_rs::sounds::*;
use std::sync::Arc;
use std::time::Duration;

// ---- C26 --------------------------------------------------------------------------------------------------------

const SLACK: u64 = 4096;
/// The same in allocations, whatever their size.
const PIECES: u64 = 48;

fn c26_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = r.logu(4, 400);
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    // swarm: some activities are absent from a session
    let on: Vec<bool> = (0..8).map(|_| r.chance(0.6)).collect();
    let mut tasks: Vec<Task> = vec![];
    let mut act = |k: usize, t: Task<'static>| {
        if on[k] {
            tasks.push(t);
        }
    };
    act(0, task(mean, |r| st(1, &[r.below(4) as i64, r.below(6) as i64, r.logu(1_000, 23_999_000)])));
    act(1, task(mean, |r| st(2, &[r.below(4) as i64])));
    act(2, task(mean / 2.0, |r| st(3, &[r.below(8) as i64, r.below(8) as i64, r.below(3) as i64])));
    act(3, task(mean, |r| st(4, &[r.below(2) as i64, r.below(3) as i64, r.range(0, 5), r.seed(), r.below(4) as i64])));
    act(4, task(mean, |r| st(5, &[r.below(2) as i64, r.range(0, 9)])));
    act(5, task(mean, |r| st(6, &[r.below(2) as i64, r.logu(20_000, 8_000_000), r.range(-1500, 1500)])));
    act(6, task(mean * 2.0, |r| st(7, &[r.below(4) as i64, r.range(0, 20)])));
    act(7, task(mean * 2.0, |r| st(8, &[r.below(3) as i64])));
    let steps = host(r, total, tasks, &net, 0, &[1, 2, 16, 64], 40);
    let rounds = r.logu(60, if thorough { 2000 } else { 400 });
    Plan { p: vec![ent, r.seed(), r.range(0, KINDS - 1), r.range(0, KINDS - 1), r.range(0, KINDS - 1), r.range(0, KINDS - 1), rounds, r.range(0, 9), r.chance(0.5) as i64], steps }
}

struct World {
    objs: Vec<(Set, Obj)>,
    noise: Noise,
    simple: Box<dyn Sound>,
    graph: ComplexSound,
    nodes: Vec<GraphNode>,
    mono: StandardChannel<Mono>,
    stereo: StandardChannel<Stereo>,
    ids: [Vec<usize>; 2],
    /// sounds somebody holds until the end of the cycle
    held: Vec<Arc<dyn Sound>>,
    n: u64,
}

fn world(plan: &Plan) -> World {
    let seed = plan.par(1);
    let mut graph = ComplexSound::new(0.5, 0.5);
    let mut nodes = vec![graph.get_input_gain(), graph.get_output_gain()];
    for k in 0..6u64 {
        let g = 0.1 + (hash2(seed as u64, k) % 8) as f32 / 100.0;
        let b: BlockSP = match k % 3 {
            0 => Arc::new(StandardBlock::from_generator(Square::new(100.0 + 50.0 * k as f64))),
            1 => Arc::new(StandardBlock::from_modifier(Gain::new(g))),
            _ => Arc::new(StandardBlock::new(Sawtooth::new(300.0), Delay::new(Duration::from_micros(200)), StandardBlock::default_interactor())),
        };
        nodes.push(graph.add_block(b));
    }
    World {
        objs: (0..4)
            .map(|k| {
                let s = Set::new(plan.par(2 + k), seed + k as i64);
                let o = s.fresh();
                (s, o)
            })
            .collect(),
        noise: Noise::new(),
        simple: build_sound(0, 3, seed, 0.7, 0.7).0,
        graph,
        nodes,
        mono: StandardChannel::new(0.5),
        stereo: StandardChannel::new(0.5),
        ids: [Vec::with_capacity(8), Vec::with_capacity(8)],
        held: Vec::with_capacity(64),
        n: 0,
    }
}

impl World {
    /// One round of the plan. In a varied session no two rounds use the same values.
    fn cycle(&mut self, plan: &Plan, c: &mut Ctx, round: i64) {
        let round = if plan.par(8) == 1 { round } else { 0 };
        if round > 0 {
            c.probe("values_differ_between_cycles");
        }
        for s in &plan.steps {
            if s.tag == LOST {
                continue;
            }
            let side = s.arg(0).rem_euclid(2) as usize;
            let i = s.arg(0).rem_euclid(4) as usize;
            match s.op {
                0 => {
                    for _ in 0..s.arg(0).clamp(0, 2000) {
                        let x = signal(plan.par(7), plan.par(1), self.n);
                        self.n += 1;
                        for o in &mut self.objs {
                            c.out(o.1.next(x));
                        }
                        self.noise.process();
                        c.out(self.simple.process(x));
                        c.out(self.graph.process(x));
                    }
                    self.mono.process();
                    self.stereo.process();
                }
                1 => {
                    let (set, o) = &mut self.objs[i];
                    set.poke(o, s.arg(1), 1000 + (s.arg(2).clamp(1000, 23_999_000) - 1000 + round * 7919) % 23_998_000);
                    c.probe("setting_changed");
                }
                2 => {
                    let snd: &mut dyn Sound = if i % 2 == 0 { &mut *self.simple } else { &mut self.graph };
                    if i / 2 == 0 {
                        snd.toggle_pause()
                    } else {
                        snd.toggle_mute()
                    }
                    c.probe("paused_or_muted");
                }
                3 => {
                    let (a, b) = (self.nodes[s.arg(0).rem_euclid(8) as usize], self.nodes[s.arg(1).rem_euclid(8) as usize]);
                    if s.arg(2) == 0 {
                        self.graph.remove_connection(a, b);
                    } else {
                        self.graph.add_connection(a, b);
                    }
                    let _ = self.graph.get_nodes();
                    c.probe("graph_edited");
                }
                4 => {
                    if self.ids[side].len() < 8 {
                        let (b, _) = build_sound(s.arg(1).rem_euclid(3), s.arg(2).clamp(0, 6), s.arg(3) ^ round, 0.5, 0.5);
                        let mut snd: Arc<dyn Sound> = Arc::new(Boxed(b));
                        if side == 0 {
                            self.mono.add_sound(&mut snd);
                        } else {
                            self.stereo.add_sound(&mut snd);
                        }
                        if let Some(id) = snd.get_id() {
                            self.ids[side].push(id);
                        }
                        if s.arg(4) == 3 && self.held.len() < 64 {
                            self.held.push(snd);
                            c.probe("sound_held_until_removed");
                        }
                        c.probe("sound_added");
                    }
                }
                5 => {
                    let id = match self.ids[side].is_empty() {
                        true => 1_000_000_007,
                        false => {
                            let k = s.arg(1).rem_euclid(self.ids[side].len() as i64) as usize;
                            self.ids[side].swap_remove(k)
                        }
                    };
                    self.remove(side, id);
                    c.probe("sound_removed");
                }
                6 => {
                    let d = Duration::from_nanos(((s.arg(1).clamp(0, 20_000_000) + round * 10_007) % 20_000_001) as u64);
                    let g = s.arg(2) as f64 / 1000.0;
                    if side == 0 {
                        self.mono.set_process_time(d);
                        self.mono.set_gain(g);
                    } else {
                        self.stereo.set_process_time(d);
                        self.stereo.set_gain(g);
                    }
                    c.probe("channel_changed");
                }
                7 => {
                    let mut k = self.objs[i].1.copy();
                    for j in 0..s.arg(1).clamp(0, 100) as u64 {
                        k.next(signal(plan.par(7), plan.par(1), j));
                    }
                    c.probe("cloned_and_dropped");
                }
                _ => {
                    match i % 3 {
                        0 => {
                            let mut k = self.mono.clone();
                            k.process();
                            self.mono.process();
                        }
                        1 => {
                            let mut k = self.stereo.clone();
                            self.stereo.process();
                            k.process();
                        }
                        _ => {
                            let mut k = self.graph.clone();
                            k.process(0.5);
                            self.graph.process(0.5);
                        }
                    }
                    c.probe("copied_and_dropped");
                }
            }
        }
    }
    fn remove(&mut self, side: usize, id: usize) {
        if side == 0 {
            self.mono.remove_sound(id);
        } else {
            self.stereo.remove_sound(id);
        }
    }
    /// Bring what is registered and configured back to the same state.
    fn settle(&mut self) {
        for side in 0..2 {
            while let Some(id) = self.ids[side].pop() {
                self.remove(side, id);
            }
        }
        self.held.clear();
        self.mono.set_process_time(Duration::from_millis(1));
        self.stereo.set_process_time(Duration::from_millis(1));
        self.mono.process();
        self.stereo.process();
    }
}

struct Boxed(Box<dyn Sound>);

impl Sound for Boxed {
    fn toggle_pause(&mut self) {
        self.0.toggle_pause()
    }
    fn is_paused(&self) -> bool {
        self.0.is_paused()
    }
    fn toggle_mute(&mut self) {
        self.0.toggle_mute()
    }
    fn is_muted(&self) -> bool {
        self.0.is_muted()
    }
    fn process(&mut self, x: f32) -> f32 {
        self.0.process(x)
    }
    fn register(&mut self, id: usize) {
        self.0.register(id)
    }
    fn unregister(&mut self) {
        self.0.unregister()
    }
    fn get_id(&self) -> Option<usize> {
        self.0.get_id()
    }
}

fn c26_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let rounds = plan.par(6).clamp(8, 100_000);
    for k in 0..4 {
        c.probe(NAMES[plan.par(2 + k).rem_euclid(KINDS) as usize]);
    }
    // what is built once per thread or process, and the bookkeeping of this run, comes first
    {
        let mut w = world(plan);
        w.noise.process();
        Sine::new(440.0).process();
        w.cycle(plan, c, 0);
        w.settle();
    }
    let before = os::live();
    let mut w = world(plan);
    let pieces_before = os::pieces();
    let mut warm = 0;
    let mut last = 0;
    let mut warm_pieces = 0;
    for k in 0..rounds {
        w.cycle(plan, c, k);
        w.settle();
        last = os::live();
        if k >= 2 && k <= rounds / 4 {
            warm = warm.max(last);
            warm_pieces = warm_pieces.max(os::pieces());
        }
        if k > rounds / 4 {
            ensure!(
                last <= warm + SLACK,
                "grows", "after {} identical cycles of {} samples the session holds {} bytes more than after {}",
                k + 1, w.n / (k as u64 + 1), last - warm, rounds / 4 + 1
            );
            let p = os::pieces();
            ensure!(
                p <= warm_pieces + PIECES,
                "grows", "after {} identical cycles of {} samples the session holds {} allocations more than after {}",
                k + 1, w.n / (k as u64 + 1), p - warm_pieces, rounds / 4 + 1
            );
        }
    }
    c.word(last.saturating_sub(before));
    drop(w);
    let left = os::live().saturating_sub(before);
    ensure!(left <= SLACK, "not_released", "{} bytes are still held after everything was dropped", left);
    let left = os::pieces().saturating_sub(pieces_before);
    ensure!(left <= PIECES, "not_released", "{} allocations are still held after everything was dropped", left);
    c.nontrivial = plan.steps.iter().any(|s| s.op != 0 && s.tag != LOST);
    if rounds >= 200 {
        c.probe("two_hundred_cycles");
    }
    Ok(())
}

pub static C26: Prop = Prop {
    id: "C26",
    params: &["ent", "seed", "kind0", "kind1", "kind2", "kind3", "cycles", "input", "vary"],
    ops: &[
        ("run", &["n"]),
        ("poke", &["instance", "which", "v"]),
        ("toggle", &["what"]),
        ("connect", &["from", "to", "on"]),
        ("add_sound", &["channel", "kind", "size", "seed", "hold"]),
        ("remove_sound", &["channel", "which"]),
        ("channel", &["channel", "ns", "gain"]),
        ("clone_instance", &["instance", "n"]),
        ("copy_whole", &["what"]),
    ],
    gen: c26_gen,
    run: c26_run,
    quick: 2_400,
    thorough: 60_000,
    rule: "something other than rendering happened in the cycle",
    oracle: "counting allocator: identical cycles of a session must reach a level and stay on it; everything is released when dropped",
    real: &["every generator and modifier", "SimpleSound", "ComplexSound", "StandardChannel", "petgraph", "thread RNG"],
    stub: &["allocator (counting)", "OS entropy", "control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost"],
    probes: &["sound_held_until_removed", 
        "setting_changed", "paused_or_muted", "graph_edited", "sound_added", "sound_removed", "channel_changed", "cloned_and_dropped", "copied_and_dropped",
        "two_hundred_cycles", "values_differ_between_cycles", "sine", "sawtooth", "square", "triangle", "resampler", "clip", "adsr", "lowpass", "highpass", "bandpass", "envelope", "delay",
        "echo", "generic", "gain", "passthrough", "zero",
    ],
};

// ---- C27 --------------------------------------------------------------------------------------------------------

fn c27_gen(r: &mut Rng, thorough: bool) -> Plan {
    let ent = r.seed();
    let total = if r.chance(0.002) { r.range(100, 600) } else { r.logu(1, if thorough { 100 } else { 12 }) };
    let net = swarm_net(r);
    let mean = r.logu(1, total) as f64;
    let add = |r: &mut Rng| st(1, &[r.below(3) as i64, r.range(0, 5), r.seed()]);
    let mut steps: Vec<crate::plan::Step> = (0..r.range(0, 4)).map(|_| add(r)).collect();
    let tasks: Vec<Task> = vec![
        task(mean, move |r| add(r)),
        task(mean * 2.0, |r| st(2, &[r.range(0, 9)])),
        task(mean, |r| st(3, &[r.range(-1500, 1500)])),
        task(mean * 2.0, |r| st(4, &[r.logu(20_000, 6_000_000)])),
        task(mean, |r| st(5, &[r.range(0, 9), r.below(2) as i64])),
    ];
    steps.extend(host(r, total, tasks, &net, 0, &[1, 1, 2, 3], if thorough { 100 } else { 30 }));
    let (w, wt) = super::common::gen_io(r, 6, 10);
    let (q, rt) = super::common::gen_io(r, 7, 10);
    steps.extend(w);
    steps.extend(q);
    let cut = if r.chance(0.5) { r.range(0, 60) } else { r.logu(1, 200_000) };
    Plan { p: vec![ent, r.below(2) as i64, r.pick(&[8, 16, 24]), wt, rt, cut, r.seed(), r.below(6) as i64], steps }
}

fn c27_session<SF: Speakers>(plan: &Plan, c: &mut Ctx) -> Result<Vec<Vec<f32>>, crate::Fail> {
    let mut ch = StandardChannel::<SF>::new(0.4);
    ch.set_process_time(Duration::from_millis(1));
    let mut tracks: Vec<Vec<f32>> = vec![vec![]; SF::SHARE.len()];
    let mut ids = vec![];
    for s in &plan.steps {
        if s.tag == LOST {
            continue;
        }
        match s.op {
            0 => {
                for _ in 0..s.arg(0).clamp(0, 200) {
                    ch.process();
                    for y in ch.get_output() {
                        for (t, v) in tracks.iter_mut().zip(y.speakers()) {
                            t.push(v);
                        }
                    }
                    if tracks[0].len() > 100_000 {
                        return Ok(tracks);
                    }
                }
            }
            1 => {
                if ids.len() < 6 {
                    let mut snd: Arc<dyn Sound> = Arc::new(Boxed(build_sound(s.arg(0).rem_euclid(3), s.arg(1).clamp(0, 6), s.arg(2), 0.5, 0.5).0));
                    ch.add_sound(&mut snd);
                    ids.extend(snd.get_id());
                }
            }
            2 => {
                if !ids.is_empty() {
                    let k = s.arg(0).rem_euclid(ids.len() as i64) as usize;
                    ch.remove_sound(ids.swap_remove(k));
                }
            }
            3 => ch.set_gain(s.arg(0) as f64 / 1000.0),
            4 => ch.set_process_time(Duration::from_nanos(s.arg(0).clamp(0, 20_000_000) as u64)),
            _ => {}
        }
    }
    c.samples += tracks[0].len() as u64;
    Ok(tracks)
}

fn c27_run(plan: &Plan, c: &mut Ctx) -> Res {
    c.net(plan);
    let mut tracks = if plan.par(1) == 0 { c27_session::<Mono>(plan, c)? } else { c27_session::<Stereo>(plan, c)? };
    let n = tracks[0].len();
    for t in tracks.iter_mut() {
        // what else comes out of a channel: nothing at all, at first or in the end
        match plan.par(7).rem_euclid(6) {
            1 => t.iter_mut().take(hash2(plan.par(6) as u64, 8) as usize % (n + 1)).for_each(|y| *y = 0.0),
            2 => t.iter_mut().skip(hash2(plan.par(6) as u64, 8) as usize % (n + 1)).for_each(|y| *y = 0.0),
            3 => t.iter_mut().for_each(|y| *y = -0.0),
            _ => {}
        }
        // the recording of an overflowing graph is not defined
        if t.iter().any(|y| !y.is_finite()) {
            return Ok(());
        }
    }
    let bps = plan.par(2) as u16;
    let step = match bps {
        8 => 1.0 / 128.0,
        16 => 1.0 / 32767.0,
        _ => 1.0 / 8_388_607.0,
    };
    let mut sink = SimSink::new(script(plan, 6), plan.par(3).clamp(0, 1 << 20) as usize, SinkFail::None);
    if let Err(e) = bae_rs::utils::write_wav(tracks.clone(), bps, &mut sink, true) {
        fail!("not_saved", "saving {} samples of {} channels failed: {}", n, tracks.len(), e);
    }
    sink.count(c);
    let file = std::mem::take(&mut sink.bytes);
    c.bytes(&file);
    let source = |file: Vec<u8>| SimSource::new(file, script(plan, 7), plan.par(4).clamp(0, 1 << 20) as usize, None);

    // power is cut while the file is written
    let cut = plan.par(5).max(0) as usize;
    if cut < file.len() {
        c.fault("power_cut");
        let r = bae_rs::utils::read_wav(&mut source(file[..cut].to_vec()));
        ensure!(r.is_err(), "partial", "{} of {} bytes survived and were loaded", cut, file.len());
    }

    let mut src = source(file.clone());
    let (h, back) = match bae_rs::utils::read_wav(&mut src) {
        Ok(x) => x,
        Err(e) => fail!("not_loaded", "the saved session of {} samples cannot be loaded: {}", n, e),
    };
    src.count(c);
    ensure!(h.sampling_rate == 48_000 && h.channel_count as usize == tracks.len() && h.bits_per_sample == bps, "format", "{:?} came back for {} channels of {} bits", (h.sampling_rate, h.channel_count, h.bits_per_sample), tracks.len(), bps);
    ensure!(back.len() == tracks.len(), "channels", "{} of {} channels", back.len(), tracks.len());
    let mut loud = false;
    for (k, (a, b)) in tracks.iter().zip(&back).enumerate() {
        ensure!(a.len() == b.len(), "length", "channel {}: {} of {} samples", k, b.len(), a.len());
        for i in 0..n {
            let want = a[i].clamp(-1.0, 1.0) as f64;
            loud |= want.abs() > 2.0 * step;
            if a[i].abs() > 1.0 {
                c.probe("clipped");
            }
            ensure!((want - b[i] as f64).abs() <= 1.02 * step, "sample", "channel {} sample {}: rendered {}, loaded {} ({} bits)", k, i, a[i], b[i], bps);
        }
    }

    // play the file back through a sound and a channel
    if n > 0 {
        let wav = MonoWav::from_source(&mut source(file));
        let mut snd = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(wav)));
        snd.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(Passthrough::new()))]);
        let mut ch = StandardChannel::<Mono>::new(1.0);
        let mut snd: Arc<dyn Sound> = Arc::new(snd);
        ch.add_sound(&mut snd);
        drop(snd);
        let mut heard = vec![];
        let mut k = 0;
        while heard.len() < n + 100 {
            let len = 1 + hash2(plan.par(6) as u64, k) % 700;
            k += 1;
            ch.set_process_time(Duration::from_nanos(len * 1_000_000_000 / 48_000 + 10));
            ch.process();
            ensure!(ch.get_output().len() as u64 == len, "buffer_length", "{} samples instead of {}", ch.get_output().len(), len);
            heard.extend(ch.get_output().iter().map(|y| y.into_sample()));
        }
        for (i, y) in heard.iter().enumerate() {
            let want = if i < n { back[0][i] } else { 0.0 };
            ensure!((y - want).abs() <= 1e-6, "played_back", "sample {} of {}: loaded {}, played {}", i, n, want, y);
        }
        c.probe("played_back");
    }
    c.probe(if tracks.len() == 1 { "mono" } else { "stereo" });
    c.nontrivial = loud;
    Ok(())
}

pub static C27: Prop = Prop {
    id: "C27",
    params: &["ent", "stereo", "bits", "write_tail", "read_tail", "cut", "seed", "silence"],
    ops: &[
        ("buffers", &["n"]),
        ("add_sound", &["kind", "size", "seed"]),
        ("remove_sound", &["which"]),
        ("gain", &["milli"]),
        ("time", &["ns"]),
        ("nothing", &["a", "b"]),
        ("write", &["kind", "n"]),
        ("read", &["kind", "n"]),
    ],
    gen: c27_gen,
    run: c27_run,
    quick: 230_000,
    thorough: 2_000_000,
    rule: "the rendered session was louder than two quantisation steps",
    oracle: "the rendered samples themselves, clamped: a reload must be within one quantisation step of each, playback must repeat the reload, a cut file must be refused",
    real: &["StandardChannel", "SimpleSound", "ComplexSound", "generators and modifiers", "write_wav / read_wav", "riff, wav crates", "MonoWav, MonoResampler"],
    stub: &["sink, disk and source", "control tasks, transport and audio callback (simulated host)"],
    faults: &["message_duplicated", "message_delayed", "message_lost", "write_short", "write_eintr", "read_short", "read_eintr", "power_cut"],
    probes: &["mono", "stereo", "clipped", "played_back"],
};
