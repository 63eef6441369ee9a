//! Discrete-event scheduling of the simulated host: control tasks send messages through an unreliable transport to the
//! engine, the audio task pulls samples in callbacks of varying size. Events are ordered by (time, sequence number).

use crate::plan::{Step, DUP, LATE, LOST, NORMAL};
use crate::rng::Rng;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub struct Net {
    pub loss: f64,
    pub dup: f64,
    pub late: f64,
}

/// Swarm choice of transport faults: about a third of the runs are fault free.
pub fn swarm_net(r: &mut Rng) -> Net {
    let on = |r: &mut Rng| r.chance(0.5);
    if r.chance(0.33) {
        Net { loss: 0.0, dup: 0.0, late: 0.0 }
    } else {
        Net {
            loss: if on(r) { 0.05 + 0.2 * r.f() } else { 0.0 },
            dup: if on(r) { 0.05 + 0.3 * r.f() } else { 0.0 },
            late: if on(r) { 0.05 + 0.4 * r.f() } else { 0.0 },
        }
    }
}

/// A control task: emits one message at a time, with a random pause between messages.
pub struct Task<'a> {
    pub mean_gap: f64,
    pub emit: Box<dyn FnMut(&mut Rng) -> Step + 'a>,
}

pub fn task<'a>(mean_gap: f64, emit: impl FnMut(&mut Rng) -> Step + 'a) -> Task<'a> {
    Task { mean_gap, emit: Box::new(emit) }
}

enum Ev {
    Wake(usize),
    Deliver(Step),
    Audio,
}

/// Run the host for `total` samples and return the merged schedule. `run_op` is the step that processes n samples.
/// `bufs` are the callback sizes to choose from.
pub fn host(r: &mut Rng, total: i64, mut tasks: Vec<Task>, net: &Net, run_op: usize, bufs: &[i64], max_msgs: usize) -> Vec<Step> {
    let mut q: BinaryHeap<Reverse<(i64, u64)>> = BinaryHeap::new();
    let mut evs: Vec<Option<Ev>> = vec![];
    fn push(q: &mut BinaryHeap<Reverse<(i64, u64)>>, evs: &mut Vec<Option<Ev>>, t: i64, e: Ev) {
        evs.push(Some(e));
        q.push(Reverse((t, (evs.len() - 1) as u64)));
    }
    for i in 0..tasks.len() {
        let g = r.gap(tasks[i].mean_gap);
        push(&mut q, &mut evs, g, Ev::Wake(i));
    }
    push(&mut q, &mut evs, 0, Ev::Audio);
    let fixed = if r.chance(0.5) { Some(r.pick(bufs)) } else { None };
    let mut out: Vec<Step> = vec![];
    let mut msgs = 0;
    while let Some(Reverse((now, id))) = q.pop() {
        if now >= total {
            break;
        }
        match evs[id as usize].take().unwrap() {
            Ev::Wake(i) => {
                if msgs >= max_msgs {
                    continue;
                }
                msgs += 1;
                let mut m = (tasks[i].emit)(r);
                if r.chance(net.loss) {
                    m.tag = LOST;
                    out.push(m);
                } else {
                    let delay = if r.chance(net.late) {
                        m.tag = LATE;
                        r.gap(tasks[i].mean_gap * 1.5)
                    } else {
                        m.tag = NORMAL;
                        0
                    };
                    if r.chance(net.dup) {
                        let mut d = m.clone();
                        d.tag = DUP;
                        let dd = delay + if r.chance(0.5) { 0 } else { r.gap(tasks[i].mean_gap) };
                        push(&mut q, &mut evs, now + dd, Ev::Deliver(d));
                    }
                    push(&mut q, &mut evs, now + delay, Ev::Deliver(m));
                }
                let g = r.gap(tasks[i].mean_gap);
                push(&mut q, &mut evs, now + g, Ev::Wake(i));
            }
            Ev::Deliver(m) => out.push(m),
            Ev::Audio => {
                let n = fixed.unwrap_or_else(|| r.pick(bufs)).min(total - now).max(1);
                match out.last_mut() {
                    Some(l) if l.op == run_op && l.a.len() == 1 => l.a[0] += n,
                    _ => out.push(Step { op: run_op, tag: NORMAL, a: vec![n] }),
                }
                push(&mut q, &mut evs, now + n, Ev::Audio);
            }
        }
    }
    out
}
