//! A plan is one simulated execution written down: parameters, then the merged schedule of all simulated tasks with
//! the faults that hit them. Executing a plan is a pure function of the plan and the code under test.

use crate::Prop;
use std::fmt::Write as _;

/// How a step came to be delivered.
pub const NORMAL: u8 = 0;
pub const DUP: u8 = 1;
pub const LATE: u8 = 2;
pub const LOST: u8 = 3;
pub const TAGS: [&str; 4] = ["ok", "dup", "late", "lost"];

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: usize,
    pub tag: u8,
    pub a: Vec<i64>,
}

pub fn st(op: usize, a: &[i64]) -> Step {
    Step { op, tag: NORMAL, a: a.to_vec() }
}

impl Step {
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub p: Vec<i64>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn par(&self, i: usize) -> i64 {
        self.p.get(i).copied().unwrap_or(0)
    }

    pub fn to_text(&self, prop: &Prop, header: &[(&str, String)]) -> String {
        let mut s = String::from("baesim-plan v1\n");
        let _ = writeln!(s, "prop {}", prop.id);
        for (k, v) in header {
            let _ = writeln!(s, "# {}: {}", k, v.replace('\n', " | "));
        }
        for (i, n) in prop.params.iter().enumerate() {
            let _ = writeln!(s, "param {}={}", n, self.par(i));
        }
        for st in &self.steps {
            let (name, args) = prop.ops[st.op];
            let _ = write!(s, "step {} {}", name, TAGS[st.tag as usize & 3]);
            for (i, v) in st.a.iter().enumerate() {
                let _ = write!(s, " {}={}", args.get(i).copied().unwrap_or("x"), v);
            }
            s.push('\n');
        }
        s
    }

    pub fn prop_of(text: &str) -> Option<String> {
        text.lines().find_map(|l| l.strip_prefix("prop ")).map(|x| x.trim().to_string())
    }

    pub fn from_text(prop: &Prop, text: &str) -> Result<Plan, String> {
        let mut plan = Plan { p: vec![0; prop.params.len()], steps: vec![] };
        for l in text.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("param") => {
                    let kv = w.next().ok_or("param")?;
                    let (k, v) = kv.split_once('=').ok_or("param =")?;
                    let i = prop.params.iter().position(|x| *x == k).ok_or_else(|| format!("unknown param {}", k))?;
                    plan.p[i] = v.parse().map_err(|_| "bad value")?;
                }
                Some("step") => {
                    let name = w.next().ok_or("step")?;
                    let op = prop.ops.iter().position(|x| x.0 == name).ok_or_else(|| format!("unknown step {}", name))?;
                    let tag = w.next().ok_or("tag")?;
                    let tag = TAGS.iter().position(|x| *x == tag).ok_or("tag")? as u8;
                    let mut a = vec![];
                    for kv in w {
                        let (_, v) = kv.split_once('=').ok_or("arg")?;
                        a.push(v.parse().map_err(|_| "bad arg")?);
                    }
                    plan.steps.push(Step { op, tag, a });
                }
                _ => {}
            }
        }
        Ok(plan)
    }
}

/// Minimise a plan: drop steps, then simplify parameters and arguments, while `fails` still reports the same violation.
pub fn shrink(mut plan: Plan, fails: &mut dyn FnMut(&Plan) -> bool, stop: &mut dyn FnMut() -> bool) -> Plan {
    let mut again = true;
    let mut rounds = 0;
    while again && rounds < 6 {
        again = false;
        rounds += 1;
        // 1. steps, in chunks
        let mut chunk = (plan.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < plan.steps.len() {
                if stop() {
                    return plan;
                }
                let mut c = plan.clone();
                let end = (i + chunk).min(c.steps.len());
                c.steps.drain(i..end);
                if fails(&c) {
                    plan = c;
                    again = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        // 2. parameters
        for i in 0..plan.p.len() {
            for cand in simpler(plan.p[i]) {
                if stop() {
                    return plan;
                }
                let mut c = plan.clone();
                c.p[i] = cand;
                if fails(&c) {
                    plan = c;
                    again = true;
                    break;
                }
            }
        }
        // 3. arguments and delivery tags
        for s in 0..plan.steps.len() {
            if plan.steps[s].tag != NORMAL {
                let mut c = plan.clone();
                c.steps[s].tag = NORMAL;
                if fails(&c) {
                    plan = c;
                }
            }
            for i in 0..plan.steps[s].a.len() {
                for cand in simpler(plan.steps[s].a[i]) {
                    if stop() {
                        return plan;
                    }
                    let mut c = plan.clone();
                    c.steps[s].a[i] = cand;
                    if fails(&c) {
                        plan = c;
                        again = true;
                        break;
                    }
                }
            }
        }
    }
    plan
}

fn simpler(v: i64) -> Vec<i64> {
    let mut c = vec![];
    if v != 0 {
        c.push(0);
        if v != 1 {
            c.push(1);
        }
        if v.abs() > 3 {
            c.push(v / 2);
            c.push(v - v / 4);
            // round to a power of ten
            let mut t = 10;
            while t < v.abs() && t < i64::MAX / 10 {
                t *= 10;
            }
            let r = v / (t / 10) * (t / 10);
            if r != v {
                c.push(r);
            }
        }
        if v.abs() > 1 {
            c.push(v - v.signum());
        }
    }
    c.dedup();
    c
}
