//! Turns a failing case into an explicit schedule and fault list, and shrinks it.
use crate::props::{self, Cx};
use crate::refmodel::V;
use crate::runner::Runner;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::time::{Duration, Instant};

pub struct Min { pub plan: Plan, pub v: V, pub tried: u64, pub explicit: bool }

fn explicit(p: &Plan, sw: &[(u32, u32, u64)], fired: &[FaultSpec]) -> Plan {
    let mut q = p.clone();
    q.sim.policy = POL_REPLAY;
    q.sim.switches = sw.to_vec();
    q.sim.p_short = 0; q.sim.p_eintr = 0; q.sim.p_spurious = 0; q.sim.p_sys = 0;
    q.sim.faults.retain(|f| f.kind == F_ERR);
    for f in fired { if [F_SHORT, F_EINTR, F_SHORT_READ, F_SPURIOUS].contains(&f.kind) { q.sim.faults.push(f.clone()); } }
    q
}
fn slots(p: &Plan) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, o) in p.pre.iter().enumerate() { if *o != Op::Nop { v.push((0, i)); } }
    for (t, ops) in p.threads.iter().enumerate() { for (i, o) in ops.iter().enumerate() { if *o != Op::Nop { v.push((t + 1, i)); } } }
    for (i, o) in p.post.iter().enumerate() { if *o != Op::Nop { v.push((usize::MAX, i)); } }
    v
}
fn blank(p: &Plan, drop: &[(usize, usize)]) -> Plan {
    let mut q = p.clone();
    for (t, i) in drop {
        match *t { 0 => q.pre[*i] = Op::Nop, usize::MAX => q.post[*i] = Op::Nop, t => q.threads[t - 1][*i] = Op::Nop }
    }
    q
}
/// trailing operations that are gone need no slot any more
fn trim(p: &mut Plan) {
    for v in std::iter::once(&mut p.pre).chain(p.threads.iter_mut()).chain(std::iter::once(&mut p.post)) { while v.last() == Some(&Op::Nop) { v.pop(); } }
}

struct Ctx<'a> { r: &'a mut Runner, prop: &'a str, class: String, until: Instant, tried: u64, best: Plan, v: V }
impl Ctx<'_> {
    /// Does this plan fail in the same way? On success remembers it (made explicit).
    fn test(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.until { return false; }
        self.tried += 1;
        let mut cx = Cx::new(self.r);
        match props::eval(self.prop, &mut cx, p) {
            Err(v) if v.class == self.class => {
                self.v = v;
                let mut q = p.clone();
                if p.sim.policy != POL_REPLAY {
                    if let Some((sw, fired, _)) = cx.first.take() {
                        let e = explicit(p, &sw, &fired);
                        if e.sim.switches.len() < SIM_MAX_SWITCH && e.sim.faults.len() < SIM_MAX_FAULTS {
                            let mut c2 = Cx::new(self.r);
                            if let Err(v2) = props::eval(self.prop, &mut c2, &e) { if v2.class == self.class { q = e; self.v = v2; } }
                        }
                    }
                }
                self.best = q;
                true
            }
            _ => false,
        }
    }
    /// Operations were removed: the old schedule may not fit any more, so look for another one.
    fn test_any(&mut self, p: &Plan, orig: &SimParams) -> bool {
        if self.test(p) { return true; }
        if p.threads.iter().filter(|t| t.iter().any(|o| *o != Op::Nop)).count() == 0 { return false; }
        for k in 0..4u64 {
            let mut q = p.clone();
            let faults = q.sim.faults.clone();
            q.sim = orig.clone();
            q.sim.faults = faults;
            q.sim.switches.clear();
            q.sim.p_short = 0; q.sim.p_eintr = 0;
            q.sim.disk = p.sim.disk.clone();
            q.sim.p_tick = p.sim.p_tick;
            q.sim.p_walljump = p.sim.p_walljump;
            q.sim.seed = mix64(orig.seed ^ k);
            if k > 0 { q.sim.policy = POL_RANDOM; q.sim.mean = [3, 30, 12, 100][k as usize]; q.sim.p_sys = 64; }
            if self.test(&q) { return true; }
        }
        false
    }
}

pub fn minimise(r: &mut Runner, p: &Plan, v: V, secs: u64) -> Min {
    let orig = p.sim.clone();
    let prop = p.prop.clone();
    let mut c = Ctx { r, prop: &prop, class: v.class.clone(), until: Instant::now() + Duration::from_secs(secs), tried: 0, best: p.clone(), v };
    if !c.test(p) { return Min { plan: p.clone(), v: c.v, tried: c.tried, explicit: false }; }
    // fewer operations
    for _round in 0..2 {
        let before = slots(&c.best).len();
        let mut n = before.div_ceil(2).max(1);
        loop {
            let list = slots(&c.best);
            let mut any = false;
            for ch in list.chunks(n) {
                if Instant::now() > c.until { break; }
                let q = blank(&c.best, ch);
                if c.test_any(&q, &orig) { any = true; }
            }
            if n == 1 && !any { break; }
            if Instant::now() > c.until { break; }
            if !any || n > 1 { n = (n / 2).max(1); }
        }
        if slots(&c.best).len() == before { break; }
    }
    // calmer clocks
    for f in [|q: &mut Plan| { q.sim.p_tick = 0 }, |q: &mut Plan| { q.sim.p_walljump = 0 }, |q: &mut Plan| { q.sim.disk.clear() }] {
        let mut q = c.best.clone(); f(&mut q);
        if q != c.best { c.test(&q); }
    }
    let mut q = c.best.clone(); trim(&mut q); if q != c.best { c.test(&q); }
    if c.best.sim.policy == POL_REPLAY {
        // fewer faults, then fewer context switches
        let mut q = c.best.clone(); q.sim.faults.clear(); if q != c.best { c.test(&q); }
        shrink_list(&mut c, |p| p.sim.faults.len(), |p, a, b| { p.sim.faults.drain(a..b); });
        let mut q = c.best.clone(); q.sim.switches.clear(); if q != c.best { c.test(&q); }
        shrink_list(&mut c, |p| p.sim.switches.len(), |p, a, b| { p.sim.switches.drain(a..b); });
    }
    Min { explicit: c.best.sim.policy == POL_REPLAY, plan: c.best, v: c.v, tried: c.tried }
}
fn shrink_list(c: &mut Ctx, len: fn(&Plan) -> usize, cut: fn(&mut Plan, usize, usize)) {
    let mut n = len(&c.best).div_ceil(2).max(1);
    while len(&c.best) > 0 && Instant::now() < c.until {
        let mut i = 0;
        let mut any = false;
        while i < len(&c.best) && Instant::now() < c.until {
            let mut q = c.best.clone();
            let e = (i + n).min(len(&q));
            cut(&mut q, i, e);
            if c.test(&q) { any = true; } else { i += n; }
        }
        if n == 1 { if !any { break; } } else { n /= 2; }
    }
}
