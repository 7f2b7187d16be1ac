//! C19: hardware counters on simulated counter hardware and a simulated perf_event driver.
use crate::ensure;
use crate::oracle::*;
use crate::p_read::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use serde_json::Value;

const NAMES: [&str; 4] = ["wall-time", "instructions:u", "instructions-minus-irqs:u", "instructions-minus-r0420:u"];
/// (family, model, raw event that counts interrupts; 0: there is none); from the vendors' manuals
const INTEL: &[(u32, u32, u32)] = &[
    (6, 42, 0x1cb), (6, 45, 0x1cb), (6, 58, 0x1cb), (6, 62, 0x1cb), (6, 60, 0x1cb), (6, 61, 0x1cb), (6, 63, 0x1cb), (6, 69, 0x1cb), (6, 70, 0x1cb), (6, 71, 0x1cb), (6, 79, 0x1cb), (6, 86, 0x1cb),
    (6, 78, 0x1cb), (6, 85, 0x1cb), (6, 94, 0x1cb), (6, 142, 0x1cb), (6, 158, 0x1cb),
    (5, 2, 0), (4, 1, 0), (6, 15, 0), (6, 23, 0), (6, 26, 0), (6, 37, 0), (6, 44, 0), (6, 46, 0), (6, 47, 0), (6, 87, 0), (6, 133, 0), (6, 53, 0), (6, 54, 0), (6, 55, 0), (6, 74, 0), (6, 77, 0), (6, 90, 0), (6, 93, 0), (6, 76, 0), (15, 2, 0), (15, 6, 0),
    // newer than the list in the code
    (6, 106, 0x1cb), (6, 143, 0x1cb), (6, 151, 0x1cb), (6, 165, 0x1cb), (6, 207, 0x1cb),
];
const AMD: &[(u32, u32, u32)] = &[
    (15, 5, 0xcf), (15, 107, 0xcf), (16, 2, 0xcf), (16, 10, 0xcf), (17, 3, 0xcf), (18, 1, 0xcf), (20, 1, 0xcf), (20, 2, 0xcf), (21, 2, 0xcf), (21, 96, 0xcf), (22, 0, 0xcf), (22, 48, 0xcf),
    (23, 1, 0x2c), (23, 17, 0x2c), (23, 24, 0x2c), (23, 8, 0x2c), (23, 49, 0x2c), (23, 113, 0x2c), (23, 96, 0x2c), (25, 33, 0x2c), (25, 97, 0x2c), (26, 68, 0x2c),
];
pub fn version(family: u32, model: u32, stepping: u32) -> u32 {
    let (f, ef) = if family >= 15 { (15, family - 15) } else { (family, 0) };
    (stepping & 15) | (model & 15) << 4 | f << 8 | (model >> 4 & 15) << 16 | ef << 20
}
fn decode(vendor: &[u8], v: u32) -> (u32, u32) {
    let mut f = v >> 8 & 15;
    if f == 15 { f += v >> 20 & 255; }
    let mut m = v >> 4 & 15;
    if f >= 15 || f == 6 && vendor == b"GenuineIntel" { m |= (v >> 16 & 15) << 4; }
    (f, m)
}
/// None: not a model known to work; Some(0): works, but has no interrupt counter
fn irq_event(vendor: &[u8], v: u32) -> Option<u32> {
    let t = match vendor { b"GenuineIntel" => INTEL, b"AuthenticAMD" => AMD, _ => return None };
    let x = decode(vendor, v);
    // AMD kept the event throughout a family
    t.iter().find(|k| (k.0, k.1) == x || t == AMD && k.0 == x.0).map(|k| k.2)
}
const MASK: u64 = 0xffff_ffff_ffff;
const ERRS: [u32; 12] = [1, 2, 4, 11, 12, 13, 16, 19, 22, 24, 38, 95];
const GOOD: u64 = 0b11110; // capabilities: rdpmc allowed, the ambiguous old bit is known to be deprecated
pub fn gen_c19(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::new(prop, seed);
    p.session = Session::ProfilerHw;
    p.sim.policy = POL_SYS;
    p.sim.p_short = *r.pick(&[0, 0, 60]);
    p.sim.p_tick = 128; p.sim.tick_max = 1000;
    let mut hw = Hw::default();
    hw.name = match r.below(20) { 0 => r.pick(&["", "instructions", "instructions:k", "INSTRUCTIONS:U", "wall-time ", "instructions-minus-irqs", "\u{0}", "instructions:u:u"]).to_string(), 1 | 2 => NAMES[0].into(), 3..=8 => NAMES[1].into(), 9..=15 => NAMES[2].into(), _ => NAMES[3].into() };
    // the machine
    match r.below(20) {
        0 => { hw.vendor = r.pick(&[&b"HygonGenuine"[..], b"CentaurHauls", b"\xff\xfe\xfdabcdefghi", b"AuthenticAMd", b"\0\0\0\0\0\0\0\0\0\0\0\0"]).to_vec(); hw.version = r.next() as u32; }
        1 => { hw.vendor = r.pick(&[b"GenuineIntel", b"AuthenticAMD"]).to_vec(); hw.version = r.next() as u32; }
        2 => { hw.vendor = b"AuthenticAMD".to_vec(); hw.version = version(*r.pick(&[5, 6, 14, 19]), r.below(256) as u32, 1); }
        n => {
            let (v, t) = if n % 2 == 0 { (b"GenuineIntel", INTEL) } else { (b"AuthenticAMD", AMD) };
            let m = *r.pick(t);
            let model = if t == AMD && r.chance(1, 3) { r.below(256) as u32 } else { m.1 };
            hw.vendor = v.to_vec();
            hw.version = version(m.0, model, r.below(16) as u32);
        }
    }
    hw.irq_config = irq_event(&hw.vendor, hw.version).unwrap_or(*r.pick(&[0, 0x1cb, 0xcf, 0x2c]));
    hw.paranoid = r.below(4) as u32;
    hw.step_max = *r.pick(&[0, 3, 100, 100_000, 1 << 30]);
    hw.p_irq = *r.pick(&[0, 10, 128, 256]);
    // the driver
    let fixed = r.chance(1, 2);
    let mut regs: Vec<u32> = if fixed { (0..4).map(|k| 0x4000_0001 + k).chain(1..31).collect() } else { (1..32).collect() };
    let bad = r.chance(2, 5);
    let bad_at = r.idx(3);
    for k in 0..4 {
        let mut reg = |r: &mut Rng| { let i = r.idx(regs.len()); regs.remove(i) };
        let base = match r.below(8) {
            0 => 0,
            1 => MASK - r.below(10_000),                       // about to pass zero
            2 => (0x8000_0000_0001u64 + r.below(1 << 20)) & MASK, // where Linux starts its counters
            3 => (0u64).wrapping_sub(1 << r.range(1, 40)) & MASK,
            4 => r.below(1 << 40),
            5 => 0xffff_ffff - r.below(20_000),                  // low half about to overflow
            6 => 0xffff_0000_0000 + 0xffff_ffff - r.below(1000),
            _ => ((r.next() & MASK) >> 2) | if r.chance(1, 2) { 0xc000_0000_0000 } else { 0 },
        };
        let caps = if r.chance(1, 10) { 0b100 | r.next() & !0b11 } else { GOOD };
        let good = HwPage { at: 0, index: reg(r), width: 48, caps };
        let mut e = HwEvent { open_err: 0, map_err: 0, base, pages: vec![good] };
        let odd = |r: &mut Rng, g: &HwPage| -> HwPage {
            let mut x = g.clone();
            match r.below(5) { 0 => x.index = 0, 1 => x.caps &= !4, 2 => x.width = *r.pick(&[0, 32, 40, 47, 49, 64, 304]), 3 => { x.index = 0; x.caps = 1 } _ => { x.caps = *r.pick(&[0, 1, 2, 3, 8, 0xffff_ffff_ffff_fffb]); } }
            x
        };
        if bad && k == bad_at {
            match r.below(4) { 0 => e.open_err = *r.pick(&ERRS), 1 => e.map_err = *r.pick(&ERRS), _ => { let x = odd(r, &e.pages[0]); e.pages[0] = x; } }
        }
        // the kernel rewrites the control page while it is being read
        if r.chance(1, 2) {
            let n = r.range(1, 4);
            let last = e.pages.pop().unwrap();
            let mut at = 0;
            for _ in 0..n { let x = if r.chance(2, 3) { odd(r, &last) } else { HwPage { index: reg(r), ..last.clone() } }; e.pages.push(HwPage { at, ..x }); at += r.range(1, 6); }
            e.pages.push(HwPage { at, ..last });
            e.pages[0].at = 0;
        }
        hw.events.push(e);
    }
    p.hw = Some(hw);
    // what is recorded
    p.pre.push(Op::Str { len: 8, kind: 0 });
    p.pre.push(Op::Str { len: 12, kind: 0 });
    let (k, e) = (Id::Slot(opid(T_PRE, 0)), Id::Slot(opid(T_PRE, 1)));
    let mut open: Vec<u32> = vec![];
    for _ in 0..r.range(1, 40) {
        let id = opid(T_PRE, p.pre.len());
        let op = match r.below(10) {
            0 | 1 => Op::Advance { ns: if r.chance(1, 4) { 1 << r.range(10, 40) } else { r.below(5000) } },
            2 | 3 => Op::Instant { kind: k, eid: e, tid: 1 },
            4 => Op::Integer { kind: k, eid: e, tid: 1, val: r.below(1 << 40) },
            5 => Op::Unwind { kind: k, eid: e, tid: 1 },
            6 | 7 => { open.push(id); Op::Begin { kind: k, eid: e, tid: 1, detached: r.chance(1, 3) } }
            _ => match open.pop() { Some(b) => Op::End { begin: b, over: None }, None => Op::Yield },
        };
        p.pre.push(op);
    }
    while let Some(b) = open.pop() { p.pre.push(Op::End { begin: b, over: None }); }
    p
}
fn strerror(e: u32) -> String { let s = std::io::Error::from_raw_os_error(e as i32).to_string(); s.split(" (os error").next().unwrap().to_string() }

pub fn c19(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if o.exit == Exit::Code(98) { cx.inconclusive = true; *cx.stat("no simulated counters on this machine") += 1; return Ok(()); }
    let hw = p.hw.as_ref().unwrap();
    if o.native_cpu { cx.inconclusive = true; *cx.stat("only the native CPU model can be simulated on this machine") += 1; return Ok(()); }
    ensure!(!matches!(o.exit, Exit::Signal(_)), "process-died", "asking for {:?} kills the process: {:?}", hw.name, o.exit);
    if !cx.finished(&o)? { return Ok(()); }
    let c = o.rec(OP_CTR);
    ensure!(c.status == S_DONE || c.status == S_ERR, "constructor-panicked", "asking for {:?} panics (vendor {:?}, version {:#x})", hw.name, String::from_utf8_lossy(&hw.vendor), hw.version);
    let msg = o.blobs.iter().find(|b| b.0 == BLOB_ERR).map(|b| String::from_utf8_lossy(&b.2).to_string()).unwrap_or_default();
    cx.checks += 1;
    // what the driver saw: event -> (type, config)
    let mut kind = [(0u64, 0u64); 8];
    let mut fail_err: Option<(u32, &str)> = None;
    let (mut mapped, mut opened) = (0i64, 0i64);
    let mut pg = [0usize; 8];
    for x in o.pmc.iter().filter(|x| x.0 == EV_PERF) {
        let ev = (x.2 & 0xff) as usize;
        match x.1 {
            0 => { kind[ev] = (x.2 >> 56, x.2 >> 16 & 0xff_ffff_ffff); if x.3 == 0 { opened += 1; } }
            1 => if x.3 == 0 { mapped += 1; },
            2 => mapped -= 1,
            3 => opened -= 1,
            _ => pg[ev] += 1,
        }
        // the speculation test is optional
        if x.1 < 2 && x.3 != 0 && kind[ev] != (4, 0x0825) && fail_err.is_none() { fail_err = Some((x.3 as u32, if x.1 == 0 { "perf_event_open" } else { "mmap" })); }
    }
    let known = NAMES.contains(&hw.name.as_str());
    let wall = hw.name == NAMES[0];
    if c.status == S_ERR {
        *cx.stat("+refused") += 1;
        cx.nontrivial = true;
        ensure!(c.r0 == 0 && c.r1 == 0, "leak", "failing to create {:?} ({msg}) leaves {} descriptors and {} mappings behind", hw.name, c.r0, c.r1);
        ensure!(!wall, "wall-refused", "the wall clock is refused: {msg}");
        ensure!(!msg.is_empty(), "no-reason", "creating {:?} fails without a reason", hw.name);
        if let Some((e, what)) = fail_err {
            *cx.stat("+refused because a system call failed") += 1;
            ensure!(msg.contains(&strerror(e)), "wrong-reason", "{what} fails with {:?} but the reason given is {msg:?}", strerror(e));
            return Ok(());
        }
        if !known { return Ok(()); }
        // nothing failed: the machine must be one that cannot do it
        let able = match irq_event(&hw.vendor, hw.version) { None => false, Some(0) => hw.name != NAMES[2], Some(_) => true };
        if !able { return Ok(()); }
        let needed = 1 + (hw.name != NAMES[1]) as usize;
        let mut good = 0;
        for ev in 0..8 {
            if kind[ev] == (0, 0) || kind[ev] == (4, 0x0825) { continue; }
            let q = &hw.events[ev].pages[pg[ev].min(hw.events[ev].pages.len() - 1)];
            if q.index != 0 && q.caps & 4 != 0 && q.width == 48 { good += 1; } else { return Ok(()); }
        }
        ensure!(false, "refused-without-cause", "{:?} is refused ({msg}) although {good} of {needed} counters are usable (vendor {:?}, family/model {:?})", hw.name, String::from_utf8_lossy(&hw.vendor), decode(&hw.vendor, hw.version));
    }
    ensure!(known, "unknown-accepted", "the unknown counter {:?} is accepted", hw.name);
    ensure!(o.rec(OP_NEW).status == S_DONE, "constructor-failed", "creating the profiler failed without any fault");
    no_panics(p, &o, |_| true)?;
    ensure!(mapped == 0 && opened == 0, "leak", "{opened} descriptors and {mapped} mappings are left after the counter {:?} is gone", hw.name);
    let d = trace(p, &o)?;
    let evs = ref_events(&d, false)?;
    // the metadata names the counter
    let st = finished_streams(&d).map_err(|e| V { class: "bad-page".into(), msg: e })?;
    if let Some((a, b)) = meta_record(&st, false) {
        let v: Value = serde_json::from_slice(&st[1][a..b]).unwrap_or(Value::Null);
        ensure!(v["counter"]["name"].as_str() == Some(&hw.name), "wrong-name", "the trace names the counter {} instead of {:?}", v["counter"]["name"], hw.name);
        let unit = if wall { "ns" } else { "instructions" };
        ensure!(v["counter"]["units"][0][0].as_str() == Some(unit) && v["counter"]["units"][0][1].as_u64() == Some(1), "wrong-unit", "the base unit of {:?} is {}", hw.name, v["counter"]["units"]);
    }
    // expected payloads, in recording order
    let irq = if hw.name == NAMES[3] { 0x0420 } else if irq_event(&hw.vendor, hw.version).is_none() {
        // a model nobody has tested: whatever it takes for the interrupt count
        kind.iter().find(|k| k.0 == 4 && k.1 != 0x0825).map_or(0, |k| k.1)
    } else { hw.irq_config as u64 };
    let reads = |op: u32| -> Vec<(u64, u64)> { o.pmc.iter().filter(|x| x.0 == EV_PMC && x.4 == op as u64).map(|x| (x.2, x.3)).collect() };
    if let Some(x) = o.pmc.iter().find(|x| x.0 == EV_PMC && x.2 == !0) { return fail("foreign-register", format!("register {:#x} is read, which no open counter has (operation {})", x.1, x.4)); }
    let val = |rs: &[(u64, u64)]| -> Option<i128> {
        let last = |want: (u64, u64)| rs.iter().rev().find(|x| kind[x.0 as usize & 7] == want).map(|x| x.1 as i128);
        let a = last((0, 1))?;
        if hw.name == NAMES[1] { return Some(a); }
        Some(a - last((4, irq))?)
    };
    let mut n = 0;
    let zero = if wall { 0 } else { match val(&reads(OP_CTR)) { Some(z) => z, None => return fail("not-read", format!("creating {:?} does not read the counters it needs (opened {:?})", hw.name, kind)) } };
    let cnt = (p.hw.as_ref().unwrap().name != NAMES[1]) as usize + 1;
    let mut begun: std::collections::HashMap<u32, i128> = Default::default();
    let mut last = 0i128;
    for (i, op) in p.pre.iter().enumerate() {
        let id = opid(T_PRE, i);
        let want: Vec<i128> = if wall { vec![] } else {
            let rs = reads(id);
            let calls = match op { Op::Instant { .. } | Op::Begin { .. } | Op::End { .. } => 1, Op::Unwind { .. } => 2, _ => 0 };
            let mut v = vec![];
            for k in 0..calls {
                let part = &rs[rs.len() * k / calls..rs.len() * (k + 1) / calls];
                match val(part) { Some(x) => v.push(x - zero), None => return fail("not-read", format!("operation {i} {:?} takes its value without reading all counters of {:?} ({} of {cnt} reads)", brief(op), hw.name, part.len())) }
            }
            for x in &v { ensure!(*x >= last || cnt == 2, "model", "the model decreases"); last = *x; }
            v
        };
        let (t0, t1) = (o.rec(id).t0 as i128 - c.t1 as i128, o.rec(id).t1 as i128 - c.t0 as i128);
        let mut check = |cx: &mut Cx, pay: &Pay, s: Option<i128>, e: i128, lo: (i128, i128)| -> Check {
            cx.checks += 1;
            let (gs, ge) = match (pay, s.is_some()) { (Pay::Instant(t), false) => (None, *t as i128), (Pay::Interval(a, b), true) => (Some(*a as i128), *b as i128), (x, _) => return fail("wrong-payload", format!("operation {i} {:?} is recorded as {x:?}", brief(op))) };
            if wall { ensure!(ge >= lo.0 && ge <= lo.1, "wrong-time", "operation {i} is recorded at {ge} ns, it ran at {}..{} ns", lo.0, lo.1); return Ok(()); }
            ensure!(ge == e && gs == s, "wrong-count", "operation {i} {:?}: {:?} is recorded as {:?}..{ge}, the counter said {:?}..{e} (register started at {:x?})", brief(op), hw.name, gs, s, hw.events.iter().map(|e| e.base).collect::<Vec<_>>());
            Ok(())
        };
        match op {
            Op::Begin { .. } => { begun.insert(id, if wall { t0 } else { want[0] }); }
            Op::Integer { .. } => n += 1,
            Op::Instant { .. } => { ensure!(n < evs.len(), "event-missing", "only {n} events are recorded"); check(cx, &evs[n].pay, None, if wall { 0 } else { want[0] }, (t0, t1))?; n += 1; }
            Op::Unwind { .. } => { ensure!(n < evs.len(), "event-missing", "only {n} events are recorded"); check(cx, &evs[n].pay, Some(if wall { 0 } else { want[0] }), if wall { 0 } else { want[1] }, (t0, t1))?; n += 1; }
            Op::End { begin, .. } => { ensure!(n < evs.len(), "event-missing", "only {n} events are recorded"); check(cx, &evs[n].pay, Some(begun[begin]), if wall { 0 } else { want[0] }, (t0, t1))?; n += 1; }
            _ => {}
        }
    }
    ensure!(n == evs.len(), "event-missing", "{} events are recorded instead of {n}", evs.len());
    *cx.stat(match NAMES.iter().position(|x| *x == hw.name).unwrap() { 0 => "+working wall-time", 1 => "+working instructions", 2 => "+working minus-irqs", _ => "+working minus-r0420" }) += 1;
    if pg.iter().any(|x| *x > 0) { *cx.stat("+control page rewritten while read") += 1; }
    cx.nontrivial = true;
    Ok(())
}
