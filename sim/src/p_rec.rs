//! Judges of the recording properties C04–C09 and C22.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::HashMap;

// ---- generators ----------------------------------------------------------------------------------
/// Everything that brings all three streams past their first page, so that a cut file is decodable.
fn heavy(r: &mut Rng, p: &mut Plan) {
    let plain = p.pre.iter().enumerate().filter_map(|(i, o)| match o { Op::Str { len, kind } if *len > 0 && *kind < 3 => Some((*len, i)), _ => None }).min().map(|x| opid(T_PRE, x.1)).unwrap_or(0);
    // (entries mapped in bulk are split over pages)
    let whole = r.chance(1, 2);
    if r.chance(3, 4) { let n = r.range(8193, 8300) as u32; p.pre.push(if whole { Op::BulkV { start: 99_500_000, n: 16_384 + n % 90, step: 1, to: plain, single: true } } else { Op::BulkV { start: 99_500_000, n, step: 1, to: plain, single: false } }); }
    if r.chance(3, 4) { p.pre.push(Op::Str { len: *r.pick(&[262_140, 262_144, 262_200, 300_000, 400_000]), kind: 0 }); }
    if r.chance(2, 3) { let n = 8191 + whole as u32 * 80 - r.below(40) as u32 * r.below(2) as u32; p.pre.push(Op::FillInt { kind: Id::Slot(plain), eid: Id::Slot(plain), tid: 0xF111_0001, base: 0, n }); }
}
pub fn gen_c04(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let o = Opts { threads: (1, 4), ops: (3, 30), max_str: 2000, ..Default::default() };
    let mut p = profiler_plan(prop, seed, r, &o);
    if r.chance(4, 5) { heavy(r, &mut p); }
    if r.chance(1, 3) { soft_io_faults(r, &mut p, true); }
    sched(r, &mut p);
    p.extra = vec![r.next()];
    p
}
pub fn gen_c05(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let single = r.chance(1, 2);
    let mut p = if r.chance(1, 4) { let mut p = sink_plan(prop, seed, r, true, false, true); if single { p.threads.truncate(1); } p }
    else { profiler_plan(prop, seed, r, &Opts { threads: if single { (1, 1) } else { (2, 4) }, max_str: 2000, ..Default::default() }) };
    sched(r, &mut p);
    // who is the last to let go is part of the schedule, which disturbances shift
    if single { p.main_drops_early = false; }
    p.extra = vec![single as u64];
    match r.below(4) {
        0 => { for i in 0..200 { p.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_WRITE, idx: i, kind: F_SHORT, arg: 1 }); } }
        1 => { let k = r.range(1, 6); for i in 0..300 { if i % (k + 1) != 0 { p.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_WRITE, idx: i, kind: F_EINTR, arg: 0 }); } } }
        2 => { for _ in 0..r.range(1, 30) { let idx = r.below(60); p.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_WRITE, idx, kind: if r.chance(1, 3) { F_EINTR } else { F_SHORT }, arg: *r.pick(&[1, 2, 3, 4, 5, 7, 100, 131_071, 262_143]) }); } }
        _ => soft_io_faults(r, &mut p, true),
    }
    if is_profiler(&p) {
        // EINTR at any of the calls made while opening and creating
        for cls in [IO_OPEN, IO_READ] { if r.chance(1, 4) { p.sim.faults.push(FaultSpec { task: u32::MAX, cls, idx: r.below(3), kind: F_EINTR, arg: 0 }); } }
        if r.chance(1, 2) { for i in 0..r.below(150) { p.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_READ, idx: i, kind: *r.pick(&[F_SHORT_READ, F_EINTR]), arg: *r.pick(&[1, 2, 5, 8, 1000]) }); } }
        p.read = Some(p.trace_path());
    }
    p
}
pub fn gen_c06(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = if r.chance(1, 4) { sink_plan(prop, seed, r, true, false, false) }
    else {
        let o = Opts { threads: (1, 4), ops: (3, 30), max_str: 2000, fill: true, ..Default::default() };
        let mut p = profiler_plan(prop, seed, r, &o);
        if r.chance(2, 3) { heavy(r, &mut p); if r.chance(1, 2) { p.pre.push(Op::FillInt { kind: Id::Slot(0), eid: Id::Slot(0), tid: 0xF111_0002, base: 7, n: r.range(60, 4000) as u32 }); } }
        p
    };
    sched(r, &mut p);
    p.extra = vec![0, r.next()];
    let err = *r.pick(&[28u64, 28, 5, 122, 27, 11, 0]);
    match r.below(8) {
        0..=3 => p.extra[0] = 1, // capacity placed relative to what a run without the fault writes
        4 => { for _ in 0..r.range(1, 4) { disk_fault(r, &mut p); } p.sim.disk.sort_by_key(|d| d.cap); }
        5 | 6 => { for _ in 0..r.range(1, 3) { let idx = r.below(24); p.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_WRITE, idx, kind: F_ERR, arg: err }); } }
        _ => {
            let cls = *r.pick(&[IO_OPEN, IO_MKDIR]);
            p.sim.faults.push(FaultSpec { task: u32::MAX, cls, idx: r.below(3), kind: F_ERR, arg: *r.pick(&[13, 28, 30, 24, 2, 20, 5]) });
            if r.chance(1, 2) { p.dirs.push("/sim/a".into()); p.dirs.push("/sim/a/b".into()); }
        }
    }
    if r.chance(1, 4) { soft_io_faults(r, &mut p, true); }
    p
}
pub fn gen_c07(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    if r.chance(2, 5) {
        // one thread, adversarial placement
        let mut p = profiler_plan(prop, seed, r, &Opts { threads: (1, 1), ops: (0, 3), fill: false, weird_text: true, ..Default::default() });
        let base = opid(T_PRE, 0);
        let plain: Vec<u32> = p.pre.iter().enumerate().filter(|(_, o)| matches!(o, Op::Str { len, .. } if *len > 0 && *len < 300)).map(|x| base + x.0 as u32).collect();
        let mut any = plain.clone();
        if any.is_empty() { return p; }
        for _ in 0..r.range(1, 30) {
            let me = opid(T_PRE, p.pre.len());
            match r.below(6) {
                0 => { let s = *r.pick(&any); p.pre.push(Op::CompRel { r: s, delta: *r.pick(&[0, 0, 0, 1, -1, 8, 9, 10, -9, -10, -8]) }); }
                1 => { let m = *r.pick(&[128u32, 256, 1000, 4096]); p.pre.push(Op::PadTo { modulus: m, rem: r.below(m as u64) as u32 }); any.push(me); }
                2 => { let s = *r.pick(&any); p.pre.push(Op::Comp { parts: vec![Part::Ref(s)], fixed: r.chance(1, 2) }); any.push(me); }
                3 => { let (a, b) = (*r.pick(&plain), *r.pick(&plain)); p.pre.push(Op::Comp { parts: vec![Part::Ref(a), Part::Val(r.below(12) as u32), Part::Ref(b)], fixed: false }); any.push(me); }
                4 => { let l = *r.pick(&any); let a = *r.pick(&plain); p.pre.push(Op::Eid { label: Id::Slot(*r.pick(&plain)), args: vec![Id::Slot(a)], single: r.chance(1, 2) }); let _ = l; }
                _ => { p.pre.push(Op::Str { len: *r.pick(&[0, 1, 7, 8, 9, 10, 127, 128]), kind: 0 }); any.push(me); }
            }
        }
        if r.chance(1, 3) {
            // deep nesting
            let mut prev = *r.pick(&plain);
            let deep = if r.chance(1, 40) { r.range(200, 2500) } else { r.range(5, 120) };
            for k in 0..deep { let me = opid(T_PRE, p.pre.len()); p.pre.push(Op::Comp { parts: if k % 3 == 0 { vec![Part::Ref(prev)] } else { vec![Part::Val(1), Part::Ref(prev), Part::Val(k as u32 % 4)] }, fixed: k % 2 == 0 }); prev = me; }
        }
        // (targets of the plan's own mappings may be used in labels)
        let safe: Vec<u32> = p.pre.iter().filter_map(|o| if let Op::MapV { to, .. } = o { Some(*to) } else { None }).collect();
        for v in [0u64, 100_000_000, 99_999_999, 1] { if r.chance(1, 3) { p.pre.push(Op::MapV { vid: v, to: *r.pick(&any) }); } }
        // virtual ids below may have been used already by the plan
        let again = r.chance(1, 2);
        let mut seen = std::collections::HashSet::new();
        for o in p.pre.iter_mut() {
            if let Op::MapV { vid, to } = o {
                if seen.insert(*vid) { continue; }
                if again && !safe.is_empty() { *to = *r.pick(&safe) } else { *o = Op::Nop }
            }
        }
        for o in p.threads.iter_mut().flatten() { if matches!(o, Op::MapV { vid, .. } if *vid <= 1 || *vid >= 99_999_999) { *o = Op::Nop; } }
        sched(r, &mut p);
        return p;
    }
    let o = Opts { ops: *r.pick(&[(3, 30), (20, 80)]), threads: *r.pick(&[(1, 2), (2, 4), (3, 8)]), weird_text: true, max_str: if r.chance(1, 2) { 600 } else { 2000 }, ..Default::default() };
    let mut p = profiler_plan(prop, seed, r, &o);
    // some of a thread's virtual ids are mapped again: the last mapping counts
    if r.chance(1, 2) {
        let pre: Vec<u32> = p.pre.iter().filter_map(|o| if let Op::MapV { to, .. } = o { Some(*to) } else { None }).collect();
        for ops in p.threads.iter_mut() {
            let mut tos = pre.clone();
            let mut vids = vec![];
            for o in ops.iter() {
                match o {
                    Op::MapV { vid, to } => { vids.push(*vid); tos.push(*to); }
                    Op::BulkV { start, n, step, to, .. } if *n > 0 => { vids.push(*start); vids.push(*start + (*n as u64 - 1) * *step as u64); tos.push(*to); }
                    _ => {}
                }
            }
            if vids.is_empty() { continue; }
            for _ in 0..r.below(5) {
                let (v, to) = (*r.pick(&vids), *r.pick(&tos));
                ops.push(if r.chance(1, 3) { Op::BulkV { start: v, n: 1, step: 1, to, single: false } } else { Op::MapV { vid: v, to } });
            }
        }
    }
    sched(r, &mut p);
    p
}
const LIMIT: u64 = 1 << 48;
pub fn gen_c08(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let o = Opts { threads: *r.pick(&[(1, 1), (1, 3), (2, 6)]), ops: (4, 40), strings: false, fill: r.chance(1, 4), ..Default::default() };
    let mut p = profiler_plan(prop, seed, r, &o);
    clocks(r, &mut p);
    for t in p.threads.iter_mut() {
        for op in t.iter_mut() {
            if r.chance(1, 10) && matches!(op, Op::Yield | Op::Nop | Op::Advance { .. } | Op::WallJump { .. }) {
                *op = match r.below(3) { 0 => Op::WallJump { ns: r.range(0, 4_000_000_000_000) as i64 - 2_000_000_000_000 }, 1 => Op::Advance { ns: *r.pick(&[1, 3, 999_999_999, 3_600_000_000_000]) }, _ => Op::Yield };
            }
        }
    }
    if r.chance(1, 2) {
        // around the largest representable values
        for t in p.threads.iter_mut() { for op in t.iter_mut() { if let Op::Unwind { .. } = op { *op = Op::Nop; } } }
        if r.chance(2, 3) { p.sim.p_tick = 0; }
        let at = r.below(3);
        let adv = LIMIT - *r.pick(&[0, 1, 2, 3, 4, 5, 10, 20, 1000, 1_000_000, 1 << 40]) + r.below(2) * r.below(3);
        // or far beyond, where a narrower intermediate unit would wrap
        let adv = if r.chance(1, 6) { let (a, b, c) = (r.range(1, 13), r.range(40, 52), r.range(31, 32)); let far = *r.pick(&[2 * LIMIT, LIMIT << a, 1_000_000 << 32, 1_000 << b, 1_000_000_000 << c, (1 << 53) + 1]); far + r.below(1000) } else { adv };
        let adv = Op::Advance { ns: adv };
        if at == 0 { p.pre.push(adv); } else {
            let t = r.idx(p.threads.len());
            let list: Vec<usize> = p.threads[t].iter().enumerate().filter(|x| matches!(x.1, Op::Yield | Op::Nop | Op::Advance { .. } | Op::WallJump { .. })).map(|x| x.0).collect();
            if list.is_empty() { p.pre.push(adv); } else { let i = *r.pick(&list); p.threads[t][i] = adv; }
        }
        for t in p.threads.iter_mut() { for op in t.iter_mut() { if let Op::Yield = op { if r.chance(1, 2) { *op = Op::Advance { ns: r.range(1, 3) }; } } } }
        if r.chance(1, 2) && p.post.is_empty() { p.main_drops_early = false; let k = opid(T_PRE, 0); for i in 0..4 { p.post.push(Op::Advance { ns: r.range(1, 2) }); p.post.push(Op::Instant { kind: Id::Slot(k), eid: Id::Slot(k), tid: 0x7100_0000 + i }); } }
    }
    if r.chance(1, 3) {
        // integers beyond the limit
        let k = opid(T_PRE, 0);
        for t in p.threads.iter_mut() { for op in t.iter_mut() { if let Op::Yield | Op::Nop = op { *op = Op::BadInt { kind: Id::Slot(k), eid: Id::Slot(k), tid: 0x7200_0000, val: *r.pick(&[LIMIT, LIMIT + 1, 1 << 60, u64::MAX, (1 << 49) - 1]) }; } } }
    }
    sched(r, &mut p);
    p
}
pub fn gen_c09(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = if r.chance(2, 5) { let f = r.chance(1, 2); sink_plan(prop, seed, r, f, true, true) } else { profiler_plan(prop, seed, r, &Opts { bad: true, max_str: 2000, ..Default::default() }) };
    if is_profiler(&p) {
        // make sure something panics
        let none = !p.threads.iter().flatten().any(is_bad_op);
        if none {
            let plain = opid(T_PRE, 0);
            for t in p.threads.iter_mut() { for op in t.iter_mut() { if let Op::Yield | Op::Nop | Op::WallJump { .. } = op { let len = *r.pick(&[1u32, 2, 9, 100, 128, 129, 5000, 131_072, 262_144]); *op = Op::BadStr { len, at: r.below(len as u64) as u32 }; } } }
            let at = r.range(1, p.pre.len() as u64) as usize;
            let _ = at;
            p.pre.push(match r.below(3) { 0 => Op::BadStr { len: 40, at: 7 }, 1 => Op::BadInt { kind: Id::Slot(plain), eid: Id::Slot(plain), tid: 1, val: u64::MAX }, _ => Op::BadIter { start: 99_450_000, n: 9, at: 4, to: plain } });
        }
    }
    sched(r, &mut p);
    p
}
pub fn gen_c22(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = profiler_plan(prop, seed, r, &Opts { threads: (1, 1), ops: (0, 4), fill: false, ..Default::default() });
    clocks(r, &mut p);
    sched(r, &mut p);
    let any = r.range(1, 4_000_000); p.sim.pid = *r.pick(&[1, 2, 4_194_304, i32::MAX as u64, any, any]) as u32;
    let many = r.chance(1, 40);
    let n = if many { r.range(300, 8100) } else { *r.pick(&[0u64, 1, 1, 2, 3, 5, 9, 20, 60]) };
    let mut v: Vec<Vec<u8>> = vec![];
    let atoms: [&[u8]; 30] = [b"'", b"\"", b"\\", b"\n", b"\t", b"\r", b"\x01", b"\x1f", b"\x7f", "é".as_bytes(), "漢".as_bytes(), "😀".as_bytes(), "\u{fffd}".as_bytes(), "\u{2028}".as_bytes(), b" ", b"{", b"}", b"/", b"\x08", b"\x0c", b"abc", b"--crate-name", b"\\u0041", b"\\'", b"%s", b"\x1b[0m", b"\x80", b"\xff", b"\xc3", b"\xed\xa0\x80"];
    let lim = match r.below(4) { 0 => 26, 1 => 30, 2 => 21, _ => 30 };
    let skip_invalid = lim == 26;
    for _ in 0..n {
        let mut a = vec![];
        match r.below(8) {
            0 => {}
            1 if !many => { for _ in 0..*r.pick(&[1000, 5000, 40_000, 140_000]) { a.push(b'a' + (r.below(26) as u8)); } if r.chance(1, 3) { a.extend_from_slice("é".as_bytes()); } }
            2 => a.extend_from_slice(b"plain-arg"),
            _ => { for _ in 0..r.range(1, 8) { let k = if lim == 21 { *r.pick(&[20usize, 21, 14, 15, 17]) } else { r.idx(if skip_invalid { 26 } else { 30 }) }; a.extend_from_slice(atoms[k]); } }
        }
        v.push(a);
    }
    p.argv = v;
    if r.chance(1, 4) { soft_io_faults(r, &mut p, true); }
    p
}

// ---- helpers -------------------------------------------------------------------------------------
/// Does `t`, in which lost parts read as a placeholder, agree with the recorded text `x`?
pub fn fuzzy(t: &str, x: &str) -> bool {
    if t == x { return true; }
    let mut pieces: Vec<&str> = vec![];
    let mut rest = t;
    loop {
        let a = rest.find("<unknown>").map(|i| (i, 9));
        let b = rest.find("<invalid>").map(|i| (i, 9));
        let c = match (a, b) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) };
        match c { Some((i, n)) => { pieces.push(&rest[..i]); rest = &rest[i + n..]; } None => { pieces.push(rest); break; } }
    }
    if pieces.len() == 1 { return false; }
    let last = pieces.len() - 1;
    if !x.starts_with(pieces[0]) { return false; }
    let mut pos = pieces[0].len();
    for p in &pieces[1..last] {
        match x[pos..].find(p) { Some(i) => pos += i + p.len(), None => return false }
    }
    x.len() >= pos + pieces[last].len() && x.ends_with(pieces[last])
}
pub fn join(label: &str, args: &[String]) -> String { let mut s = label.to_string(); for a in args { s.push('\x1E'); s.push_str(a); } s }
/// The event as decoded from a damaged file against the event as recorded.
pub fn fuzzy_ev(e: &Ev, x: &Ev) -> bool { e.tid == x.tid && e.pay == x.pay && fuzzy(&e.kind, &x.kind) && fuzzy(&join(&e.label, &e.args), &join(&x.label, &x.args)) }

pub struct Tol { pub events: Vec<Option<Ev>>, pub start: u64, pub pid: u32, pub cmd: String }
/// Reads event by event, so that one undecodable event does not hide the others.
pub fn read_tolerant(data: &[u8]) -> Result<Tol, ReadErr> {
    guarded(|| {
        let d = analyzeme::ProfilingData::from_paged_buffer(data.to_vec(), None).map_err(|e| ReadErr::Err(e.to_string()))?;
        let m = d.metadata().clone();
        let mut it = d.iter();
        let mut events = vec![];
        for _ in 0..d.num_events() {
            events.push(guarded(|| match it.next() { Some(l) => Ok(Some(conv_event(&d.to_full_event(&l), m.start_time))), None => Ok(None) }).unwrap_or(None));
        }
        Ok(Tol { events, start: m.start_time.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(u64::MAX), pid: m.process_id, cmd: m.cmd.clone() })
    })
}
pub fn lib_strings(data: &[u8]) -> Result<decodeme::stringtable::StringTable, ReadErr> {
    guarded(|| {
        let mut s = measureme::split_streams(&data[8..]);
        let d = s.remove(&measureme::PageTag::StringData).unwrap_or_default();
        let i = s.remove(&measureme::PageTag::StringIndex).unwrap_or_default();
        decodeme::stringtable::StringTable::new(d, i, None).map_err(|e| ReadErr::Err(e.to_string()))
    })
}
/// to_string and write_to_string of one id
pub fn expand(t: &decodeme::stringtable::StringTable, id: u64) -> (Result<String, ReadErr>, Result<String, ReadErr>) {
    let id = measureme::StringId::new(id);
    let a = guarded(|| Ok(t.get(id).to_string().into_owned()));
    let b = guarded(|| { let mut s = String::new(); t.get(id).write_to_string(&mut s); Ok(s) });
    (a, b)
}
/// Every id and virtual id through the reader under test.
pub fn strings_ok_lib(plan: &Plan, out: &Outcome, data: &[u8]) -> Check {
    let t = match lib_strings(data) { Ok(t) => t, Err(e) => return fail("unreadable", format!("the string tables cannot be read: {}", e.text())) };
    strings_ok_table(plan, out, &t)
}
pub fn strings_ok_table(plan: &Plan, out: &Outcome, t: &decodeme::stringtable::StringTable) -> Check {
    let led = Ledger::new(plan, out);
    let one = |id: u64, want: &str, what: String| -> Check {
        let (a, b) = expand(t, id);
        for (k, g) in [("to_string", &a), ("write_to_string", &b)] {
            match g {
                Ok(g) => ensure!(g == want, "string-mismatch", "{what} (id {id}) reads as {:?} through {k} instead of {:?}", short(g), short(want)),
                Err(e) => return fail("string-unreadable", format!("{what} (id {id}) cannot be read through {k}: {}", e.text())),
            }
        }
        Ok(())
    };
    for (id, op) in plan.all_ops() {
        if !matches!(op, Op::Str { .. } | Op::Text { .. } | Op::Comp { .. } | Op::CompRel { .. } | Op::PadTo { .. } | Op::Eid { .. }) { continue; }
        let r = out.rec(id);
        if r.status != S_DONE { continue; }
        if let Some(x) = led.slot(id) { one(r.r0, &x.full, format!("the string of op {}:{} {}", op_thread(id), op_index(id), brief(op)))?; }
    }
    for (n, (v, s)) in led.virt.iter().enumerate() {
        if n > 300 && n % 97 != 0 { continue; }
        if let Some(x) = led.slot(*s) { one(*v, &x.full, format!("virtual id {v}"))?; }
    }
    // virtual ids nobody mapped
    for v in [0u64, 1, 2, 99_999_999, 100_000_000, 98_000_500, plan.seed % 100_000_001] { if !led.virt.contains_key(&v) { one(v, "<unknown>", format!("unmapped virtual id {v}"))?; } }
    Ok(())
}

// ---- C04 -----------------------------------------------------------------------------------------
struct Final { streams: [Vec<u8>; 3], events: Vec<Ev>, meta: (u64, u32, String), ev_done: Vec<u64>, str_done: Vec<(u64, u64)>, idx_done: Vec<(u64, u64)> }
fn final_state(p: &Plan, o: &Outcome, d: &[u8]) -> Result<Final, V> {
    let v8 = p.session == Session::ProfilerV8;
    let st = match finished_streams(d) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    let led = Ledger::new(p, o);
    let exp = led.expected(false);
    let events = ref_events(d, v8)?;
    let map = match_events(&events, &exp, zero_bounds(o), true)?;
    // when each event was acknowledged
    let ev_done = map.iter().map(|i| exp[*i].end).collect();
    let mut str_done = vec![];
    let mut idx_at: HashMap<(u64, u64), Vec<u64>> = HashMap::new();
    for (k, c) in st[2].get(8..).unwrap_or(&[]).chunks_exact(16).enumerate() {
        let f = |x: &[u8]| u64::from_le_bytes(x.try_into().unwrap());
        idx_at.entry((f(&c[..8]), f(&c[8..]))).or_default().push(8 + 16 * (k as u64 + 1));
    }
    let mut idx_done = vec![];
    for (id, op) in p.all_ops() {
        let r = o.rec(id);
        if r.status != S_DONE { continue; }
        if let Some(n) = alloc_size(op, &r, v8) { str_done.push((r.r0 - FIRST_ID + n, r.end)); }
        let mut put = |v: u64, to: u32| { if let Some(l) = idx_at.get(&(v, o.rec(to).r0.wrapping_sub(FIRST_ID))) { idx_done.push((*l.iter().max().unwrap(), r.end)); } };
        match op { Op::MapV { vid, to } => put(*vid, *to), Op::BulkV { start, n, step, to, .. } if *n > 0 => put(*start + (*n as u64 - 1) * *step as u64, *to), _ => {} }
    }
    let m = match read_with_lib(d) { Ok(r) => (r.start, r.pid, r.cmd), Err(e) => return fail("unreadable", format!("the finished trace cannot be read: {}", e.text())) };
    Ok(Final { streams: st, events, meta: m, ev_done, str_done, idx_done })
}
/// `img`: the file at death; `step`: everything acknowledged before it counts.
fn crash_image_ok(cx: &mut Cx, f: &Final, img: &[u8], step: u64, when: &str) -> Check {
    cx.checks += 1;
    let pg = parse_pages(img, true);
    if let Some(b) = &pg.bad { return fail("bad-page", format!("{b} in the file left {when}")); }
    let st = streams(img, &pg);
    for i in 0..3 {
        ensure!(f.streams[i].starts_with(&st[i]), "not-a-prefix", "the complete pages of stream {i} in the file left {when} are not the beginning of what was recorded");
        let acked = match i {
            0 => f.ev_done.iter().enumerate().filter(|x| *x.1 < step).map(|x| 8 + 32 * (x.0 as u64 + 1)).max(),
            1 => f.str_done.iter().filter(|x| x.1 < step).map(|x| x.0).max(),
            _ => f.idx_done.iter().filter(|x| x.1 < step).map(|x| x.0).max(),
        }.unwrap_or(0);
        ensure!(st[i].len() as u64 + MAX_PAGE as u64 >= acked, "too-much-lost", "{acked} bytes of stream {i} were acknowledged but the file left {when} has only {}", st[i].len());
    }
    *cx.stat("crash images") += 1;
    match read_tolerant(img) {
        Err(_) => Ok(()),
        Ok(t) => {
            *cx.stat("decodable crash images") += 1;
            ensure!((t.start, t.pid, &t.cmd) == (f.meta.0, f.meta.1, &f.meta.2), "metadata-altered", "the file left {when} reports other session metadata");
            ensure!(t.events.len() <= f.events.len(), "event-invented", "the file left {when} has {} events, only {} were recorded", t.events.len(), f.events.len());
            for (i, e) in t.events.iter().enumerate() {
                if let Some(e) = e { ensure!(fuzzy_ev(e, &f.events[i]), "event-altered", "event {i} of the file left {when} reads as {} instead of {}", ev_text(e), ev_text(&f.events[i])); }
            }
            Ok(())
        }
    }
}
pub fn c04(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let ino = match o.ino(&p.trace_path()) { Some(i) => i, None => return fail("no-trace", "the trace file does not exist".into()) };
    page_log(p, &o, ino, true)?;
    let d = trace(p, &o)?;
    let f = final_state(p, &o, &d)?;
    // dropped: nothing may be written later and nothing may be missing
    let last_drop = pseudo_ops().iter().filter(|i| **i != OP_NEW && **i != OP_READ).map(|i| o.rec(*i)).filter(|r| r.status == S_DONE).map(|r| r.end).max().unwrap_or(u64::MAX);
    for w in &o.writes { ensure!(w.ino != ino || w.step <= last_drop, "write-after-drop", "{} bytes were still written after the last handle had been dropped", w.len); }
    strings_ok_ref(p, &o, &d)?;
    // crash points
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(1), 4);
    let mine: Vec<usize> = o.writes.iter().enumerate().filter(|x| x.1.ino == ino && x.1.err == 0 && !x.1.trunc).map(|x| x.0).collect();
    if mine.is_empty() { return Ok(()); }
    let starts: Vec<usize> = mine.iter().copied().filter(|i| o.writes[*i].len > 5).collect();
    for k in 0..16 {
        let (n, cut) = match k % 4 {
            0 | 1 if !starts.is_empty() => (*r.pick(&starts), None),
            2 => { let i = *r.pick(&mine); (i, Some(r.below(o.writes[i].len + 1))) }
            _ => (*r.pick(&mine), None),
        };
        // dies at the next step after this write, or at the very next write
        let step = if cut.is_some() { o.writes[n].step } else { o.writes[n + 1..].iter().find(|w| w.ino == ino).map(|w| w.step).unwrap_or(o.steps) };
        let img = o.image(ino, n + 1, cut);
        crash_image_ok(cx, &f, &img, step, &format!("by a crash at step {step} ({} bytes)", img.len()))?;
    }
    // real kills
    if r.chance(1, 3) {
        for _ in 0..2 {
            let mut q = p.clone();
            q.sim.crash_step = 1 + r.below(o.steps.max(1));
            let c = cx.run(&q);
            if c.exit != Exit::Crashed { continue; }
            if let Some(i) = c.ino(&p.trace_path()) {
                let img = c.image(i, c.writes.len(), None);
                let st = streams(&img, &parse_pages(&img, true));
                if q.sim.policy == POL_REPLAY && (0..3).any(|k| !f.streams[k].starts_with(&st[k])) { continue; }
                crash_image_ok(cx, &f, &img, c.steps, &format!("by a kill at step {}", c.steps))?;
            }
        }
    }
    Ok(())
}

// ---- C05 -----------------------------------------------------------------------------------------
pub fn c05(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let prof = is_profiler(p);
    no_panics(p, &o, normal_op)?;
    let path = if prof { p.trace_path() } else { p.path.clone() };
    let ino = match o.ino(&path) { Some(i) => i, None => return fail("no-trace", "the file does not exist".into()) };
    let pg = page_log(p, &o, ino, prof)?;
    ensure!(pg.tail == 0, "page-left-incomplete", "{} bytes of an incomplete page at the end of the finished file", pg.tail);
    let d = o.image(ino, o.writes.len(), None);
    if p.extra.first() == Some(&1) && p.threads.len() <= 1 {
        // the same recording without any disturbance
        let mut q = p.clone();
        q.sim.p_short = 0; q.sim.p_eintr = 0; q.sim.faults.clear();
        let t = cx.run(&q);
        if cx.finished(&t)? {
            let e = t.file(&path).unwrap_or_default();
            let at = d.iter().zip(&e).position(|x| x.0 != x.1).unwrap_or(d.len().min(e.len()));
            ensure!(d == e, "file-differs", "the file has {} bytes, without disturbances {}; first difference at {at}", d.len(), e.len());
        }
    }
    if !prof { return sinks_ok(p, &o); }
    events_ok_ref(p, &o, &d)?;
    strings_ok_ref(p, &o, &d)?;
    if p.read.is_some() {
        let want = match read_with_lib(&d) { Ok(r) => digest_of(&r), Err(e) => return fail("unreadable", e.text()) };
        let got = o.blobs.iter().find(|b| b.0 == BLOB_READ).map(|b| String::from_utf8_lossy(&b.2).to_string()).unwrap_or_default();
        ensure!(got == want, "read-differs", "loading the file under short and interrupted reads gave {got:?} instead of {want:?}");
    }
    Ok(())
}

// ---- C06 -----------------------------------------------------------------------------------------
pub fn c06(cx: &mut Cx, p0: &Plan) -> Check {
    let mut p = p0.clone();
    let prof = is_profiler(&p);
    let path = if prof { p.trace_path() } else { p.path.clone() };
    if p.extra.first() == Some(&1) {
        let t = cx.r.run(&p);
        let mut r = Rng::new(p.extra.get(1).copied().unwrap_or(0), 6);
        let mine: Vec<&W> = t.writes.iter().filter(|w| w.err == 0 && !w.trunc).collect();
        if mine.is_empty() { return Ok(()); }
        // sometimes late, when the file already has pages of all kinds
        let w = if r.chance(1, 2) { let k = mine.len().min(9); *r.pick(&mine[mine.len() - k..]) } else { *r.pick(&mine) };
        // several ends of the write: nothing stored, partly stored, all but a byte
        let part = match r.below(5) { 0 => 0, 1 => w.len - 1, 2 => r.below(w.len.min(40)), _ => r.below(w.len) };
        let mut cap = w.off + part;
        // or exactly between two pages
        if r.chance(1, 3) {
            if let Some(d) = t.file(&path) {
                let b: Vec<u64> = parse_pages(&d, prof).pages.iter().map(|x| x.1 as u64 - 5).collect();
                if !b.is_empty() { let k = b.len().min(4); cap = if r.chance(2, 3) { *r.pick(&b[b.len() - k..]) } else { *r.pick(&b) }; }
            }
        }
        p.sim.disk = vec![DiskSpec { cap, err: *r.pick(&[28, 28, 28, 5, 122, 27, 0]), calls: *r.pick(&[1, 1, 1, 2, 3, u64::MAX]), only: false }];
    }
    let p = &p;
    let o = cx.run(p);
    let aborted = o.exit == Exit::Signal(6);
    match o.exit { Exit::Deadlock | Exit::Budget | Exit::Hang => { cx.inconclusive = true; return Ok(()); } Exit::Done | Exit::Signal(6) => {} e => return fail("process-died", format!("the recording process died: {e:?}")) }
    // every failed write must be reported by the call during which it happened
    let bad = |s: u32| s == S_PANIC || s == S_ERR;
    let all: Vec<(u32, OpRec)> = o.recs.iter().map(|x| (*x.0, *x.1)).collect();
    // (one that took nothing may also be tried again)
    for w in o.writes.iter().filter(|w| w.err != 0 && w.err != 4 && w.err != 0xffff) {
        let hit = all.iter().find(|(_, r)| r.task == w.task && r.start <= w.step && (w.step <= r.end || r.status == S_STARTED));
        match hit {
            Some((_, r)) if bad(r.status) || (aborted && r.status == S_STARTED) => {}
            None if aborted => {}
            Some((id, r)) => { return fail("silent-failure", format!("a write of {} bytes at offset {} failed (errno {}) during op {}:{} {} but the call returned normally (status {})", w.len, w.off, w.err, op_thread(*id), op_index(*id), p.op(*id).map(brief).unwrap_or_default(), r.status)); }
            None => return fail("silent-failure", format!("a write of {} bytes at offset {} failed (errno {}) outside any call", w.len, w.off, w.err)),
        }
    }
    let reported = aborted || all.iter().any(|(_, r)| bad(r.status));
    let new = o.rec(OP_NEW);
    for f in &o.fired {
        if f.kind != F_ERR { continue; }
        if f.cls == IO_OPEN { ensure!(new.status == S_ERR, "constructor-succeeded", "the file could not be created (errno {}) but the constructor did not return an error (status {})", f.arg, new.status); }
        if f.cls == IO_MKDIR && new.status != S_ERR { ensure!(o.file(&path).is_some() && new.status == S_DONE, "constructor-succeeded", "the directory could not be created (errno {}) but the constructor did not return an error (status {})", f.arg, new.status); }
    }
    if new.status != S_DONE {
        if prof { if let Some(d) = o.file(&path) { if let Ok(t) = read_tolerant(&d) { ensure!(t.events.iter().flatten().count() == 0, "event-invented", "the session was never created but its file has events"); } } }
        return Ok(());
    }
    let ino = match o.ino(&path) { Some(i) => i, None => return fail("no-trace", "the file does not exist".into()) };
    append_only(&o, ino)?;
    let d = o.image(ino, o.writes.len(), None);
    if !reported {
        // nobody was told of a problem: everything must be there
        if prof { events_ok_ref(p, &o, &d)?; return strings_ok_ref(p, &o, &d); }
        return sinks_ok(p, &o);
    }
    *cx.stat("runs with a reported storage failure") += 1;
    if !prof { return failed_sinks_ok(p, &o, &d); }
    let t = match read_tolerant(&d) { Err(_) => return Ok(()), Ok(t) => t };
    *cx.stat("decodable files after a failure") += 1;
    let led = Ledger::new(p, &o);
    let exp = led.expected(true);
    subset_ok(&t.events, &exp, zero_bounds(&o))?;
    // string ids: right, visibly lost, or undecodable
    if let Ok(st) = lib_strings(&d) {
        for (id, op) in p.all_ops() {
            if !matches!(op, Op::Str { .. } | Op::Text { .. } | Op::Comp { .. } | Op::Eid { .. }) { continue; }
            let r = o.rec(id);
            if r.status != S_DONE { continue; }
            if let Some(x) = led.slot(id) { if let Ok(g) = expand(&st, r.r0).1 { ensure!(fuzzy(&g, &x.full), "string-altered", "after the failure the string of op {}:{} reads as {:?} instead of {:?}", op_thread(id), op_index(id), short(&g), short(&x.full)); } }
        }
        for (v, s) in led.virt.iter().take(400) {
            if let Some(x) = led.slot(*s) { if let Ok(g) = expand(&st, *v).1 { ensure!(fuzzy(&g, &x.full), "string-altered", "after the failure virtual id {v} reads as {:?} instead of {:?}", short(&g), short(&x.full)); } }
        }
    }
    Ok(())
}
fn append_only(o: &Outcome, ino: usize) -> Check {
    let mut len = 0;
    for w in o.writes.iter().filter(|w| w.ino == ino && w.err == 0) {
        if w.trunc { len = len.min(w.off); continue; }
        ensure!(w.off >= len, "overwritten", "{} bytes written at offset {} of a file of {} bytes", w.len, w.off, len);
        len = w.off + w.len;
    }
    Ok(())
}
/// Each event is one of those recorded, per thread in order, none twice.
fn subset_ok(events: &[Option<Ev>], exp: &[Exp], zero: (i64, i64)) -> Check {
    let mut by: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, x) in exp.iter().enumerate() { by.entry(x.tid).or_default().push(i); }
    for v in by.values_mut() { v.sort_by_key(|i| exp[*i].start); }
    let mut next: HashMap<u32, usize> = HashMap::new();
    for (n, e) in events.iter().enumerate() {
        let e = match e { Some(e) => e, None => continue };
        let list = match by.get(&e.tid) { Some(l) => l, None => return fail("event-invented", format!("after the failure event {n} was never recorded: {}", ev_text(e))) };
        let pos = next.entry(e.tid).or_insert(0);
        let same = |x: &Exp| fuzzy(&e.kind, &x.kind) && fuzzy(&join(&e.label, &e.args), &join(&x.label, &x.args)) && pay_ok(&e.pay, &x.pay, zero);
        match list[*pos..].iter().position(|i| same(&exp[*i])) {
            Some(k) => *pos += k + 1,
            None => return fail("event-invented", format!("after the failure event {n} is none of those still to come on its thread: {}", ev_text(e))),
        }
    }
    Ok(())
}
fn failed_sinks_ok(p: &Plan, o: &Outcome, d: &[u8]) -> Check {
    let s = match guarded(|| Ok(measureme::split_streams(d))) { Ok(s) => s, Err(_) => return Ok(()) };
    for (id, op) in p.all_ops() {
        let (k, n) = match op { Op::WA { s, len } | Op::WB { s, len } => (*s, *len as usize), _ => continue };
        let r = o.rec(id);
        if r.status != S_DONE || n == 0 { continue; }
        let tag = match k { 0 => measureme::PageTag::Events, 1 => measureme::PageTag::StringData, _ => measureme::PageTag::StringIndex };
        let st = match s.get(&tag) { Some(x) => x, None => continue };
        let mut want = vec![0u8; n];
        fill_bytes(id, 0, &mut want);
        let a = (r.r0 as usize).min(st.len());
        let e = (r.r0 as usize + n).min(st.len());
        if st[a..e] != want[..e - a] {
            let at = st[a..e].iter().zip(&want).position(|(x, y)| x != y).unwrap();
            return fail("content-altered", format!("after the failure stream {k} holds other bytes at address {} (op {}:{}, {n} bytes), first at byte {at}", r.r0, op_thread(id), op_index(id)));
        }
    }
    Ok(())
}

// ---- C07 -----------------------------------------------------------------------------------------
pub fn c07(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    no_panics(p, &o, normal_op)?;
    let d = trace(p, &o)?;
    strings_ok_ref(p, &o, &d)?;
    strings_ok_lib(p, &o, &d)?;
    events_ok(p, &o, &d)
}

// ---- C08 -----------------------------------------------------------------------------------------
pub fn c08(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    ensure!(o.rec(OP_NEW).status == S_DONE, "constructor-failed", "creating the session failed");
    let z = zero_bounds(&o);
    for (id, op) in p.all_ops() {
        let r = o.rec(id);
        if r.status == S_NONE || r.status == S_SKIP { continue; }
        let what = || format!("op {}:{} {}", op_thread(id), op_index(id), brief(op));
        let mut lim = |max: u64, b: bool| -> Check {
            let (lo, hi) = ((r.t0 - z.1) as i128, (r.t1 - z.0) as i128);
            let m = max as i128;
            if !b { return Ok(()); }
            if lo > m { ensure!(r.status == S_PANIC, "out-of-range-accepted", "{} at {lo} ns after the start cannot be represented but was not rejected", what()); }
            if hi <= m { ensure!(r.status == S_DONE, "rejected", "{} at no more than {hi} ns after the start was rejected", what()); }
            *cx.stat("calls near the 48-bit limit") += (hi > m - 1000 && lo < m + 1000) as u64;
            Ok(())
        };
        match op {
            Op::Instant { .. } => lim(MAX_SINGLE, true)?,
            Op::End { begin, .. } => { let b = o.rec(*begin).status == S_DONE; lim(MAX_INTERVAL, b)? }
            Op::BadInt { val, .. } => ensure!(r.status == S_PANIC, "out-of-range-accepted", "{} with value {val} was not rejected", what()),
            Op::Integer { .. } | Op::FillInt { .. } | Op::Begin { .. } => ensure!(r.status == S_DONE, "rejected", "{} was rejected", what()),
            _ => {}
        }
    }
    let d = trace(p, &o)?;
    let led = Ledger::new(p, &o);
    let exp = led.expected(false);
    let ev = ref_events(&d, false)?;
    let map = match_events(&ev, &exp, z, true)?;
    // one single starting point must explain all of them
    let (mut lo, mut hi) = z;
    for (e, i) in ev.iter().zip(&map) {
        let mut cut = |v: u64, a: i64, b: i64| { lo = lo.max(a - v as i64); hi = hi.min(b - v as i64); };
        match (&e.pay, &exp[*i].pay) {
            (Pay::Instant(t), ExpPay::Instant(a, b)) => cut(*t, *a, *b),
            (Pay::Interval(s, t), ExpPay::Interval(a, b, c, d)) => { cut(*s, *a, *b); cut(*t, *c, *d); }
            _ => {}
        }
        ensure!(lo <= hi, "clock-inconsistent", "no single starting time explains all timestamps: {} does not fit the others ({} ns off)", ev_text(e), lo - hi);
    }
    // through the reader under test
    let r = match read_with_lib(&d) { Ok(r) => r, Err(e) => return fail("unreadable", e.text()) };
    ensure!(r.events.len() == ev.len(), "decode-differs", "{} events decoded, {} stored", r.events.len(), ev.len());
    for (i, (a, b)) in r.events.iter().zip(&ev).enumerate() { ensure!(a == b, "decode-differs", "event {i} decodes as {} but is stored as {}", ev_text(a), ev_text(b)); }
    start_ok(&o, r.start)
}
pub fn start_ok(o: &Outcome, start: u64) -> Check {
    let n = o.rec(OP_NEW);
    let w: Vec<i64> = o.wall_reads.iter().filter(|w| w.1 == n.task && w.0 >= n.start && w.0 <= n.end).map(|w| w.2).collect();
    ensure!(w.iter().any(|x| *x as u64 == start), "start-time", "the trace says the session started at {start}, the wall clock said {w:?} when it was created");
    Ok(())
}

// ---- C09 -----------------------------------------------------------------------------------------
pub fn c09(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    for (id, op) in p.all_ops() {
        if is_bad_op(op) {
            let s = o.rec(id).status;
            ensure!(s != S_DONE, "bad-call-accepted", "op {}:{} {} did not fail", op_thread(id), op_index(id), brief(op));
            *cx.stat("calls that panicked part-way") += (s == S_PANIC) as u64;
        }
    }
    no_panics(p, &o, normal_op)?;
    if !is_profiler(p) { return sinks_ok(p, &o); }
    let d = trace(p, &o)?;
    string_tiling(p, &o, &d)?;
    events_ok_ref(p, &o, &d)?;
    strings_ok_ref(p, &o, &d)?;
    events_ok(p, &o, &d)
}

// ---- C22 -----------------------------------------------------------------------------------------
pub fn c22(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let st = o.rec(OP_NEW).status;
    let show = || short(&p.argv.iter().map(|a| String::from_utf8_lossy(a).escape_debug().to_string()).collect::<Vec<_>>().join(" "));
    ensure!(st == S_DONE, "constructor-failed", "creating the profiler failed (status {st}) for the command line {}", show());
    let d = trace(p, &o)?;
    let t = match read_tolerant(&d) { Ok(t) => t, Err(e) => return fail("unreadable", format!("the trace of a process with the command line {} cannot be opened: {}", show(), e.text())) };
    ensure!(t.pid == p.sim.pid, "process-id", "process id {} reported instead of {}", t.pid, p.sim.pid);
    start_ok(&o, t.start)?;
    let mut want = String::new();
    for a in &p.argv { want.push_str(&String::from_utf8_lossy(a)); want.push(' '); }
    ensure!(t.cmd == want, "command-line", "command line {:?} reported instead of {:?}", short(&t.cmd), short(&want));
    cx.checks += 1;
    Ok(())
}
