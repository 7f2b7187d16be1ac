//! C25: what a session holds while it records and after it is over.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::props::Cx;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;

/// enough calls of this kind to write (or to try to write) more than a session may hold
fn many(r: &mut Rng, kind: u8, s: u8, to: u32, v: &mut u64) -> Op {
    let len = match kind { 0 | 1 => *r.pick(&[300u32, 900, 2000, 5000]), 2 | 12 => *r.pick(&[2000, 8000, 30_000, 300_000]), 9..=11 => *r.pick(&[24, 300, 2000, 9000, 60_000, 140_000, 270_000]), _ => *r.pick(&[8, 40, 1000]) };
    let target = *r.pick(&[300_000u64, 2_000_000, 4_500_000, 4_500_000, 9_000_000]);
    let per = match kind { 0 | 1 | 2 | 9..=12 => len as u64, 3 | 4 | 5 | 13 | 18 => 72, 6 => 32, 7 | 14 => 1024, 8 => 40, 16 => 800_000, 17 => 2000, _ => 60 };
    let n = (target / per).clamp(1, match kind { 16 => 30, 17 => 400, 13 | 14 | 15 => 3000, _ => 60_000 }) as u32;
    let op = Op::Many { what: kind, n, len, s, v: *v, to };
    if matches!(kind, 6 | 7 | 14) { *v += n as u64 * if kind == 6 { 1 } else { 64 }; }
    op
}
pub fn gen_c25(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let raw = r.chance(1, 4);
    let nt = *r.pick(&[1u64, 1, 2, 3, 4]);
    let deep = std::mem::take(&mut r.1);
    let o = Opts { threads: (nt, nt), ops: *r.pick(&[(0, 6), (3, 30)]), fill: r.chance(1, 3), bad: r.chance(1, 3), ..Default::default() };
    let mut p = if raw { let mut p = sink_plan(prop, seed, r, true, false, true); p.pre.clear(); p } else { profiler_plan(prop, seed, r, &o) };
    r.1 = deep;
    let fault = r.weighted(&[6, 2, 1]);
    let calm = fault != 1;
    if raw { p.threads.truncate(nt as usize); }
    let to = p.pre.iter().position(|o| matches!(o, Op::Str { len, .. } if *len > 0 && *len < 2000)).unwrap_or(0) as u32;
    // past everything the plan maps
    let mut v = 50_000_000u64;
    let nt = p.threads.len();
    let mut big = 0;
    for t in 0..nt {
        for o in p.threads[t].iter_mut() { if matches!(o, Op::MapV { vid, .. } | Op::BulkV { start: vid, .. } | Op::BadIter { start: vid, .. } if *vid >= v) || !calm && matches!(o, Op::Unwind { .. }) { *o = Op::Nop } }
        let k = if t == 0 { r.range(1, 4) } else { r.below(3) };
        for _ in 0..k {
            if big > 6 { break; }
            let kind = if raw { *r.pick(&[9u8, 10, 11, 12]) } else { *r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 13, 14, 15, 16, 17, 18]) };
            if kind == 13 && !calm { continue; }
            let s = if raw { r.idx(p.sinks as usize) as u8 } else { 0 };
            let op = many(r, kind, s, opid(T_PRE, to as usize), &mut v);
            big += 1;
            let twice = r.chance(1, 3);
            p.threads[t].push(op.clone());
            if twice && !matches!(kind, 6 | 7 | 14 | 16 | 17) { p.threads[t].push(op); }
        }
        if !raw && calm && r.chance(1, 6) { p.threads[t].push(Op::DropProf { unwind: r.chance(1, 2) }); }
    }
    p.files.push(("/sim/file".into(), b"in the way".to_vec()));
    p.dirs.push("/sim/more".into());
    p.sim.keep = 0;
    if r.chance(1, 3) { soft_io_faults(r, &mut p, false); p.sim.p_short = p.sim.p_short.min(40); p.sim.p_eintr = p.sim.p_eintr.min(40); }
    sched(r, &mut p);
    match fault {
        1 => { let cap = *r.pick(&[0u64, 8, 20, 5000, 300_000, 1_000_000, 3_000_000]) + r.below(300); p.sim.disk.push(DiskSpec { cap, err: *r.pick(&[28, 5, 122]), calls: *r.pick(&[1, 3, u64::MAX, u64::MAX]), only: false }); }
        2 => { let cls = *r.pick(&[IO_OPEN, IO_MKDIR, IO_WRITE]); p.sim.faults.push(FaultSpec { task: u32::MAX, cls, idx: 0, kind: F_ERR, arg: *r.pick(&[13, 28, 30, 24]) }); }
        _ => {}
    }
    p
}
const FIXED: u64 = 2 << 20;
pub fn c25(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if matches!(o.exit, Exit::Signal(libc::SIGABRT)) && !o.fired.is_empty() { cx.inconclusive = true; return Ok(()); }
    if !cx.finished(&o)? { return Ok(()); }
    let new = o.rec(OP_NEW);
    let over = o.rec(OP_OVER);
    ensure!(over.status == S_DONE, "not-over", "the session did not come to its end");
    // what a single call may need, and what the largest page of the plan's own calls needs
    let mut largest = 4096;
    let mut held = 0;
    for (_, op) in p.all_ops() {
        let n = match op {
            Op::Str { len, .. } | Op::BadStr { len, .. } | Op::WA { len, .. } | Op::WB { len, .. } | Op::Many { len, .. } => *len as u64,
            Op::SW { lens, .. } => lens.iter().copied().max().unwrap_or(0) as u64,
            Op::WAPanic { len, .. } => *len as u64,
            Op::PadTo { modulus, .. } => *modulus as u64,
            Op::Text { s } => s.len() as u64,
            Op::Comp { parts, .. } => parts.iter().map(|p| if let Part::Val(l) = p { *l as u64 + 64 } else { 64 }).sum(),
            Op::Eid { args, .. } => args.len() as u64 * 64,
            Op::BulkV { n, .. } | Op::BadIter { n, .. } => *n as u64 * 32,
            _ => 0,
        };
        largest = largest.max(n);
        if let Op::Begin { .. } = op { held += 200; }
    }
    let nt = p.threads.len() as u64 + 1;
    let more = p.all_ops().iter().filter(|x| matches!(x.1, Op::Many { what: 16, .. })).count() as u64;
    let limit = FIXED * (1 + more) + 6 * largest * nt + 65_536 * nt + held;
    let base = new.live0;
    let written: u64 = o.writes.iter().filter(|w| w.err == 0).map(|w| w.len).sum();
    let c = cx.stat("sessions that recorded more than three times what they may hold");
    if written > 3 * limit { *c += 1; }
    let mut check = |id: u32, what: String, r: &OpRec| -> Check {
        if r.status == S_NONE || r.status == S_STARTED { return Ok(()); }
        let m = r.live1.max(r.peak);
        ensure!(m <= base + limit, "memory-grows", "{} bytes are held at {what} ({}:{}) by a session that may hold {limit} ({written} bytes are recorded in all)", m - base, op_thread(id), op_index(id));
        let f = r.fds1.max(r.fds_peak);
        ensure!(f <= new.fds0 + 6 + 4 * more as u32, "descriptors-grow", "{f} descriptors are open at {what} ({}:{})", op_thread(id), op_index(id));
        Ok(())
    };
    check(OP_NEW, "the creation".into(), &new)?;
    for (id, op) in p.all_ops() { check(id, brief(op), &o.rec(id))?; }
    for id in pseudo_ops() { check(id, "the end".into(), &o.rec(id))?; }
    ensure!(over.fds1 <= new.fds0, "descriptors-left", "{} descriptors are open after the session, {} before", over.fds1, new.fds0);
    let slack = 16_384 + 4096 * nt;
    ensure!(over.live1 <= base + slack, "memory-left", "{} bytes are in use after the session ({written} bytes were written)", over.live1 as i64 - base as i64);
    Ok(())
}
