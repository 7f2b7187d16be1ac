//! C23: several sessions in one process, and what was at the target path before.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p_rec::{read_tolerant, start_ok};
use crate::props::Cx;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;

/// the same operation with every operation id renamed
fn renum(o: &Op, f: &dyn Fn(u32) -> u32) -> Op {
    let mut o = o.clone();
    let id = |i: &mut Id| if let Id::Slot(s) = i { *s = f(*s) };
    match &mut o {
        Op::Comp { parts, .. } => for p in parts.iter_mut() { if let Part::Ref(s) = p { *s = f(*s) } },
        Op::CompRel { r, .. } => *r = f(*r),
        Op::MapV { to, .. } | Op::BulkV { to, .. } | Op::BadIter { to, .. } | Op::BadMap { to, .. } => *to = f(*to),
        Op::Eid { label, args, .. } => { id(label); for a in args.iter_mut() { id(a) } }
        Op::Instant { kind, eid, .. } | Op::Integer { kind, eid, .. } | Op::Begin { kind, eid, .. } | Op::Unwind { kind, eid, .. } | Op::FillInt { kind, eid, .. } | Op::BadInt { kind, eid, .. } => { id(kind); id(eid) }
        Op::End { begin, over } => { *begin = f(*begin); if let Some(o) = over { id(o) } }
        _ => {}
    }
    o
}
const PATHS: [&str; 7] = ["/sim/trace", "/sim/a/b/t", "/sim/t.x.y", "/sim/dir/trace-1234", "/sim/trace.b", "/sim/trace2", "/sim/a/trace"];

pub fn gen_c23(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let create = r.weighted(&[5, 3, 3, 2]) as u8;
    let bad_disk = r.chance(1, 5);
    let o = Opts { threads: (1, if create == 3 { 1 } else { 4 }), ops: *r.pick(&[(1, 6), (3, 30), (20, 60)]), fill: r.chance(1, 2), virt: r.chance(2, 3), real_tids: r.chance(1, 3), bad: r.chance(1, 5), ..Default::default() };
    let deep = std::mem::take(&mut r.1);
    let mut p = profiler_plan(prop, seed, r, &o);
    let na = p.threads.len();
    let o2 = Opts { threads: if create >= 2 { (1, 1) } else { (na as u64, na as u64) }, ops: *r.pick(&[(1, 6), (3, 30), (20, 60)]), fill: r.chance(1, 2), virt: r.chance(2, 3), bad: false, ..o.clone() };
    let b = profiler_plan(prop, seed, r, &o2);
    r.1 = deep;
    // operation ids of the second session
    if bad_disk { for t in p.threads.iter_mut() { for o in t.iter_mut() { if matches!(o, Op::Unwind { .. }) { *o = Op::Nop } } } }
    let f = |id: u32| {
        let (t, i) = (op_thread(id), op_index(id));
        if t == T_PRE { opid(2 * na + 1, i) } else { opid(na + t, i) }
    };
    for k in 0..na { let ops = b.threads.get(k).map(|v| v.iter().map(|o| renum(o, &f)).collect()).unwrap_or_default(); p.threads.push(ops); }
    p.threads.push(b.pre.iter().map(|o| renum(o, &f)).collect());
    p.path = if bad_disk { "/sim/bad/trace".into() } else { r.pick(&PATHS).to_string() };
    if create == 3 { p.main_drops_early = false; p.post.clear(); }
    let same = (create == 1 || create == 3) && !bad_disk && r.chance(1, 3);
    let mut path2 = p.path.clone();
    while !same && (Plan { path: path2.clone(), ..Plan::new("", 0) }).trace_path() == p.trace_path() { path2 = r.pick(&PATHS).to_string(); }
    p.twin = Some(Twin { path: path2.clone(), create, na, mix: r.next() });
    if bad_disk { let cap = *r.pick(&[0u64, 5, 8, 13, 400, 3000, 262_157, 300_000]) + r.below(9); p.sim.disk.push(DiskSpec { cap, err: *r.pick(&[28, 5]), calls: *r.pick(&[1, 3, u64::MAX]), only: true }); }
    // what was there before
    let t2 = Plan { path: path2, ..Plan::new("", 0) }.trace_path();
    for t in [p.trace_path(), t2] {
        if !r.chance(1, 2) || p.files.iter().any(|f| f.0 == t) { continue; }
        let n = *r.pick(&[0usize, 1, 8, 100, 5000, 300_000, 900_000]);
        let mut v = vec![0u8; n];
        match r.below(3) {
            0 => {}
            1 => for x in v.iter_mut() { *x = r.next() as u8 },
            _ => { // pages of an older trace, placed so that they would be read as such
                let page: [u8; 13] = [*r.pick(&[0, 1, 2]), 8, 0, 0, 0, b'M', b'M', b'E', b'S', 9, 0, 0, 0];
                for (i, x) in v.iter_mut().enumerate() { *x = if i < 8 { b"MMPD\x09\0\0\0"[i] } else { page[(i - 8) % 13] } }
            }
        }
        let mut d = std::path::Path::new(&t).parent();
        while let Some(x) = d { let s = x.to_str().unwrap().to_string(); if s != "/" && s != "/sim" && !p.dirs.contains(&s) { p.dirs.insert(0, s); } d = x.parent(); }
        p.files.push((t.clone(), v));
        // neighbours that must stay as they are
        for n in [t.trim_end_matches(".mm_profdata").to_string(), format!("{t}.old"), format!("{t}~")] {
            if r.chance(1, 4) && !p.files.iter().any(|f| f.0 == n) && !p.dirs.contains(&n) { p.files.push((n, b"neighbour".to_vec())); }
        }
    }
    p.files.retain(|f| !p.dirs.contains(&f.0));
    let n = r.range(0, 3);
    p.argv = (0..n).map(|_| r.pick(&["prog", "--x", "a b", "é"]).bytes().collect()).collect();
    clocks(r, &mut p);
    soft_io_faults(r, &mut p, false);
    // the second session may be created after the wall clock was set back
    p.sim.wall0 = p.sim.wall0.max(1_600_000_000_123_456_789);
    soft_io_faults(r, &mut p, false);
    sched(r, &mut p);
    p
}

/// everything that is known about one session
fn whole(p: &Plan, o: &Outcome) -> Check {
    let bad = p.all_ops().iter().any(|x| is_bad_op(x.1));
    no_panics(p, o, normal_op)?;
    let d = trace(p, o)?;
    events_ok_ref(p, o, &d)?;
    events_ok(p, o, &d)?;
    strings_ok_ref(p, o, &d)?;
    if !bad { string_tiling(p, o, &d)?; }
    let t = match read_tolerant(&d) { Ok(t) => t, Err(e) => return fail("unreadable", format!("the trace cannot be opened: {}", e.text())) };
    ensure!(t.pid == p.sim.pid, "process-id", "process id {} reported instead of {}", t.pid, p.sim.pid);
    start_ok(o, t.start)?;
    let mut want = String::new();
    for a in &p.argv { want.push_str(&String::from_utf8_lossy(a)); want.push(' '); }
    ensure!(t.cmd == want, "command-line", "command line {:?} reported instead of {:?}", short(&t.cmd), short(&want));
    Ok(())
}
pub fn c23(cx: &mut Cx, p: &Plan) -> Check {
    let tw = p.twin.clone().unwrap();
    let mut o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let mut a = Plan { twin: None, ..p.clone() };
    for t in a.threads.iter_mut().skip(tw.na) { t.clear(); }
    let mut b = Plan { twin: None, path: tw.path.clone(), pre: vec![], post: vec![], ..p.clone() };
    for t in b.threads.iter_mut().take(tw.na) { t.clear(); }
    let (ta, tb) = (a.trace_path(), b.trace_path());
    // no file but the two traces is touched
    for w in &o.writes {
        let path = o.paths.get(w.ino).cloned().unwrap_or_default();
        ensure!(path == norm(&ta) || path == norm(&tb), "foreign-file", "{} bytes written to {path}", w.len);
    }
    let who = |which: &str, c: Check| c.map_err(|mut v| { v.msg = format!("{which} session: {}", v.msg); v });
    let failing = !p.sim.disk.is_empty();
    if !failing && ta != tb { who("first", whole(&a, &o))?; cx.checks += 1; }
    if failing && o.fired.iter().any(|f| f.kind == F_DISK) { *cx.stat("sessions beside one with a failing disk") += 1; }
    let (n, d) = (o.rec(OP_NEW2), o.rec(OP_MAIN_DROP2));
    if n.status == S_NONE { return Ok(()); } // minimised away
    o.recs.insert(OP_NEW, n);
    o.recs.insert(OP_MAIN_DROP, d);
    for t in 0..=tw.na { o.recs.remove(&op_drop(t)); }
    who("second", whole(&b, &o))
}
