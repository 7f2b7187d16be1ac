use dstplan::ffi::*;
use dstplan::plan::*;
use mm::{DetachedTiming, EventIdBuilder, PageTag, Profiler, SerializableString, SerializationSink, SerializationSinkBuilder, StringComponent, StringId, TimingGuard};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub struct Ctx {
    plan: *const Plan,
    shm: *const Shm,
    stash: Vec<(u32, DetachedTiming)>,
    next_str: Option<u64>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();

struct Thread {
    t: usize,
    prof: Option<Arc<Profiler>>,
    sinks: Vec<Option<Arc<SerializationSink>>>,
    guards: Vec<(u32, TimingGuard<'static>)>,
}
enum Res { Done(u64, u64), Skip, Err }

struct BadS { len: usize, at: usize }
impl SerializableString for BadS {
    fn serialized_size(&self) -> usize { self.len }
    fn serialize(&self, bytes: &mut [u8]) {
        for (i, b) in bytes.iter_mut().enumerate() {
            if i == self.at { panic!("injected serializer panic"); }
            *b = b'!';
        }
        panic!("injected serializer panic at end");
    }
}
struct NulS { len: usize }
impl SerializableString for NulS {
    fn serialized_size(&self) -> usize { self.len + 1 }
    fn serialize(&self, bytes: &mut [u8]) { bytes[self.len] = 0xFF; }
}
struct BadIt { cur: u64, left: usize, at: usize }
impl Iterator for BadIt {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        if self.at == 0 { panic!("injected iterator panic"); }
        self.at -= 1;
        if self.left == 0 { return None; }
        self.left -= 1;
        self.cur += 1;
        Some(vid(self.cur - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.left, Some(self.left)) }
}
impl ExactSizeIterator for BadIt {}

struct VIter { start: u64, step: u64, i: usize, n: usize }
impl Iterator for VIter {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> {
        if self.i == self.n { return None; }
        let v = self.start + self.step * self.i as u64;
        self.i += 1;
        Some(vid(v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl ExactSizeIterator for VIter {}

unsafe fn rec(id: u32) -> &'static mut OpRec { &mut *(*(*CTX).shm).recs.add(id as usize) }
unsafe fn slot(id: u32) -> Option<u64> {
    let r = rec(id);
    if r.status == S_DONE { Some(r.r0) } else { None }
}
/// a virtual id, or the invalid id
fn any_id(v: u64) -> StringId { if v > 100_000_000 { sid(v) } else { vid(v) } }
unsafe fn idv(i: &Id) -> Option<StringId> {
    match i {
        Id::Slot(s) => slot(*s).map(sid),
        Id::Virt(v) => Some(any_id(*v)),
    }
}
unsafe fn record<F: FnOnce() -> Res>(id: u32, f: F) -> u32 {
    let r = rec(id);
    r.task = sim_task();
    sim_mark(id as u64);
    r.start = sim_step();
    r.t0 = sim_mono();
    r.live0 = live(); r.fds0 = sim_open_fds();
    r.status = S_STARTED;
    let out = catch_unwind(AssertUnwindSafe(f));
    let out = match out { Ok(x) => Some(x), Err(_) => None };
    r.live1 = live(); r.fds1 = sim_open_fds();
    r.end = sim_step();
    r.t1 = sim_mono();
    match out {
        Some(Res::Done(a, b)) => { r.r0 = a; r.r1 = b; r.status = S_DONE; }
        Some(Res::Skip) => r.status = S_SKIP,
        Some(Res::Err) => r.status = S_ERR,
        None => r.status = S_PANIC,
    }
    r.status
}
fn live() -> u64 { LIVE.load(std::sync::atomic::Ordering::Relaxed) as u64 }
/// one of many calls; none of them leaves anything with the caller
unsafe fn one_of_many(th: &Thread, id: u32, i: u64, op: &Op, tmpl: &mut Vec<u8>) -> Res {
    let Op::Many { what, n: _, len, s, v, to } = op else { return Res::Skip };
    let l = *len as usize;
    // a text that did not occur before
    let tok = mix64(i ^ (id as u64) << 32);
    for k in 0..l.min(12) { tmpl[k] = b'a' + (tok >> (5 * k) & 15) as u8; }
    if (9..=12).contains(what) {
        let Some(Some(k)) = th.sinks.get(*s as usize) else { return Res::Skip };
        match what {
            9 => { k.write_atomic(l, |b| b.copy_from_slice(tmpl)); }
            10 => { k.write_bytes_atomic(tmpl); }
            11 => { let mut w = k.as_std_write(); let h = l / 2; if w.write_all(&tmpl[..h]).is_err() || w.write_all(&tmpl[h..]).is_err() || i % 64 == 63 && w.flush().is_err() { return Res::Err; } }
            _ => { k.write_atomic(l, |b| { if l > 0 { b[0] = 1; } panic!("injected write callback panic") }); }
        }
        return Res::Done(0, 0);
    }
    let p = match &th.prof { Some(p) => p.clone_ref(), None => return Res::Skip };
    let Some(t) = slot(*to).map(sid) else { return Res::Skip };
    let e = eid(sid_raw(t));
    let tid = th.t as u32;
    let txt = std::str::from_utf8(tmpl).unwrap();
    match what {
        0 => { p.alloc_string(txt); }
        1 => { p.alloc_string(&[StringComponent::Value(txt), StringComponent::Ref(t), StringComponent::Value("x")]); }
        2 => { p.alloc_string(&BadS { len: l, at: l / 2 }); }
        3 => { let g = p.start_recording_interval_event(t, e, tid); if i % 3 == 0 { g.finish_with_override_event_id(e) } }
        4 => { let d = p.start_recording_interval_event_detached(t, e, tid); if i % 4 != 0 { p.finish_recording_interval_event(d) } }
        5 => p.record_instant_event(t, e, i as u32),
        6 => p.map_virtual_to_concrete_string(vid(*v + i), t),
        7 => p.bulk_map_virtual_to_single_concrete_string(VIter { start: *v + 64 * i, step: 1, i: 0, n: 64 }, t),
        8 => { let b = EventIdBuilder::new(p); if i % 2 == 0 { b.from_label_and_arg(t, t); } else { b.from_label_and_args(t, &[t, t, t]); } }
        13 => { let _g = p.start_recording_interval_event(t, e, tid); panic!("injected unwind through a guard"); }
        14 => p.bulk_map_virtual_to_single_concrete_string(BadIt { cur: *v + 64 * i, left: 64, at: 40 }, t),
        15 => p.record_integer_event(t, e, tid, u64::MAX - i),
        16 | 17 => {
            // sessions one after the other, or ones that cannot be created
            let path = format!("/sim/{}/other{}", if *what == 16 { "more" } else { "file" }, id);
            match Profiler::new(&path[..]) {
                Ok(q) => { let t = q.alloc_string(txt); q.record_instant_event(t, eid(sid_raw(t)), tid); if i % 2 == 1 { drop_now(q, true); } }
                Err(_) => return Res::Err,
            }
        }
        _ => p.record_integer_event(t, e, tid, i),
    }
    Res::Done(0, 0)
}
fn tag(s: u8) -> PageTag { match s { 0 => PageTag::Events, 1 => PageTag::StringData, _ => PageTag::StringIndex } }

unsafe fn note_str(id: StringId, size: usize) { (*CTX).next_str = Some(addr_raw(id.to_addr()) + size as u64); }

unsafe fn exec_op(th: &mut Thread, id: u32, op: &Op) -> Res {
    macro_rules! prof { () => { match &th.prof { Some(p) => p.clone_ref(), None => return Res::Skip } } }
    macro_rules! get { ($i:expr) => { match idv($i) { Some(v) => v, None => return Res::Skip } } }
    macro_rules! sink { ($s:expr) => { match th.sinks.get(*$s as usize) { Some(Some(p)) => p, _ => return Res::Skip } } }
    match op {
        Op::Nop => Res::Skip,
        Op::Yield => { sim_yield_hook(); Res::Skip }
        Op::Advance { ns } => { sim_advance(*ns); Res::Done(0, 0) }
        Op::WallJump { ns } => { sim_walljump(*ns); Res::Done(0, 0) }
        Op::Str { len, kind } => {
            let p = prof!();
            let s = text(id, *len as usize, *kind);
            let i = p.alloc_string(&s[..]);
            note_str(i, s.len() + 1);
            Res::Done(sid_raw(i), *len as u64)
        }
        Op::Text { s } => {
            let p = prof!();
            let i = p.alloc_string(&s[..]);
            note_str(i, s.len() + 1);
            Res::Done(sid_raw(i), s.len() as u64)
        }
        Op::PadTo { modulus, rem } => {
            let p = prof!();
            let next = match (*CTX).next_str { Some(n) => n, None => return Res::Skip };
            let m = *modulus as u64;
            let len = (m + *rem as u64 % m + m - (next + 1) % m) % m;
            let s = text(id, len as usize, 0);
            let i = p.alloc_string(&s[..]);
            note_str(i, s.len() + 1);
            Res::Done(sid_raw(i), len)
        }
        Op::Comp { parts, fixed } => {
            let p = prof!();
            let mut vals = Vec::with_capacity(parts.len());
            for (k, part) in parts.iter().enumerate() {
                vals.push(match part { Part::Val(l) => text(id.wrapping_mul(31).wrapping_add(k as u32), *l as usize, 1), _ => String::new() });
            }
            let mut cs = Vec::with_capacity(parts.len());
            let mut size = 1;
            for (k, part) in parts.iter().enumerate() {
                cs.push(match part {
                    Part::Val(l) => { size += *l as usize; StringComponent::Value(&vals[k][..]) }
                    Part::Ref(r) => { size += 9; StringComponent::Ref(get!(&Id::Slot(*r))) }
                    Part::Virt(v) => { size += 9; StringComponent::Ref(any_id(*v)) }
                });
            }
            let i = if *fixed {
                macro_rules! arr { ($($n:literal),*) => { match cs.len() { $( $n => { let mut it = cs.into_iter(); let a: [StringComponent<'_>; $n] = std::array::from_fn(|_| it.next().unwrap()); p.alloc_string(&a) } )* _ => return Res::Skip } } }
                arr!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
            } else {
                p.alloc_string(&cs[..])
            };
            note_str(i, size);
            Res::Done(sid_raw(i), 0)
        }
        Op::CompRel { r, delta } => {
            let p = prof!();
            let target = get!(&Id::Slot(*r));
            let next = match (*CTX).next_str { Some(n) => n, None => return Res::Skip };
            let len = next as i64 + *delta as i64;
            if len < 0 || len > 300_000 { return Res::Skip; }
            let v = text(id, len as usize, 0);
            let i = p.alloc_string(&[StringComponent::Ref(target), StringComponent::Value(&v[..])]);
            note_str(i, len as usize + 10);
            Res::Done(sid_raw(i), len as u64)
        }
        Op::MapV { vid: v, to } => {
            let p = prof!();
            let t = get!(&Id::Slot(*to));
            p.map_virtual_to_concrete_string(vid(*v), t);
            Res::Done(0, 0)
        }
        Op::BulkV { start, n, step, to, single } => {
            let p = prof!();
            let t = get!(&Id::Slot(*to));
            if *single {
                for i in 0..*n as u64 { p.map_virtual_to_concrete_string(vid(*start + i * *step as u64), t); }
                return Res::Done(0, 0);
            }
            p.bulk_map_virtual_to_single_concrete_string(VIter { start: *start, step: *step as u64, i: 0, n: *n as usize }, t);
            Res::Done(0, 0)
        }
        Op::Eid { label, args, single } => {
            let p = prof!();
            let l = get!(label);
            let b = EventIdBuilder::new(p);
            let e = if args.is_empty() && *single {
                b.from_label(l)
            } else if *single {
                b.from_label_and_arg(l, get!(&args[0]))
            } else {
                let mut v = Vec::with_capacity(args.len());
                for a in args { v.push(get!(a)); }
                b.from_label_and_args(l, &v)
            };
            Res::Done(eid_raw(e), 0)
        }
        Op::Instant { kind, eid: e, tid } => {
            let p = prof!();
            let (k, e) = (get!(kind), eid(sid_raw(get!(e))));
            p.record_instant_event(k, e, *tid);
            Res::Done(0, 0)
        }
        Op::Integer { kind, eid: e, tid, val } | Op::BadInt { kind, eid: e, tid, val } => {
            let p = prof!();
            let (k, e) = (get!(kind), eid(sid_raw(get!(e))));
            p.record_integer_event(k, e, *tid, *val);
            Res::Done(0, 0)
        }
        Op::FillInt { kind, eid: e, tid, base, n } => {
            let p = prof!();
            let (k, e) = (get!(kind), eid(sid_raw(get!(e))));
            for i in 0..*n as u64 { p.record_integer_event(k, e, *tid, *base + i); }
            Res::Done(*n as u64, 0)
        }
        Op::Begin { kind, eid: e, tid, detached } => {
            let p = prof!();
            let (k, e) = (get!(kind), eid(sid_raw(get!(e))));
            if *detached {
                let d = p.start_recording_interval_event_detached(k, e, *tid);
                sim_set_nopreempt(1);
                (*CTX).stash.push((id, d));
                sim_set_nopreempt(0);
            } else {
                let g = p.start_recording_interval_event(k, e, *tid);
                th.guards.push((id, g));
            }
            Res::Done(0, 0)
        }
        Op::End { begin, over } => {
            let p = prof!();
            let over = match over { Some(o) => Some(eid(sid_raw(get!(o)))), None => None };
            if let Some(pos) = th.guards.iter().position(|g| g.0 == *begin) {
                let (_, g) = th.guards.remove(pos);
                match over { Some(e) => g.finish_with_override_event_id(e), None => drop(g) }
                return Res::Done(0, over.is_some() as u64);
            }
            sim_set_nopreempt(1);
            let st = &mut (*CTX).stash;
            let d = st.iter().position(|g| g.0 == *begin).map(|pos| st.remove(pos));
            sim_set_nopreempt(0);
            match d {
                Some((_, d)) => { p.finish_recording_interval_event(d); Res::Done(0, 0) }
                None => Res::Skip,
            }
        }
        Op::Unwind { kind, eid: e, tid } => {
            let p = prof!();
            let (k, e) = (get!(kind), eid(sid_raw(get!(e))));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _g = p.start_recording_interval_event(k, e, *tid);
                sim_yield_hook();
                panic!("injected unwind through a guard");
            }));
            let _: std::thread::Result<()> = r;
            Res::Done(0, 0)
        }
        Op::BadStr { len, at } => {
            let p = prof!();
            let i = p.alloc_string(&BadS { len: *len as usize, at: *at as usize });
            Res::Done(sid_raw(i), 0)
        }
        Op::BadIter { start, n, at, to } => {
            let p = prof!();
            let t = get!(&Id::Slot(*to));
            p.bulk_map_virtual_to_single_concrete_string(BadIt { cur: *start, left: *n as usize, at: *at as usize }, t);
            Res::Done(0, 0)
        }
        Op::BadMap { vid: v, to, bulk } => {
            let p = prof!();
            let t = get!(&Id::Slot(*to));
            if *bulk { p.bulk_map_virtual_to_single_concrete_string(vec![vid(7), sid(*v)].into_iter(), t) } else { p.map_virtual_to_concrete_string(sid(*v), t) }
            Res::Done(0, 0)
        }
        Op::BadTarget { vid: v, bulk } => {
            let p = prof!();
            if *bulk { p.bulk_map_virtual_to_single_concrete_string(vec![vid(*v)].into_iter(), vid(*v)) } else { p.map_virtual_to_concrete_string(vid(*v), vid(*v)) }
            Res::Done(0, 0)
        }
        Op::WA { s, len } => {
            let k = sink!(s);
            let a = k.write_atomic(*len as usize, |b| fill_bytes(id, 0, b));
            Res::Done(addr_raw(a), *len as u64)
        }
        Op::WB { s, len } => {
            let mut v = vec![0u8; *len as usize];
            fill_bytes(id, 0, &mut v);
            let k = sink!(s);
            let a = k.write_bytes_atomic(&v);
            Res::Done(addr_raw(a), *len as u64)
        }
        Op::SW { s, lens, flush } => {
            let k = sink!(s);
            let mut w = k.as_std_write();
            for (c, l) in lens.iter().enumerate() {
                let mut v = vec![0u8; *l as usize];
                fill_bytes(id, c as u32, &mut v);
                if w.write_all(&v).is_err() { return Res::Err; }
            }
            if *flush && w.flush().is_err() { return Res::Err; }
            Res::Done(0, 0)
        }
        Op::SF { s } => {
            let k = sink!(s);
            let r = k.as_std_write().flush();
            if r.is_err() { return Res::Err; }
            Res::Done(0, 0)
        }
        Op::WAPanic { s, len, fill } => {
            let k = sink!(s);
            let a = k.write_atomic(*len as usize, |b| {
                let n = (*fill as usize).min(b.len());
                for x in &mut b[..n] { *x = 0xEE; }
                panic!("injected write callback panic");
            });
            Res::Done(addr_raw(a), *len as u64)
        }
        Op::HugeW { s, len, form } => {
            let k = sink!(s);
            let n = *len as usize;
            let last = 0x40 + op_thread(id) as u8;
            match form {
                0 => Res::Done(addr_raw(k.write_atomic(n, |b| if n > 0 { b[n - 1] = last })), *len),
                _ => {
                    let mut v = vec![0u8; n];
                    if n > 0 { v[n - 1] = last; }
                    if *form == 1 { Res::Done(addr_raw(k.write_bytes_atomic(&v)), *len) } else if k.as_std_write().write_all(&v).is_err() { Res::Err } else { Res::Done(0, *len) }
                }
            }
        }
        Op::HugeS { to } => {
            let p = prof!();
            let next = match (*CTX).next_str { Some(n) => n, None => return Res::Skip };
            let n = to.saturating_sub(next + 1) as usize;
            let i = p.alloc_string(&NulS { len: n });
            note_str(i, n + 1);
            Res::Done(sid_raw(i), n as u64)
        }
        Op::Many { n, len, .. } => {
            let mut tmpl = vec![b'.'; *len as usize];
            let r = rec(id);
            let (mut done, mut skipped) = (0, 0);
            for i in 0..*n as u64 {
                match catch_unwind(AssertUnwindSafe(|| one_of_many(th, id, i, op, &mut tmpl))) { Ok(Res::Done(..)) => done += 1, Ok(Res::Skip) => skipped += 1, _ => {} }
                r.peak = r.peak.max(live());
                r.fds_peak = r.fds_peak.max(sim_open_fds());
            }
            if skipped > 0 { Res::Skip } else { Res::Done(done, 0) }
        }
        Op::DropSink { s, unwind } => {
            if let Some(k) = th.sinks.get_mut(*s as usize) { drop_now(k.take(), *unwind); return Res::Done(0, 0); }
            Res::Skip
        }
        Op::DropProf { unwind } => {
            for g in th.guards.drain(..) { std::mem::forget(g); }
            match th.prof.take() { Some(p) => { drop_now(p, *unwind); Res::Done(0, 0) } None => Res::Skip }
        }
    }
}

fn drop_now<T>(x: T, unwind: bool) {
    if !unwind { drop(x); return; }
    let _ = catch_unwind(AssertUnwindSafe(move || { let _held = x; panic!("injected unwind through a handle"); }));
}

trait CloneRef { fn clone_ref(&self) -> &'static Profiler; }
impl CloneRef for Arc<Profiler> { fn clone_ref(&self) -> &'static Profiler { unsafe { &*Arc::as_ptr(self) } } }

unsafe fn run_op(th: &mut Thread, i: usize, op: &Op) {
    let id = opid(th.t, i);
    if let Op::Nop = op { return; }
    record(id, || exec_op(th, id, op));
    sim_yield_hook();
}
unsafe fn run_ops(th: &mut Thread, ops: &[Op]) {
    for (i, op) in ops.iter().enumerate() { run_op(th, i, op); }
}
/// the operations of two sessions in turn
unsafe fn run_mix(a: &mut Thread, from: usize, xs: &[Op], b: &mut Thread, ys: &[Op], mix: u64) {
    let (mut i, mut j) = (from, 0);
    let mut h = mix64(mix ^ a.t as u64);
    while i < xs.len() || j < ys.len() {
        h = mix64(h);
        if j >= ys.len() || i < xs.len() && h % (1 + mix % 4) == 0 { run_op(a, i, &xs[i]); i += 1; } else { run_op(b, j, &ys[j]); j += 1; }
    }
}
unsafe fn new_twin(path: &str, t: usize) -> Thread {
    let mut got = None;
    (*CTX).next_str = None;
    record(OP_NEW2, || match Profiler::new(path) {
        Ok(p) => { got = Some(Arc::new(p)); Res::Done(0, 0) }
        Err(e) => { (*(*CTX).shm).put_blob(BLOB_ERR, 1, e.to_string().as_bytes()); Res::Err }
    });
    Thread { t, prof: got, sinks: vec![], guards: vec![] }
}
/// the last handle of the first session ends and the second session takes its place in memory
unsafe fn replace_twin(a: &mut Thread, path: &str, t: usize) -> Thread {
    for g in a.guards.drain(..) { std::mem::forget(g); }
    let Some(mut arc) = a.prof.take() else { return new_twin(path, t) };
    let Some(at) = Arc::get_mut(&mut arc).map(|p| p as *mut Profiler) else { a.prof = Some(arc); finish_thread(a); return new_twin(path, t) };
    record(op_drop(a.t), || { std::ptr::drop_in_place(at); Res::Done(0, 0) });
    let mut ok = false;
    (*CTX).next_str = None;
    record(OP_NEW2, || match Profiler::new(path) {
        Ok(p) => { std::ptr::write(at, p); ok = true; Res::Done(0, 0) }
        Err(e) => { (*(*CTX).shm).put_blob(BLOB_ERR, 1, e.to_string().as_bytes()); Res::Err }
    });
    if !ok { std::mem::forget(arc); return Thread { t, prof: None, sinks: vec![], guards: vec![] }; }
    Thread { t, prof: Some(arc), sinks: vec![], guards: vec![] }
}
unsafe fn finish_thread(th: &mut Thread) {
    for g in th.guards.drain(..) { std::mem::forget(g); }
    if th.prof.is_some() {
        record(op_drop(th.t), || { drop(th.prof.take()); Res::Done(0, 0) });
    }
    for s in 0..th.sinks.len() {
        if th.sinks[s].is_some() {
            record(op_drop_sink(th.t, s), || { drop(th.sinks[s].take()); Res::Done(0, 0) });
        }
    }
}

pub unsafe fn run(plan: &'static Plan, shm: &'static Shm) {
    let ctx = Box::new(Ctx { plan, shm, stash: Vec::with_capacity(256), next_str: None });
    CTX = Box::into_raw(ctx);
    if !plan.pre_preempt { sim_set_nopreempt(1); }
    let mut main = Thread { t: T_PRE, prof: None, sinks: vec![], guards: vec![] };
    match plan.session {
        Session::Profiler | Session::ProfilerV8 => {
            let mut got = None;
            record(OP_NEW, || match Profiler::new(&plan.path[..]) {
                Ok(p) => { got = Some(Arc::new(p)); Res::Done(0, 0) }
                Err(e) => { shm.put_blob(BLOB_ERR, 0, e.to_string().as_bytes()); Res::Err }
            });
            match got { Some(p) => main.prof = Some(p), None if plan.twin.is_some() => {} None => { record(OP_OVER, || Res::Done(0, 0)); return } }
        }
        Session::ProfilerHw => match new_hw(plan, shm) { Some(p) => main.prof = Some(Arc::new(p)), None => return },
        Session::SinksMem | Session::SinksFile => {
            let mut got = None;
            record(OP_NEW, || {
                let b = if plan.session == Session::SinksMem { SerializationSinkBuilder::new_in_memory() } else {
                    match std::fs::File::create(&plan.path) {
                        Ok(f) => match SerializationSinkBuilder::new_from_file(f) { Ok(b) => b, Err(_) => return Res::Err },
                        Err(_) => return Res::Err,
                    }
                };
                got = Some((0..plan.sinks).map(|s| Some(Arc::new(b.new_sink(tag(s))))).collect::<Vec<_>>());
                Res::Done(0, 0)
            });
            match got { Some(v) => main.sinks = v, None => { record(OP_OVER, || Res::Done(0, 0)); return } }
        }
        Session::ReadOnly => {}
    }
    run_ops(&mut main, &plan.pre);
    let twin = plan.twin.as_ref();
    let na = twin.map_or(plan.threads.len(), |t| t.na);
    let mut main2 = Thread { t: 0, prof: None, sinks: vec![], guards: vec![] };
    if let Some(tw) = twin.filter(|t| t.create == 0) {
        main2 = new_twin(&tw.path, 2 * na + 1);
        run_ops(&mut main2, &plan.threads[2 * na]);
    }
    sim_set_nopreempt(0);
    sim_rebase();
    let moved = twin.map_or(false, |t| t.create == 3) && main.guards.is_empty();
    let mut handles = vec![];
    struct SendPtr(Thread, Thread);
    unsafe impl Send for SendPtr {}
    for t in 0..na {
        let prof = if moved { let p = main.prof.take(); record(OP_MAIN_DROP, || Res::Done(0, 0)); p } else { main.prof.clone() };
        let mut th = Thread { t: t + 1, prof, sinks: main.sinks.clone(), guards: vec![] };
        let mut boxed = SendPtr({ let x = Thread { t: th.t, prof: th.prof.take(), sinks: std::mem::take(&mut th.sinks), guards: vec![] }; x }, Thread { t: na + t + 1, prof: main2.prof.clone(), sinks: vec![], guards: vec![] });
        let h = std::thread::Builder::new().stack_size(512 * 1024).spawn(move || {
            let b = &mut boxed;
            match &plan.twin {
                Some(tw) if tw.create == 0 => {
                    run_mix(&mut b.0, 0, &plan.threads[t], &mut b.1, &plan.threads[na + t], tw.mix);
                    if tw.mix >> 40 & 1 == 1 { finish_thread(&mut b.1); }
                    finish_thread(&mut b.0);
                    finish_thread(&mut b.1);
                }
                Some(tw) if tw.create == 3 && t == 0 => {
                    run_ops(&mut b.0, &plan.threads[0]);
                    let mut pre = replace_twin(&mut b.0, &tw.path, 2 * na + 1);
                    run_ops(&mut pre, &plan.threads[2 * na]);
                    for g in pre.guards.drain(..) { std::mem::forget(g); }
                    b.1.prof = pre.prof.take();
                    run_ops(&mut b.1, &plan.threads[na]);
                    finish_thread(&mut b.1);
                }
                Some(tw) if tw.create == 2 && t == 0 => {
                    let ops = &plan.threads[0];
                    let half = ops.len() / 2;
                    run_ops(&mut b.0, &ops[..half]);
                    let mut pre = new_twin(&tw.path, 2 * na + 1);
                    run_ops(&mut pre, &plan.threads[2 * na]);
                    for g in pre.guards.drain(..) { std::mem::forget(g); }
                    b.1.prof = pre.prof.take();
                    run_mix(&mut b.0, half, ops, &mut b.1, &plan.threads[na], tw.mix);
                    finish_thread(&mut b.1);
                    finish_thread(&mut b.0);
                }
                _ => {
                    run_ops(&mut b.0, &plan.threads[t]);
                    finish_thread(&mut b.0);
                }
            }
        }).unwrap();
        handles.push(h);
    }
    if plan.main_drops_early { 
        // guards of the pre phase keep references: only drop the handle when none is open
        if main.guards.is_empty() {
            record(OP_MAIN_DROP, || { drop(main.prof.take()); Res::Done(0, 0) });
            for (i, s) in main.sinks.iter_mut().enumerate() { let mut s = s.take(); record(op_main_drop_sink(i), || { drop(s.take()); Res::Done(0, 0) }); }
        }
    }
    for h in handles { let _ = h.join(); }
    if main2.prof.is_some() {
        for g in main2.guards.drain(..) { std::mem::forget(g); }
        record(OP_MAIN_DROP2, || { drop(main2.prof.take()); Res::Done(0, 0) });
    }
    main.t = T_POST;
    run_ops(&mut main, &plan.post);
    for g in main.guards.drain(..) { std::mem::forget(g); }
    if plan.leak {
        if let Some(p) = main.prof.take() { std::mem::forget(p); }
        for s in main.sinks.iter_mut() { std::mem::forget(s.take()); }
        return;
    }
    if plan.session == Session::SinksMem {
        for (s, k) in main.sinks.iter_mut().enumerate() {
            if let Some(k) = k.take() {
                record(op_main_drop_sink(s), || {
                    match Arc::try_unwrap(k) {
                        Ok(k) => { let b = k.into_bytes(); shm.put_blob(BLOB_SINK, s as u64, &b); Res::Done(0, 0) }
                        Err(_) => Res::Skip,
                    }
                });
            }
        }
    } else {
        if main.prof.is_some() { record(OP_MAIN_DROP, || { drop(main.prof.take()); Res::Done(0, 0) }); }
        for (s, k) in main.sinks.iter_mut().enumerate() {
            if let Some(k) = k.take() { record(op_main_drop_sink(s), || { drop(k); Res::Done(0, 0) }); }
        }
    }
    if let Some(tw) = twin.filter(|t| t.create == 1) {
        main2 = new_twin(&tw.path, 2 * na + 1);
        run_ops(&mut main2, &plan.threads[2 * na]);
        let mut handles = vec![];
        for t in 0..na {
            let mut boxed = SendPtr(Thread { t: na + t + 1, prof: main2.prof.clone(), sinks: vec![], guards: vec![] }, Thread { t: 0, prof: None, sinks: vec![], guards: vec![] });
            handles.push(std::thread::Builder::new().stack_size(512 * 1024).spawn(move || {
                let b = &mut boxed;
                run_ops(&mut b.0, &plan.threads[na + t]);
                finish_thread(&mut b.0);
            }).unwrap());
        }
        for h in handles { let _ = h.join(); }
        for g in main2.guards.drain(..) { std::mem::forget(g); }
        if main2.prof.is_some() { record(OP_MAIN_DROP2, || { drop(main2.prof.take()); Res::Done(0, 0) }); }
    }
    drop((main, main2));
    record(OP_OVER, || Res::Done(0, 0));
}
