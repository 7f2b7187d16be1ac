//! Judges of the reading and library analysis properties C10–C14.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p_rec::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---- an independent writer -----------------------------------------------------------------------
/// A file made of these streams, page by page in turns.
pub fn build_file(version: u32, st: &[Vec<u8>; 3], page: usize) -> Vec<u8> {
    let mut d = b"MMPD".to_vec();
    d.extend(version.to_le_bytes());
    let mut pos = [0usize; 3];
    loop {
        let mut any = false;
        for i in [1usize, 2, 0] {
            let n = page.min(st[i].len() - pos[i]);
            if n == 0 { continue; }
            any = true;
            d.push(i as u8);
            d.extend((n as u32).to_le_bytes());
            d.extend(&st[i][pos[i]..pos[i] + n]);
            pos[i] += n;
        }
        if !any { return d; }
    }
}
pub fn head(magic: &[u8; 4], version: u32) -> Vec<u8> { let mut v = magic.to_vec(); v.extend(version.to_le_bytes()); v }
/// The same events and metadata in the current format.
pub fn encode_v9(evs: &[Ev], meta_json: &str) -> Vec<u8> {
    let (mut e, mut s, mut x) = (head(b"MMES", 9), head(b"MMSD", 9), head(b"MMSI", 9));
    let add = |s: &mut Vec<u8>, t: &str| { let a = s.len() as u64; s.extend(t.as_bytes()); s.push(0xFF); a };
    let a = add(&mut s, meta_json);
    x.extend(METADATA_ID.to_le_bytes());
    x.extend(a.to_le_bytes());
    let mut ids: HashMap<String, u64> = HashMap::new();
    for ev in evs {
        let mut full = ev.label.clone();
        for y in &ev.args { full.push('\x1E'); full.push_str(y); }
        let mut id = |t: &String, s: &mut Vec<u8>| { if let Some(i) = ids.get(t) { return *i; } let i = FIRST_ID + add(s, t); ids.insert(t.clone(), i); i };
        let k = id(&ev.kind, &mut s);
        let l = id(&full, &mut s);
        let (p1, p2) = match ev.pay { Pay::Instant(t) => (t, MAX_SINGLE), Pay::Integer(v) => (v, MAX_SINGLE - 1), Pay::Interval(a, b) => (a, b) };
        e.extend(k.to_le_bytes());
        e.extend(l.to_le_bytes());
        e.extend(ev.tid.to_le_bytes());
        e.extend((p1 as u32).to_le_bytes());
        e.extend((p2 as u32).to_le_bytes());
        e.extend(((((p1 >> 32) as u32) << 16) | (p2 >> 32) as u32).to_le_bytes());
    }
    build_file(9, &[e, s, x], MAX_PAGE)
}
/// Text and position of the metadata record in the string data stream.
pub fn meta_record(st: &[Vec<u8>; 3], v8: bool) -> Option<(usize, usize)> {
    let rs = RefStrings::new(&st[1], &st[2], v8);
    let a = *rs.index.get(&METADATA_ID)? as usize;
    let n = st[1].get(a..)?.iter().position(|b| *b == 0xFF)?;
    Some((a, a + n))
}
/// The string records of the previous format that its own (released) reader misreads.
pub fn v8_reader_trips(st: &[Vec<u8>; 3]) -> bool {
    let d = &st[1];
    let mut pos = 8;
    while pos < d.len() {
        // walk one record
        let start = pos;
        loop {
            match d.get(pos) { None => return false, Some(0xFF) => break, Some(0xFE) => pos += 5, Some(_) => pos += 1 }
        }
        if d[start] == 0xFE {
            let first = d[start..].iter().position(|b| *b == 0xFF).unwrap();
            if first == start + 5 || (first == 5 && pos != start + 5) { return true; }
        }
        pos += 1;
    }
    false
}

// ---- C10 -----------------------------------------------------------------------------------------
pub fn gen_c10(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 3);
    let mut p = if r.chance(1, 2) {
        let ops = *r.pick(&[(0, 4), (2, 40)]);
        nested_plan(prop, seed, r, &Nest { v8, newlines: true, ops, ..Default::default() })
    } else {
        let o = Opts { v8, virt: r.chance(1, 2), ops: *r.pick(&[(0, 3), (1, 6), (3, 30)]), threads: (1, 4), fill: r.chance(1, 4), ..Default::default() };
        let mut p = profiler_plan(prop, seed, r, &o);
        clocks(r, &mut p);
        sched(r, &mut p);
        p
    };
    if v8 { plain_v8(&mut p); }
    p.extra = vec![r.next()];
    p
}
/// what only the current release can do
pub fn plain_v8(p: &mut Plan) {
    p.argv = vec![b"rustc".to_vec(), b"--crate-name".to_vec(), b"foo".to_vec()];
    let fix = |o: &mut Op| if matches!(o, Op::CompRel { .. } | Op::PadTo { .. }) || is_bad_op(o) { *o = Op::Nop };
    p.pre.iter_mut().for_each(fix);
    p.post.iter_mut().for_each(fix);
    for t in p.threads.iter_mut() { t.iter_mut().for_each(fix); }
}
fn t_of(start: SystemTime, ns: u64) -> SystemTime { start + Duration::from_nanos(ns) }
fn light_ok(l: &analyzeme::LightweightEvent, i: usize, e: &Ev, start: SystemTime) -> Check {
    let bad = |what: &str| fail("views-disagree", format!("event {i}: {what} of the light-weight view of {} is wrong", ev_text(e)));
    if l.event_index != i { return fail("iteration-order", format!("event {} comes where event {i} should come", l.event_index)); }
    if l.thread_id != e.tid { return bad("the thread id"); }
    if conv_payload(&l.payload, start) != e.pay { return bad("the payload"); }
    let (s, t, d, n) = match e.pay {
        Pay::Interval(a, b) => (Some(a), Some(b), Some(b - a), None),
        Pay::Instant(a) => (Some(a), Some(a), None, None),
        Pay::Integer(v) => (None, None, None, Some(v)),
    };
    if l.start() != s.map(|x| t_of(start, x)) { return bad("start()"); }
    if l.end() != t.map(|x| t_of(start, x)) { return bad("end()"); }
    if l.duration() != d.map(Duration::from_nanos) { return bad("duration()"); }
    if l.payload.integer() != n { return bad("integer()"); }
    if l.timestamp().map(|x| (x.start(), x.end())) != s.map(|x| (t_of(start, x), t_of(start, t.unwrap()))) { return bad("timestamp()"); }
    let k = (l.payload.is_interval(), l.payload.is_instant(), l.payload.is_integer());
    if k != (matches!(e.pay, Pay::Interval(..)), matches!(e.pay, Pay::Instant(_)), n.is_some()) { return bad("the payload class"); }
    Ok(())
}
fn full_ok(f: &analyzeme::Event<'_>, i: usize, e: &Ev, start: SystemTime) -> Check {
    let g = conv_event(f, start);
    ensure!(g == *e, "views-disagree", "event {i} reads as {} instead of {}", ev_text(&g), ev_text(e));
    let d = match e.pay { Pay::Interval(a, b) => Some(Duration::from_nanos(b - a)), _ => None };
    ensure!(f.duration() == d && f.integer() == match e.pay { Pay::Integer(v) => Some(v), _ => None }, "views-disagree", "event {i}: duration() or integer() of {} is wrong", ev_text(e));
    Ok(())
}
/// Any mixture of steps on a double-ended iterator agrees with a plain list.
fn walk<T>(r: &mut Rng, n: usize, mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, ok: &mut dyn FnMut(&T, usize) -> Check) -> Check {
    let mut left: VecDeque<usize> = (0..n).collect();
    let style = r.below(6);
    let steps = match r.below(3) { 0 => n as u64 + 5, 1 => r.below(n as u64 + 3), _ => r.below(12) };
    let mut log = String::new();
    let mut got = |name: &str, x: Option<T>, want: Option<usize>, log: &str| -> Check {
        match (x, want) {
            (None, None) => Ok(()),
            (Some(v), Some(i)) => ok(&v, i).map_err(|mut e| { e.msg = format!("{} (after {log}{name})", e.msg); e }),
            (None, Some(i)) => fail("iteration-short", format!("{name} after {log} gave nothing, event {i} of {n} is still to come")),
            (Some(_), None) => fail("iteration-long", format!("{name} after {log} gave an event although all {n} had been visited")),
        }
    };
    for _ in 0..steps {
        let k = r.below(4) as usize;
        let c = match style { 0 => 0, 1 => 1, 2 => r.below(2), 3 => *r.pick(&[0, 0, 1, 4, 5]), _ => r.below(6) };
        match c {
            0 => { let w = left.pop_front(); got("next", it.next(), w, &log)?; log.push('n'); }
            1 => { let w = left.pop_back(); got("next_back", it.next_back(), w, &log)?; log.push('b'); }
            2 => { for _ in 0..k { left.pop_front(); } let w = left.pop_front(); got("nth", it.nth(k), w, &log)?; log.push('N'); }
            3 => { for _ in 0..k { left.pop_back(); } let w = left.pop_back(); got("nth_back", it.nth_back(k), w, &log)?; log.push('B'); }
            4 => ensure!(it.len() == left.len(), "remaining-length", "len() after {log} is {}, {} of {n} events are left", it.len(), left.len()),
            _ => ensure!(it.size_hint() == (left.len(), Some(left.len())), "remaining-length", "size_hint() after {log} is {:?}, {} of {n} events are left", it.size_hint(), left.len()),
        }
        if log.len() > 60 { log = "…".into(); }
    }
    ensure!(it.len() == left.len(), "remaining-length", "len() after {log} is {}, {} of {n} events are left", it.len(), left.len());
    match r.below(6) {
        0 => { let v: Vec<T> = it.collect(); ensure!(v.len() == left.len(), "iteration-short", "{} events collected after {log} instead of {}", v.len(), left.len()); for (x, i) in v.into_iter().zip(left) { got("collect", Some(x), Some(i), &log)?; } }
        1 => { let v: Vec<T> = it.rev().collect(); ensure!(v.len() == left.len(), "iteration-short", "{} events collected backwards after {log} instead of {}", v.len(), left.len()); for (x, i) in v.into_iter().zip(left.into_iter().rev()) { got("rev", Some(x), Some(i), &log)?; } }
        2 => { let c = it.count(); ensure!(c == left.len(), "iteration-short", "count() after {log} is {c} instead of {}", left.len()); }
        3 => { let w = left.pop_back(); got("last", it.last(), w, &log)?; }
        4 => { let v = it.fold(vec![], |mut v, x| { v.push(x); v }); ensure!(v.len() == left.len(), "iteration-short", "{} events folded after {log} instead of {}", v.len(), left.len()); for (x, i) in v.into_iter().zip(left) { got("fold", Some(x), Some(i), &log)?; } }
        _ => {
            while let Some(w) = left.pop_front() { got("next", it.next(), Some(w), &log)?; }
            for _ in 0..3 { got("next", it.next(), None, &log)?; got("next_back", it.next_back(), None, &log)?; }
        }
    }
    Ok(())
}
/// panics while reading are violations here
pub fn no_panic(what: &str, f: impl FnOnce() -> Check) -> Check {
    match guarded(|| Ok(f())) { Ok(r) => r, Err(e) => fail("reading-panicked", format!("{what}: {}", e.text())) }
}
pub fn open(d: &[u8]) -> Result<analyzeme::ProfilingData, V> {
    match guarded(|| analyzeme::ProfilingData::from_paged_buffer(d.to_vec(), None).map_err(|e| ReadErr::Err(e.to_string()))) { Ok(x) => Ok(x), Err(e) => fail("unreadable", format!("the finished trace cannot be read: {}", e.text())) }
}
pub fn c10(cx: &mut Cx, p: &Plan) -> Check {
    let v8 = p.session == Session::ProfilerV8;
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let d = trace(p, &o)?;
    if v8 && finished_streams(&d).map_or(false, |s| v8_reader_trips(&s)) { *cx.stat("skipped: misread by the released v8 reader") += 1; return Ok(()); }
    let evs = ref_events(&d, v8)?;
    // control characters in a label are outside the grammar; such plans are not generated
    let x = open(&d)?;
    let start = x.metadata().start_time;
    let n = evs.len();
    ensure!(x.num_events() == n, "event-count", "num_events() is {} for {n} events", x.num_events());
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 10);
    let rounds = if n > 2000 { 3 } else { 8 };
    for _ in 0..rounds {
        cx.checks += 2;
        no_panic("iter()", || walk(&mut r, n, x.iter(), &mut |l, i| light_ok(l, i, &evs[i], start)))?;
        no_panic("iter_full()", || walk(&mut r, n, x.iter_full(), &mut |f, i| full_ok(f, i, &evs[i], start)))?;
    }
    no_panic("to_full_event()", || {
        for _ in 0..40.min(n) {
            let i = r.idx(n);
            let l = analyzeme::LightweightEvent { event_index: i, thread_id: 0, payload: analyzeme::EventPayload::Integer(0) };
            full_ok(&x.to_full_event(&l), i, &evs[i], start)?;
        }
        // containment of the two views
        let ls: Vec<_> = x.iter().collect();
        for _ in 0..60.min(n * n) {
            let (i, j) = (r.idx(n), r.idx(n));
            let want = match (&evs[i].pay, &evs[j].pay) { (Pay::Interval(a, b), Pay::Interval(c, e)) => a <= c && e <= b, (Pay::Interval(a, b), Pay::Instant(c)) => a <= c && c <= b, _ => false };
            ensure!(ls[i].contains(&ls[j]) == want && x.to_full_event(&ls[i]).contains(&x.to_full_event(&ls[j])) == want, "views-disagree", "whether event {i} {} contains event {j} {}", ev_text(&evs[i]), ev_text(&evs[j]));
        }
        Ok(())
    })?;
    // loading by name in a simulated process, undisturbed and with failing reads
    let want = digest_of(&collect(&x));
    let mut q = Plan::new(&p.prop, p.seed);
    q.session = Session::ReadOnly;
    q.files = vec![("/sim/d.r/trace.mm_profdata".into(), d.clone()), ("/sim/d.r/other.mm_profdata".into(), b"MMPD\x07\0\0\0".to_vec())];
    q.dirs = vec!["/sim/d.r".into()];
    // other files and directories with similar names
    for n in ["trace", "trace.x", "trace.events", "trace.string_data", "trace.mm_profdata.mm_profdata", "trace.json", "mm_profdata"] {
        if r.chance(1, 5) { q.files.push((format!("/sim/d.r/{n}"), if r.chance(1, 3) { d[..d.len() / 2].to_vec() } else { b"MMPD\x09\0\0\0".to_vec() })); }
        else if r.chance(1, 12) { q.dirs.push(format!("/sim/d.r/{n}")); }
    }
    q.sim = SimParams { seed: r.next(), mean: 1000, ..q.sim.clone() };
    let fault = r.below(6);
    let mut expect = want.clone();
    let mut path = *r.pick(&["/sim/d.r/trace", "/sim/d.r/trace.mm_profdata", "/sim/d.r/trace.events", "/sim/d.r/trace.x"]);
    match fault {
        0 | 1 => {}
        2 => { path = *r.pick(&["/sim/d.r/nothere", "/sim/trace", "/sim/nodir/trace", "/sim/d.r/trace.mm_profdata/x"]); expect = "ERR".into(); }
        3 => { let idx = r.below(3); q.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_READ, idx, kind: F_ERR, arg: *r.pick(&[5, 116, 21]) }); }
        4 => { q.sim.faults.push(FaultSpec { task: u32::MAX, cls: *r.pick(&[IO_OPEN, IO_STAT]), idx: r.below(3), kind: F_ERR, arg: *r.pick(&[13, 24, 2, 5, 40]) }); }
        _ => { for i in 0..r.below(40) { q.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_READ, idx: i, kind: *r.pick(&[F_EINTR, F_SHORT_READ, F_SHORT_READ]), arg: *r.pick(&[1, 2, 7, 4096]) }); }
               if r.chance(1, 2) { let idx = r.below(12); q.sim.faults.push(FaultSpec { task: u32::MAX, cls: IO_READ, idx, kind: F_ERR, arg: 5 }); } }
    }
    q.read = Some(path.into());
    let o2 = cx.run(&q);
    let hard: Vec<_> = o2.fired.iter().filter(|f| f.kind == F_ERR).collect();
    let got = o2.blobs.iter().find(|b| b.0 == BLOB_READ).map(|b| String::from_utf8_lossy(&b.2).to_string()).unwrap_or_else(|| format!("no answer ({:?})", o2.exit));
    cx.checks += 1;
    if hard.iter().any(|f| f.cls != IO_STAT) { expect = "ERR".into(); *cx.stat("loads with a failing call") += 1; }
    else if !hard.is_empty() { if got != "ERR" { ensure!(got == expect, "partial-data", "a load during which looking up the file failed gave {got} instead of an error or {expect}"); } return Ok(()); }
    ensure!(got == expect, if expect == "ERR" { "no-error" } else { "load-differs" }, "loading {path} with the faults {:?} gave {got} instead of {expect}", o2.fired);
    Ok(())
}

// ---- C11 -----------------------------------------------------------------------------------------
pub fn gen_c11(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 4);
    let mut p = if r.chance(1, 2) { nested_plan(prop, seed, r, &Nest { v8, ops: (0, 12), threads: (1, 2), fill: false, ..Default::default() }) }
    else {
        let o = Opts { v8, ops: (0, 15), threads: (1, 3), fill: r.chance(1, 6), max_str: 600, ..Default::default() };
        let mut p = profiler_plan(prop, seed, r, &o);
        sched(r, &mut p);
        p
    };
    if v8 { plain_v8(&mut p); }
    p.extra = vec![r.next()];
    p
}
fn load(d: &[u8]) -> Result<usize, ReadErr> {
    guarded(|| { let x = analyzeme::ProfilingData::from_paged_buffer(d.to_vec(), None).map_err(|e| ReadErr::Err(e.to_string()))?; let _ = x.metadata(); Ok(x.num_events()) })
}
pub fn c11(cx: &mut Cx, p: &Plan) -> Check {
    let v8 = p.session == Session::ProfilerV8;
    let ver = if v8 { 8 } else { 9 };
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let d = trace(p, &o)?;
    let st = match finished_streams(&d) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    let evs = ref_events(&d, v8)?;
    match load(&d) { Ok(n) => ensure!(n == evs.len(), "event-count", "{n} events instead of {}", evs.len()), Err(e) => return fail("refused", format!("an undamaged trace is refused: {}", e.text())) }
    let big = d.len() > 60_000;
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 11);
    let mut n = 0u64;
    let mut refused = |what: &str, img: &[u8], panic_ok: bool| -> Check {
        n += 1;
        match load(img) {
            Err(ReadErr::Err(_)) => Ok(()),
            Err(ReadErr::Panic(_)) if panic_ok => Ok(()),
            Err(e) => fail("refused-by-panic", format!("a version {ver} trace with {what} makes the reader panic: {}", e.text())),
            Ok(k) => fail("accepted", format!("a version {ver} trace with {what} loads with {k} events")),
        }
    };
    // file header: every bit
    for bit in 0..64 {
        if big && r.chance(7, 8) { continue; }
        let mut x = d.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        // 8 and 9 differ in one bit: then the streams are of the other version
        refused(&format!("bit {bit} of the file header flipped"), &x, false)?;
    }
    let magic = [b"MMES", b"MMSD", b"MMSI"];
    for s in 0..3 {
        for bit in 0..64 {
            if big && r.chance(7, 8) { continue; }
            let mut t = st.clone();
            t[s][bit / 8] ^= 1 << (bit % 8);
            refused(&format!("bit {bit} of the header of stream {s} flipped"), &build_file(ver, &t, MAX_PAGE), false)?;
        }
        // no such stream at all
        let mut t = st.clone();
        t[s].clear();
        refused(&format!("no stream {s}"), &build_file(ver, &t, MAX_PAGE), v8)?;
        // shorter than its header
        let mut t = st.clone();
        t[s].truncate(1 + r.idx(7));
        refused(&format!("only {} bytes in stream {s}", t[s].len()), &build_file(ver, &t, MAX_PAGE), false)?;
        // another stream's magic
        let mut t = st.clone();
        t[s][..4].copy_from_slice(magic[(s + 1 + r.idx(2)) % 3]);
        refused(&format!("the magic of another stream in stream {s}"), &build_file(ver, &t, MAX_PAGE), false)?;
        let mut t = st.clone();
        t[s][..4].copy_from_slice(b"MMPD");
        refused(&format!("the file magic in stream {s}"), &build_file(ver, &t, MAX_PAGE), false)?;
    }
    // consistently another version
    for v in [0u32, 1, 5, 6, 7, 10, 11, 255, 256, 265, 0x0900_0000, 9 << 16, u32::MAX, r.next() as u32 | 0x10000] {
        let mut t = st.clone();
        for s in t.iter_mut() { s[4..8].copy_from_slice(&v.to_le_bytes()); }
        refused(&format!("version {v} throughout"), &build_file(v, &t, MAX_PAGE), false)?;
        refused(&format!("version {v} in the file header only"), &build_file(v, &st, MAX_PAGE), false)?;
    }
    for k in 0..8 { refused(&format!("only the first {k} bytes"), &d[..k], false)?; }
    refused("nothing but the file header", &d[..8], v8)?;
    // metadata
    let w = if v8 { 8 } else { 16 };
    let le = |x: u64| if v8 { (x as u32).to_le_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
    let mut t = st.clone();
    let at = (8..t[2].len()).step_by(w).filter(|i| t[2][*i..*i + w / 2] == le(METADATA_ID)[..]).collect::<Vec<_>>();
    ensure!(at.len() == 1, "metadata-entries", "{} index entries for the session metadata", at.len());
    t[2].drain(at[0]..at[0] + w);
    refused("no index entry for the metadata", &build_file(ver, &t, MAX_PAGE), false)?;
    let (a, e) = match meta_record(&st, v8) { Some(x) => x, None => return fail("metadata-entries", "no metadata record".into()) };
    let mut damage = |what: &str, f: &dyn Fn(&mut [u8])| -> Check { let mut t = st.clone(); f(&mut t[1][a..e]); refused(what, &build_file(ver, &t, MAX_PAGE), false) };
    damage("its metadata cut short", &|m| { let n = m.len(); m[n - 1] = b' '; })?;
    damage("its metadata not opened", &|m| m[0] = b'x')?;
    damage("its metadata blank", &|m| m.fill(b' '))?;
    damage("its metadata empty", &|m| { m.fill(b' '); m[0] = b'{'; m[1] = b'}'; })?;
    for key in ["start_time", "process_id", "cmd"] {
        damage(&format!("no {key} in its metadata"), &|m| { let k = m.windows(key.len()).position(|x| x == key.as_bytes()).unwrap(); m[k] = b'X'; })?;
    }
    damage("a start time that is no number", &|m| { let k = m.iter().position(|b| *b == b':').unwrap(); m[k + 2] = b'-'; if m[k + 3] == b',' { m[k + 2] = b't'; } })?;
    cx.checks += n;
    // cut short
    let full: Vec<Ev> = evs;
    let mut cuts: Vec<usize> = (0..if big { 6 } else { 30 }).map(|_| r.idx(d.len() + 1)).collect();
    let pg = parse_pages(&d, true);
    for (_, o, l) in &pg.pages { for c in [*o, o + l, o + l / 2, o - 5, o - 1] { if !big || r.chance(1, 3) { cuts.push(c); } } }
    for c in cuts {
        cx.checks += 1;
        if let Ok(t) = read_tolerant(&d[..c]) {
            *cx.stat("decodable cut files") += 1;
            ensure!(t.events.len() <= full.len(), "event-invented", "the first {c} of {} bytes yield {} events, only {} were recorded", d.len(), t.events.len(), full.len());
            for (i, e) in t.events.iter().enumerate() {
                if let Some(e) = e { ensure!(v8 || fuzzy_ev(e, &full[i]), "event-altered", "event {i} of the first {c} of {} bytes reads as {} instead of {}", d.len(), ev_text(e), ev_text(&full[i])); }
            }
        }
    }
    Ok(())
}

// ---- the analyses --------------------------------------------------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row { pub time: i128, pub slf: i128, pub misses: u64, pub hits: u64, pub inv: u64, pub blocked: i128, pub load: i128, pub hash: i128 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sum { pub rows: BTreeMap<String, Row>, pub arts: BTreeMap<String, u64>, pub total: u128 }
/// One interval of the session with its place in the call tree.
#[derive(Clone, Debug)]
pub struct Node { pub ev: usize, pub parent: Option<usize> }
/// The call trees as the plan executed them; `ev` indexes `evs`.
pub fn call_trees(p: &Plan, o: &crate::runner::Outcome, evs: &[Ev]) -> Result<Vec<Node>, V> {
    let led = Ledger::new(p, o);
    let exp = led.expected(false);
    let map = match_events(evs, &exp, zero_bounds(o), true)?;
    let mut at: HashMap<u32, usize> = HashMap::new();
    for (i, x) in map.iter().enumerate() { at.insert(exp[*x].op, i); }
    let mut nodes: Vec<Node> = vec![];
    let lists = (0..p.threads.len()).map(|t| (t + 1, &p.threads[t])).chain([(T_PRE, &p.pre), (T_POST, &p.post)]);
    for (t, ops) in lists {
        let mut open: Vec<(u32, Vec<usize>)> = vec![];
        for (i, op) in ops.iter().enumerate() {
            let id = opid(t, i);
            if o.rec(id).status != S_DONE { continue; }
            match op {
                Op::Begin { .. } => open.push((id, vec![])),
                Op::End { begin, .. } => {
                    let pos = match open.iter().position(|x| x.0 == *begin) { Some(x) => x, None => return fail("harness", "an interval ended outside of its thread".into()) };
                    let me = nodes.len();
                    nodes.push(Node { ev: at[&id], parent: None });
                    let kids: Vec<usize> = open.drain(pos..).flat_map(|x| x.1).collect();
                    for k in kids { nodes[k].parent = Some(me); }
                    if let Some(top) = open.last_mut() { top.1.push(me); }
                }
                Op::Unwind { .. } => return fail("harness", "not a nested plan".into()),
                _ => {}
            }
        }
    }
    Ok(nodes)
}
fn iv(e: &Ev) -> (i128, i128) { match e.pay { Pay::Interval(a, b) => (a as i128, b as i128), _ => (0, 0) } }
/// start of the first to end of the last interval of each thread
pub fn spans(evs: &[Ev]) -> BTreeMap<u32, (i128, i128)> {
    let mut m: BTreeMap<u32, (i128, i128)> = BTreeMap::new();
    for e in evs { if let Pay::Interval(a, b) = e.pay { let x = m.entry(e.tid).or_insert((a as i128, b as i128)); x.0 = x.0.min(a as i128); x.1 = x.1.max(b as i128); } }
    m
}
pub fn model_summary(evs: &[Ev], nodes: &[Node]) -> Sum {
    let mut s = Sum::default();
    for n in nodes {
        let e = &evs[n.ev];
        let (a, b) = iv(e);
        let d = b - a;
        let r = s.rows.entry(e.label.clone()).or_default();
        r.slf += d;
        match &e.kind[..] {
            "Query" | "GenericActivity" => { r.time += d; r.misses += 1; r.inv += 1; }
            "QueryBlocked" => { r.time += d; r.blocked += d; r.inv += 1; }
            "IncrementalLoadResult" => { r.time += d; r.load += d; }
            "IncrementalResultHashing" => r.hash += d,
            _ => { r.time += d; r.inv += 1; }
        }
        if let Some(q) = n.parent {
            let q = &evs[nodes[q].ev];
            let r = s.rows.entry(q.label.clone()).or_default();
            r.slf -= d;
            match &q.kind[..] { "IncrementalLoadResult" => r.load -= d, "IncrementalResultHashing" => r.hash -= d, _ => {} }
        }
    }
    for e in evs {
        match e.pay {
            Pay::Instant(_) if e.kind == "QueryCacheHit" => { let r = s.rows.entry(e.label.clone()).or_default(); r.hits += 1; r.inv += 1; }
            Pay::Integer(v) if e.kind == "ArtifactSize" => *s.arts.entry(e.label.clone()).or_default() += v,
            _ => {}
        }
    }
    s.total = spans(evs).values().map(|x| (x.1 - x.0) as u128).sum();
    s
}
pub fn lib_summary(a: &analyzeme::AnalysisResults) -> Result<Sum, V> {
    let mut s = Sum { total: a.total_time.as_nanos(), ..Default::default() };
    for q in &a.query_data {
        let n = |d: Duration| d.as_nanos() as i128;
        let r = Row { time: n(q.time), slf: n(q.self_time), misses: q.number_of_cache_misses as u64, hits: q.number_of_cache_hits as u64, inv: q.invocation_count as u64, blocked: n(q.blocked_time), load: n(q.incremental_load_time), hash: n(q.incremental_hashing_time) };
        ensure!(s.rows.insert(q.label.clone(), r).is_none(), "duplicate-label", "two rows for {:?}", short(&q.label));
    }
    for x in &a.artifact_sizes { ensure!(s.arts.insert(x.label.clone(), x.value).is_none(), "duplicate-label", "two artifact sizes for {:?}", short(&x.label)); }
    Ok(s)
}
pub fn same_sum(got: &Sum, want: &Sum, what: &str) -> Check {
    for (l, w) in &want.rows {
        match got.rows.get(l) {
            None => return fail("row-missing", format!("{what} has no row for {:?}", short(l))),
            Some(g) => ensure!(g == w, "row-wrong", "{what}: the row for {:?} is {g:?} instead of {w:?}", short(l)),
        }
    }
    for l in got.rows.keys() { ensure!(want.rows.contains_key(l), "row-invented", "{what} has a row for {:?}, which was never recorded", short(l)); }
    ensure!(got.arts == want.arts, "artifact-sizes", "{what}: artifact sizes {:?} instead of {:?}", got.arts, want.arts);
    ensure!(got.total == want.total, "total-time", "{what}: total time {} ns instead of {} ns", got.total, want.total);
    Ok(())
}
pub fn model_stacks(evs: &[Ev], nodes: &[Node]) -> BTreeMap<String, u64> {
    let mut slf: Vec<i128> = nodes.iter().map(|n| { let (a, b) = iv(&evs[n.ev]); b - a }).collect();
    for n in nodes { if let Some(q) = n.parent { let (a, b) = iv(&evs[n.ev]); slf[q] -= b - a; } }
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    let mut roots: BTreeMap<u32, i128> = BTreeMap::new();
    for (i, n) in nodes.iter().enumerate() {
        let mut path = vec![&evs[n.ev].label[..]];
        let mut q = n.parent;
        while let Some(k) = q { path.push(&evs[nodes[k].ev].label); q = nodes[k].parent; }
        path.push("rustc");
        path.reverse();
        *m.entry(path.join(";")).or_default() += slf[i] as u64;
        if n.parent.is_none() { let (a, b) = iv(&evs[n.ev]); *roots.entry(evs[n.ev].tid).or_default() += b - a; }
    }
    let gaps: i128 = spans(evs).iter().map(|(t, x)| x.1 - x.0 - roots.get(t).copied().unwrap_or(0)).sum();
    *m.entry("rustc".into()).or_default() += gaps as u64;
    m
}
pub fn same_stacks(got: &BTreeMap<String, u64>, want: &BTreeMap<String, u64>, what: &str) -> Check {
    for (k, w) in want { if *w > 0 { let g = got.get(k); ensure!(g == Some(w), "stack-wrong", "{what}: {w} ns were spent in {:?} but it says {g:?}", short(k)); } }
    for (k, g) in got { if *g > 0 { ensure!(want.contains_key(k), "stack-invented", "{what}: {g} ns in {:?}, a call path that never occurred", short(k)); } }
    ensure!(got.contains_key("rustc"), "stack-wrong", "{what}: the root frame is missing");
    Ok(())
}
pub fn gen_nested(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let o = Nest { newlines: r.chance(1, 3), threads: *r.pick(&[(1, 1), (1, 3), (2, 6)]), ops: *r.pick(&[(1, 8), (4, 40), (30, 120)]), ..Default::default() };
    let mut p = nested_plan(prop, seed, r, &o);
    p.extra = vec![r.next()];
    // the tool as well
    if r.chance(1, 3) { p.extra.push(1); }
    p
}
pub fn c13(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let d = trace(p, &o)?;
    let evs = ref_events(&d, false)?;
    let nodes = call_trees(p, &o, &evs)?;
    let want = model_summary(&evs, &nodes);
    cx.checks += want.rows.len() as u64 + 1;
    let x = open(&d)?;
    no_panic("perform_analysis()", || same_sum(&lib_summary(&x.perform_analysis())?, &want, "the summary"))?;
    if p.extra.len() > 1 { return crate::p_tools::c13_tool(cx, p, &d, &want); }
    Ok(())
}
pub fn c14(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let d = trace(p, &o)?;
    let evs = ref_events(&d, false)?;
    let nodes = call_trees(p, &o, &evs)?;
    let want = model_stacks(&evs, &nodes);
    cx.checks += want.len() as u64;
    let x = open(&d)?;
    no_panic("collapse_stacks()", || {
        let got: BTreeMap<String, u64> = analyzeme::collapse_stacks(&x).into_iter().collect();
        same_stacks(&got, &want, "the stack profile")?;
        let sum: u128 = got.values().map(|v| *v as u128).sum();
        let span: u128 = spans(&evs).values().map(|x| (x.1 - x.0) as u128).sum();
        ensure!(sum == span, "time-lost", "all stacks together have {sum} ns, the threads ran for {span} ns");
        Ok(())
    })?;
    if p.extra.len() > 1 { return crate::p_tools::c14_tool(cx, p, &d, &want); }
    Ok(())
}

// ---- C12 -----------------------------------------------------------------------------------------
pub fn gen_c12(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = if r.chance(1, 2) {
        let ops = *r.pick(&[(1, 8), (4, 40)]);
        nested_plan(prop, seed, r, &Nest { v8: true, newlines: true, ops, ..Default::default() })
    }
    else {
        let o = Opts { v8: true, virt: r.chance(1, 2), ops: *r.pick(&[(1, 8), (3, 40)]), threads: *r.pick(&[(1, 2), (2, 6)]), real_tids: r.chance(1, 2), ..Default::default() };
        let mut p = profiler_plan(prop, seed, r, &o);
        clocks(r, &mut p);
        sched(r, &mut p);
        p
    };
    plain_v8(&mut p);
    p.argv = (0..r.range(1, 4)).map(|i| r.pick(&["rustc", "--crate-name", "src/lib.rs", "-Cx=y", "a b"]).bytes().chain(if i > 2 { vec![b'0'] } else { vec![] }).collect()).collect();
    p
}
pub fn c12(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    let d = trace(p, &o)?;
    let st = match finished_streams(&d) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    if v8_reader_trips(&st) { *cx.stat("skipped: misread by the released v8 reader") += 1; return Ok(()); }
    let nested = matches!(p.pre.first(), Some(Op::Text { .. }));
    no_panic("reading a version 8 trace", || {
        let x = open(&d)?;
        let r = collect(&x);
        let led = Ledger::new(p, &o);
        match_events(&r.events, &led.expected(false), zero_bounds(&o), true)?;
        let evs = ref_events(&d, true)?;
        for (i, (a, b)) in r.events.iter().zip(&evs).enumerate() { ensure!(a == b, "event-altered", "event {i} of the version 8 trace reads as {} instead of {}", ev_text(a), ev_text(b)); }
        ensure!(r.pid == p.sim.pid, "process-id", "process id {} reported instead of {}", r.pid, p.sim.pid);
        start_ok(&o, r.start)?;
        let mut cmd = String::new();
        for a in &p.argv { cmd.push_str(&String::from_utf8_lossy(a)); cmd.push(' '); }
        // (the release escapes the arguments in a way JSON lacks: anything but plain ASCII makes its traces unreadable)
        ensure!(r.cmd.trim_end() == cmd.trim_end(), "command-line", "command line {:?} reported instead of {:?}", short(&r.cmd), short(&cmd));
        cx.checks += evs.len() as u64;
        if !nested { return Ok(()); }
        // the same session in the current format
        let (a, e) = meta_record(&st, true).unwrap();
        let y = open(&encode_v9(&evs, std::str::from_utf8(&st[1][a..e]).unwrap()))?;
        let z = collect(&y);
        ensure!(z.events == r.events && (z.start, z.pid, &z.cmd) == (r.start, r.pid, &r.cmd), "formats-differ", "the events of the session differ between the formats");
        let s1: BTreeMap<String, u64> = analyzeme::collapse_stacks(&x).into_iter().collect();
        let s2: BTreeMap<String, u64> = analyzeme::collapse_stacks(&y).into_iter().collect();
        ensure!(s1 == s2, "formats-differ", "the stack profile differs between the formats");
        let nodes = call_trees(p, &o, &evs)?;
        same_stacks(&s1, &model_stacks(&evs, &nodes), "the stack profile of the version 8 trace")?;
        let a1 = lib_summary(&x.perform_analysis())?;
        same_sum(&a1, &lib_summary(&y.perform_analysis())?, "the summary of the version 8 trace")?;
        same_sum(&a1, &model_summary(&evs, &nodes), "the summary of the version 8 trace")
    })
}
pub fn unix(ns: u64) -> SystemTime { UNIX_EPOCH + Duration::from_nanos(ns) }
