//! Checks over the recorded history of one simulated run.
use crate::ensure;
use crate::refmodel::*;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::HashMap;

// ---- raw streams ---------------------------------------------------------------------------------
/// The content of one stream equals the ledger of the writes that completed on it.
pub fn sink_ledger(plan: &Plan, out: &Outcome, s: u8, stream: &[u8]) -> Check { sink_ledger_st(plan, out, s, stream, &[]) }
/// `pieces`: where a sparse stream may have bytes other than zero
pub fn sink_ledger_st(plan: &Plan, out: &Outcome, s: u8, stream: &[u8], pieces: &[(usize, usize)]) -> Check {
    let mut addressed: Vec<(u64, u64, u32)> = vec![]; // addr, len, op
    let mut free: HashMap<u8, Vec<(u32, u32, u32)>> = HashMap::new(); // thread byte -> (op, chunk, len)
    let mut total = 0u64;
    for (id, op) in plan.all_ops() {
        let r = out.rec(id);
        match op {
            Op::WA { s: k, len } | Op::WB { s: k, len } if *k == s => {
                if r.status == S_PANIC { return fail("write-panicked", format!("write op {}:{} of {} bytes panicked", op_thread(id), op_index(id), len)); }
                if r.status != S_DONE { continue; }
                addressed.push((r.r0, *len as u64, id));
                total += *len as u64;
            }
            Op::HugeW { s: k, len, .. } if *k == s => {
                if r.status == S_PANIC { return fail("write-panicked", format!("write op {}:{} of {} bytes panicked", op_thread(id), op_index(id), len)); }
                if r.status != S_DONE { continue; }
                addressed.push((r.r0, *len, id));
                total += *len;
            }
            Op::SW { s: k, lens, .. } if *k == s => {
                if r.status == S_PANIC || r.status == S_ERR { return fail("write-panicked", format!("standard writer op {}:{} failed", op_thread(id), op_index(id))); }
                if r.status != S_DONE { continue; }
                for (c, l) in lens.iter().enumerate() {
                    total += *l as u64;
                    if *l > 0 { free.entry(0x40 + op_thread(id) as u8).or_default().push((id, c as u32, *l)); }
                }
            }
            Op::SF { s: k } if *k == s => if r.status == S_PANIC || r.status == S_ERR { return fail("write-panicked", format!("flush op {}:{} failed", op_thread(id), op_index(id))); },
            _ => {}
        }
    }
    // content at the returned addresses
    for (a, len, id) in &addressed {
        let (a, n) = (*a as usize, *len as usize);
        ensure!(a.checked_add(n).map_or(false, |e| e <= stream.len()), "address-out-of-range", "op {}:{} got address {} for {} bytes but stream {} has {} bytes (writes sum up to {})", op_thread(*id), op_index(*id), a, n, s, stream.len(), total);
        if let Some(Op::HugeW { .. }) = plan.op(*id) {
            for (x, l) in pieces {
                let (x, e) = ((*x).max(a), (x + l).min(a + n));
                if x < e { for (i, b) in stream[x..e].iter().enumerate() { let want = if x + i == a + n - 1 { 0x40 + op_thread(*id) as u8 } else { 0 }; ensure!(*b == want, "content-mismatch", "stream {s}: byte {} of the {n} bytes at address {a} returned to op {}:{} is {b} instead of {want}", x + i - a, op_thread(*id), op_index(*id)); } }
            }
            ensure!(n == 0 || stream[a + n - 1] == 0x40 + op_thread(*id) as u8, "content-mismatch", "stream {s}: the last of {n} bytes at address {a} returned to op {}:{} is {}", op_thread(*id), op_index(*id), stream[a + n - 1]);
            continue;
        }
        let mut want = vec![0u8; n];
        fill_bytes(*id, 0, &mut want);
        if stream[a..a + n] != want[..] {
            let at = stream[a..a + n].iter().zip(&want).position(|(x, y)| x != y).unwrap();
            return fail("content-mismatch", format!("stream {s}: the {n} bytes at address {a} returned to op {}:{} differ from what was written, first at byte {at}", op_thread(*id), op_index(*id)));
        }
    }
    // tiling
    let mut segs: Vec<(u64, u64)> = addressed.iter().filter(|x| x.1 > 0).map(|x| (x.0, x.0 + x.1)).collect();
    segs.sort();
    let mut pos = 0u64;
    let mut next: HashMap<u8, usize> = HashMap::new();
    let fill_gap = |from: u64, to: u64, next: &mut HashMap<u8, usize>| -> Check {
        let mut p = from;
        while p < to {
            let b = stream[p as usize];
            let list = free.get(&b).map(|v| &v[..]).unwrap_or(&[]);
            let k = next.entry(b).or_insert(0);
            if *k >= list.len() { return fail("stream-gap", format!("stream {s}: the bytes at {p}..{to} belong to no write")); }
            let (id, c, len) = list[*k];
            *k += 1;
            let n = len as usize;
            let mut want = vec![0u8; n];
            fill_bytes(id, c, &mut want);
            if p + n as u64 > to || stream[p as usize..p as usize + n] != want[..] {
                return fail("content-mismatch", format!("stream {s}: chunk {c} of standard writer op {}:{} ({n} bytes) is not stored contiguously at {p}", op_thread(id), op_index(id)));
            }
            p += n as u64;
        }
        Ok(())
    };
    for (a, e) in segs {
        ensure!(a >= pos, "overlap", "stream {s}: writes overlap at {a}..{pos}");
        fill_gap(pos, a, &mut next)?;
        pos = e;
    }
    fill_gap(pos, stream.len() as u64, &mut next)?;
    for (b, l) in &free {
        let k = next.get(b).copied().unwrap_or(0);
        ensure!(k == l.len(), "write-lost", "stream {s}: {} standard-writer chunks of thread {} are missing", l.len() - k, b - 0x40);
    }
    ensure!(stream.len() as u64 == total, "stream-length", "stream {s} has {} bytes, the writes sum up to {}", stream.len(), total);
    Ok(())
}

/// Streams of a raw-sink session once it is over.
pub fn sink_streams(plan: &Plan, out: &Outcome) -> Result<Vec<Option<Vec<u8>>>, V> {
    let mut v: Vec<Option<Vec<u8>>> = vec![None; plan.sinks as usize];
    if plan.session == Session::SinksMem {
        for (k, key, data) in &out.blobs { if *k == BLOB_SINK { v[*key as usize] = Some(data.clone()); } }
    } else {
        let d = out.file(&plan.path).unwrap_or_default();
        let p = parse_pages(&d, false);
        if let Some(b) = p.bad { return fail("bad-page", b); }
        ensure!(p.tail == 0, "bad-page", "{} bytes of an incomplete page at the end", p.tail);
        let s = streams(&d, &p);
        for (i, x) in s.into_iter().enumerate() {
            if i < v.len() { v[i] = Some(x); } else { ensure!(x.is_empty(), "foreign-tag", "pages of stream {i} which nobody writes"); }
        }
    }
    Ok(v)
}
pub fn sinks_ok(plan: &Plan, out: &Outcome) -> Check {
    for (s, x) in sink_streams(plan, out)?.into_iter().enumerate() { if let Some(x) = x { sink_ledger(plan, out, s as u8, &x)?; } }
    Ok(())
}

// ---- profiler sessions ---------------------------------------------------------------------------
pub fn is_profiler(p: &Plan) -> bool { matches!(p.session, Session::Profiler | Session::ProfilerV8) }
pub fn trace(plan: &Plan, out: &Outcome) -> Result<Vec<u8>, V> {
    match out.file(&plan.trace_path()) { Some(d) => Ok(d), None => fail("no-trace", "the trace file does not exist".into()) }
}
pub fn zero_bounds(out: &Outcome) -> (i64, i64) { let r = out.rec(OP_NEW); (r.t0, r.t1) }

/// Decoded with the reference reader (independent of the code under test).
pub fn ref_events(data: &[u8], v8: bool) -> Result<Vec<Ev>, V> {
    let st = match finished_streams(data) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    ref_events_st(&st, v8)
}
pub fn ref_events_st(st: &[Vec<u8>; 3], v8: bool) -> Result<Vec<Ev>, V> {
    for (i, m) in [b"MMES", b"MMSD", b"MMSI"].iter().enumerate() {
        ensure!(st[i].len() >= 8 && &st[i][..4] == &m[..], "stream-header", "stream {i} has no valid header");
    }
    let rs = RefStrings::new(&st[1], &st[2], v8);
    let mut cache: HashMap<u64, String> = HashMap::new();
    let sz = if v8 { 24 } else { 32 };
    ensure!((st[0].len() - 8) % sz == 0, "event-stream-length", "event stream length {} is not a whole number of events", st[0].len());
    let mut out = vec![];
    for c in st[0][8..].chunks_exact(sz) {
        let u32at = |o: usize| u32::from_le_bytes(c[o..o + 4].try_into().unwrap());
        let u64at = |o: usize| u64::from_le_bytes(c[o..o + 8].try_into().unwrap());
        let (k, e, tid, p1, p2, up) = if v8 { (u32at(0) as u64, u32at(4) as u64, u32at(8), u32at(12), u32at(16), u32at(20)) } else { (u64at(0), u64at(8), u32at(16), u32at(20), u32at(24), u32at(28)) };
        let a = p1 as u64 | ((up as u64 >> 16) << 32);
        let b = p2 as u64 | ((up as u64 & 0xFFFF) << 32);
        let pay = if b == MAX_SINGLE { Pay::Instant(a) } else if b == MAX_SINGLE - 1 { Pay::Integer(a) } else { Pay::Interval(a, b) };
        let mut txt = |id: u64| cache.entry(id).or_insert_with(|| rs.get(id).and_then(|v| String::from_utf8(v).ok()).unwrap_or_else(|| format!("<bad id {id}>"))).clone();
        let kind = txt(k);
        let eid = txt(e);
        let mut it = eid.split('\x1E').map(|x| x.to_string());
        let label = it.next().unwrap();
        out.push(Ev { kind, label, args: it.collect(), tid, pay });
    }
    Ok(out)
}
/// An operation that must not fail did.
pub fn no_panics(plan: &Plan, out: &Outcome, sel: fn(&Op) -> bool) -> Check {
    ensure!(out.rec(OP_NEW).status == S_DONE, "constructor-failed", "creating the session failed without any fault");
    for (id, op) in plan.all_ops() {
        if !sel(op) { continue; }
        let st = out.rec(id).status;
        ensure!(st != S_PANIC && st != S_ERR, "call-panicked", "op {}:{} {:?} failed without any fault", op_thread(id), op_index(id), brief(op));
    }
    for id in pseudo_ops() { ensure!(id == OP_NEW || out.rec(id).status != S_PANIC, "drop-panicked", "dropping a handle panicked ({})", op_index(id)); }
    Ok(())
}
pub fn brief(o: &Op) -> String { let s = format!("{o:?}"); if s.len() > 120 { s[..s.char_indices().take_while(|x| x.0 < 110).count()].to_string() + "…" } else { s } }
pub fn is_event_op(o: &Op) -> bool { matches!(o, Op::Instant { .. } | Op::Integer { .. } | Op::Begin { .. } | Op::End { .. } | Op::Unwind { .. } | Op::FillInt { .. }) }
pub fn is_string_op(o: &Op) -> bool { matches!(o, Op::HugeS { .. } | Op::Str { .. } | Op::Text { .. } | Op::Comp { .. } | Op::CompRel { .. } | Op::PadTo { .. } | Op::Eid { .. } | Op::MapV { .. } | Op::BulkV { .. }) }
pub fn is_bad_op(o: &Op) -> bool { matches!(o, Op::BadStr { .. } | Op::BadIter { .. } | Op::BadInt { .. } | Op::BadMap { .. } | Op::BadTarget { .. } | Op::WAPanic { .. }) }
pub fn normal_op(o: &Op) -> bool { !is_bad_op(o) }

pub fn events_ok(plan: &Plan, out: &Outcome, data: &[u8]) -> Check {
    let led = Ledger::new(plan, out);
    let exp = led.expected(false);
    let r = match read_with_lib(data) { Ok(r) => r, Err(e) => return fail("unreadable", format!("the finished trace cannot be read: {}", e.text())) };
    match_events(&r.events, &exp, zero_bounds(out), true)?;
    Ok(())
}
pub fn events_ok_ref(plan: &Plan, out: &Outcome, data: &[u8]) -> Check {
    let led = Ledger::new(plan, out);
    let exp = led.expected(false);
    let ev = ref_events(data, plan.session == Session::ProfilerV8)?;
    match_events(&ev, &exp, zero_bounds(out), true)?;
    Ok(())
}
/// String ids against the reference reader.
pub fn strings_ok_ref(plan: &Plan, out: &Outcome, data: &[u8]) -> Check {
    let st = match finished_streams(data) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    strings_ok_ref_st(plan, out, &st)
}
pub fn strings_ok_ref_st(plan: &Plan, out: &Outcome, st: &[Vec<u8>; 3]) -> Check {
    let led = Ledger::new(plan, out);
    let rs = RefStrings::new(&st[1], &st[2], plan.session == Session::ProfilerV8);
    for (id, op) in plan.all_ops() {
        if !matches!(op, Op::Str { .. } | Op::Text { .. } | Op::Comp { .. } | Op::CompRel { .. } | Op::PadTo { .. } | Op::Eid { .. }) { continue; }
        let r = out.rec(id);
        if r.status != S_DONE { continue; }
        if let Some(t) = led.slot(id) {
            let got = rs.get(r.r0);
            ensure!(got.as_deref() == Some(t.full.as_bytes()), "string-mismatch", "the id of op {}:{} {} resolves to {:?} instead of {:?}", op_thread(id), op_index(id), brief(op), got.map(|g| short(&String::from_utf8_lossy(&g))), short(&t.full));
        }
    }
    for (v, s) in &led.virt {
        if let Some(t) = led.slot(*s) {
            let got = rs.get(*v);
            ensure!(got.as_deref() == Some(t.full.as_bytes()), "virtual-mismatch", "virtual id {v} resolves to {:?} instead of {:?}", got.map(|g| short(&String::from_utf8_lossy(&g))), short(&t.full));
        }
    }
    Ok(())
}

// ---- page structure of the write log -------------------------------------------------------------
/// Walks the log of writes to one file: append-only, whole pages, one page at a time.
pub fn page_log(plan: &Plan, out: &Outcome, ino: usize, with_header: bool) -> Result<Pages, V> {
    let mut len = 0u64;
    let mut head: Vec<u8> = vec![]; // bytes of the current header
    let mut left = 0u64; // content bytes still to come
    let mut need = if with_header { 8 } else { 0 };
    let mut in_page: Option<(u32, u64)> = None; // (task, step of first byte)
    let mut busy: Vec<(u32, u64, u64)> = vec![];
    for w in &out.writes {
        if w.ino != ino || w.err != 0 { continue; }
        if w.trunc { ensure!(len == 0 && w.off == 0, "not-append-only", "the file was resized from {} to {} bytes", len, w.off); continue; }
        ensure!(w.off == len, "not-append-only", "{} bytes written at offset {} while the file has {} bytes", w.len, w.off, len);
        len += w.len;
        let b = &out.wdata[w.data..w.data + w.len as usize];
        let mut p = 0usize;
        while p < b.len() {
            if need > 0 {
                let n = need.min(b.len() - p);
                head.extend_from_slice(&b[p..p + n]); p += n; need -= n;
                if need == 0 { ensure!(&head[..4] == b"MMPD", "bad-header", "the file starts with {:?}", &head); head.clear(); }
                continue;
            }
            if left > 0 {
                let n = (left as usize).min(b.len() - p);
                let (t, st) = in_page.unwrap();
                ensure!(t == w.task, "page-interleaved", "task {} wrote at file offset {} into the unfinished page of task {} (begun at step {})", w.task, w.off + p as u64, t, st);
                p += n; left -= n as u64;
                if left == 0 { busy.push((t, st, w.step)); in_page = None; }
                continue;
            }
            if head.is_empty() {
                ensure!(b[p] <= 2, "bad-page", "page tag {} at file offset {}", b[p], w.off + p as u64);
                in_page = Some((w.task, w.step));
            } else {
                let (t, st) = in_page.unwrap();
                ensure!(t == w.task, "page-interleaved", "task {} wrote at file offset {} into the unfinished page header of task {} (begun at step {})", w.task, w.off + p as u64, t, st);
            }
            let n = (5 - head.len()).min(b.len() - p);
            head.extend_from_slice(&b[p..p + n]); p += n;
            if head.len() == 5 {
                left = u32::from_le_bytes(head[1..5].try_into().unwrap()) as u64;
                ensure!(left >= 1 && left <= MAX_PAGE as u64, "bad-page", "page size {} at file offset {}", left, w.off + p as u64);
                head.clear();
            }
        }
    }
    if let Some((t, st)) = in_page { busy.push((t, st, u64::MAX)); }
    // no call may return while the page it was writing is incomplete
    if busy.len() > 0 {
        let mut by: HashMap<u32, Vec<(u64, u64)>> = HashMap::new();
        for (t, a, b) in &busy { by.entry(*t).or_default().push((*a, *b)); }
        for (id, r) in &out.recs {
            if r.status == S_STARTED || r.status == S_NONE || r.status == S_PANIC || r.status == S_ERR { continue; }
            if let Some(v) = by.get(&r.task) {
                for (a, b) in v { ensure!(!(*a >= r.start && *a < r.end && r.end < *b), "page-left-incomplete", "op {}:{} returned (step {}) leaving a page incomplete that it began at step {}", op_thread(*id), op_index(*id), r.end, a); }
            }
        }
    }
    let _ = plan;
    let mut p = Pages::default();
    p.header = need == 0;
    p.tail = head.len() + left as usize;
    Ok(p)
}

/// Size of an allocation in the string data stream, None when the call allocates nothing.
pub fn alloc_size(op: &Op, r: &OpRec, v8: bool) -> Option<u64> {
    let rf = if v8 { 5 } else { 9 };
    Some(match op {
        Op::Str { len, .. } => *len as u64 + 1,
        Op::Text { s } => s.len() as u64 + 1,
        Op::PadTo { .. } | Op::HugeS { .. } => r.r1 + 1,
        Op::CompRel { .. } => r.r1 + rf + 1,
        Op::Comp { parts, .. } => parts.iter().map(|p| match p { Part::Val(l) => *l as u64, _ => rf }).sum::<u64>() + 1,
        Op::Eid { args, single, .. } => { if args.is_empty() && *single { return None; } rf + args.len() as u64 * (rf + 1) + 1 }
        _ => return None,
    })
}
/// The string streams of a finished trace consist of exactly the completed calls' data.
pub fn string_tiling(plan: &Plan, out: &Outcome, data: &[u8]) -> Check {
    let st = match finished_streams(data) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
    string_tiling_st(plan, out, &st)
}
pub fn string_tiling_st(plan: &Plan, out: &Outcome, st: &[Vec<u8>; 3]) -> Check {
    let v8 = plan.session == Session::ProfilerV8;
    let mut segs = vec![(0u64, 8u64, u32::MAX)];
    for (id, op) in plan.all_ops() {
        let r = out.rec(id);
        if r.status != S_DONE { continue; }
        if let Some(n) = alloc_size(op, &r, v8) {
            ensure!(r.r0 >= FIRST_ID, "bad-id", "op {}:{} returned id {}", op_thread(id), op_index(id), r.r0);
            segs.push((r.r0 - FIRST_ID, r.r0 - FIRST_ID + n, id));
        }
    }
    segs.sort();
    let d = &st[1];
    let mut pos = 0u64;
    let mut gaps = vec![];
    for (a, e, id) in &segs {
        ensure!(*a >= pos, "overlap", "string data at {a} of op {}:{} overlaps the one before", op_thread(*id), op_index(*id));
        if *a > pos { gaps.push((pos, *a)); }
        pos = *e;
    }
    ensure!(pos <= d.len() as u64, "write-lost", "string data stream has {} bytes but {} were written", d.len(), pos);
    if pos < d.len() as u64 { gaps.push((pos, d.len() as u64)); }
    // the only other entry is the session metadata
    ensure!(gaps.len() == 1, "stream-gap", "string data that belongs to no completed call: {:?}", gaps);
    let (a, e) = (gaps[0].0 as usize, gaps[0].1 as usize);
    ensure!(d[e - 1] == 0xFF && d[a..e - 1].iter().all(|b| *b < 0xFE) && d[a] == b'{', "stream-gap", "string data at {a}..{e} belongs to no completed call");
    // index
    let w = if v8 { 8 } else { 16 };
    let ix = &st[2];
    ensure!(ix.len() >= 8 && (ix.len() - 8) % w == 0, "index-length", "index stream length {}", ix.len());
    let led = Ledger::new(plan, out);
    let mut want: HashMap<(u64, u64), i64> = HashMap::new();
    want.insert((METADATA_ID, a as u64), 1);
    for (id, op) in plan.all_ops() {
        if out.rec(id).status != S_DONE { continue; }
        let mut put = |v: u64, to: u32| { let t = out.rec(to); *want.entry((v, t.r0 - FIRST_ID)).or_default() += 1; };
        match op {
            Op::MapV { vid, to } => put(*vid, *to),
            Op::BulkV { start, n, step, to, .. } => for i in 0..*n as u64 { put(*start + i * *step as u64, *to) },
            _ => {}
        }
    }
    let _ = &led;
    for c in ix[8..].chunks_exact(w) {
        let rd = |x: &[u8]| if v8 { u32::from_le_bytes(x.try_into().unwrap()) as u64 } else { u64::from_le_bytes(x.try_into().unwrap()) };
        let k = (rd(&c[..w / 2]), rd(&c[w / 2..]));
        match want.get_mut(&k) { Some(n) if *n > 0 => *n -= 1, _ => return fail("index-entry", format!("index entry {:?} belongs to no completed call", k)) }
    }
    for (k, n) in want { ensure!(n == 0, "index-entry", "index entry {:?} is missing", k); }
    // events
    let sz = if v8 { 24 } else { 32 };
    let n = led.expected(false).len();
    ensure!(st[0].len() == 8 + n * sz, "event-stream-length", "event stream has {} bytes for {} recorded events", st[0].len(), n);
    Ok(())
}
