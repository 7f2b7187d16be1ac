//! Sessions whose streams grow beyond four gigabytes. Nearly all bytes are zero, so that neither the
//! recording process nor the judge ever has to hold them.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::props::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;

const G4: u64 = 1 << 32;
/// addresses around which something could wrap: 32-bit addresses and ids
fn target(r: &mut Rng) -> u64 {
    let t = *r.pick(&[G4, G4, G4, G4 - FIRST_ID, 1 << 31, G4 + (1 << 30)]);
    match r.below(4) { 0 => t - r.below(400), 1 => t + r.below(400), 2 => t - r.below(5), _ => t + r.below(300_000_000) }
}
pub fn gen_profiler(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = profiler_plan(prop, seed, r, &Opts { threads: (1, 3), ops: (3, 25), fill: false, ..Default::default() });
    p.sim.keep = 32;
    if r.chance(1, 3) { p.pre.push(Op::HugeS { to: r.below(G4) }); }
    p.pre.push(Op::HugeS { to: target(r) });
    for _ in 0..r.below(6) {
        let plain = opid(T_PRE, 0);
        let big = opid(T_PRE, p.pre.len());
        p.pre.push(Op::Str { len: *r.pick(&[1, 2, 9, 100]), kind: 0 });
        p.pre.push(Op::Comp { parts: vec![Part::Ref(big), Part::Val(3), Part::Ref(plain)], fixed: false });
        p.pre.push(Op::Eid { label: Id::Slot(plain), args: vec![Id::Slot(big)], single: r.chance(1, 2) });
        let vid = 99_700_000 + 100 * p.pre.len() as u64;
        match r.below(4) { 0 | 1 => p.pre.push(Op::MapV { vid, to: big }), 2 => p.pre.push(Op::BulkV { start: vid, n: r.range(1, 40) as u32, step: 1, to: big, single: false }), _ => {} }
        p.pre.push(Op::Instant { kind: Id::Slot(if r.chance(1, 2) { big } else { plain }), eid: Id::Slot(big + 2), tid: 0x7300_0000 + p.pre.len() as u32 });
    }
    sched(r, &mut p);
    p
}
pub fn gen_sinks(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = sink_plan(prop, seed, r, true, false, true);
    p.sim.keep = 32;
    let s = r.idx(p.sinks as usize) as u8;
    let all = target(r);
    let first = if r.chance(1, 2) { all } else { r.below(all) };
    p.pre.push(Op::HugeW { s, len: first, form: r.below(2) as u8 });
    if first < all { let t = r.idx(p.threads.len()); p.threads[t].insert(0, Op::HugeW { s, len: all - first, form: r.below(2) as u8 }); }
    sched(r, &mut p);
    p
}
/// the three streams, and where they may have bytes other than zero
fn sparse_streams(o: &Outcome, path: &str, header: bool) -> Result<([Vec<u8>; 3], [Vec<(usize, usize)>; 3]), V> {
    let ino = match o.ino(path) { Some(i) => i, None => return fail("no-trace", "the file does not exist".into()) };
    let d = o.image(ino, o.writes.len(), None);
    let pg = parse_pages(&d, header);
    if let Some(b) = pg.bad { return fail("bad-page", b); }
    ensure!(pg.tail == 0 && pg.header == header, "bad-page", "{} bytes of an incomplete page at the end", pg.tail);
    let mut len = [0usize; 3];
    for (t, _, n) in &pg.pages { len[*t as usize] += n; }
    let mut st = [vec![0u8; len[0]], vec![0u8; len[1]], vec![0u8; len[2]]];
    let mut pieces = [vec![], vec![], vec![]];
    let stored = o.stored(ino);
    let mut k = 0;
    let mut pos = [0usize; 3];
    for (t, a, n) in &pg.pages {
        let (t, a, e) = (*t as usize, *a as u64, (*a + *n) as u64);
        while k < stored.len() && stored[k].0 + stored[k].1.len() as u64 <= a { k += 1; }
        let mut j = k;
        while j < stored.len() && stored[j].0 < e {
            let (off, b) = stored[j];
            let (x, y) = (off.max(a), (off + b.len() as u64).min(e));
            if x < y {
                let at = pos[t] + (x - a) as usize;
                st[t][at..at + (y - x) as usize].copy_from_slice(&b[(x - off) as usize..(y - off) as usize]);
                pieces[t].push((at, (y - x) as usize));
            }
            j += 1;
        }
        pos[t] += n;
    }
    Ok((st, pieces))
}
pub fn judge(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    no_panics(p, &o, normal_op)?;
    *cx.stat("sessions with streams beyond 2 GiB") += 1;
    if !is_profiler(p) {
        let (st, pieces) = sparse_streams(&o, &p.path, false)?;
        for s in 0..3 {
            if s < p.sinks as usize { sink_ledger_st(p, &o, s as u8, &st[s], &pieces[s])?; } else { ensure!(st[s].is_empty(), "foreign-tag", "pages of stream {s} which nobody writes"); }
        }
        return Ok(());
    }
    let (st, pieces) = sparse_streams(&o, &p.trace_path(), true)?;
    string_tiling_st(p, &o, &st)?;
    // the large strings
    for (id, op) in p.all_ops() {
        let r = o.rec(id);
        if !matches!(op, Op::HugeS { .. }) || r.status != S_DONE { continue; }
        let (a, e) = ((r.r0 - FIRST_ID) as usize, (r.r0 - FIRST_ID + r.r1) as usize);
        for (x, l) in &pieces[1] { let (x, y) = ((*x).max(a), (x + l).min(e)); if x < y { ensure!(st[1][x..y].iter().all(|b| *b == 0), "content-mismatch", "the string of {} NULs at address {a} has other bytes at {x}..{y}", r.r1); } }
        ensure!(st[1][e] == 0xFF, "content-mismatch", "the string of {} NULs at address {a} is not terminated", r.r1);
    }
    let led = Ledger::new(p, &o);
    let exp = led.expected(false);
    strings_ok_ref_st(p, &o, &st)?;
    let ev = ref_events_st(&st, false)?;
    match_events(&ev, &exp, zero_bounds(&o), true)?;
    // the reader under test
    let [e, s, i] = st;
    let r = guarded(|| {
        let d = decodeme::EventDecoder::from_separate_buffers(s, i, e, None).map_err(|e| ReadErr::Err(e.to_string()))?;
        let m = d.metadata();
        let got: Vec<Ev> = (0..d.num_events()).map(|k| conv_event(&d.decode_full_event(k), m.start_time)).collect();
        Ok((got, m.process_id))
    });
    match r {
        Err(e) => fail("unreadable", format!("the streams cannot be read: {}", e.text())),
        Ok((got, pid)) => {
            ensure!(pid == p.sim.pid, "process-id", "process id {pid} reported instead of {}", p.sim.pid);
            match_events(&got, &exp, zero_bounds(&o), true)?;
            if p.prop != "C07" { return Ok(()); }
            let ([_, s, i], _) = sparse_streams(&o, &p.trace_path(), true)?;
            match guarded(|| decodeme::stringtable::StringTable::new(s, i, None).map_err(|e| ReadErr::Err(e.to_string()))) {
                Ok(t) => crate::p_rec::strings_ok_table(p, &o, &t),
                Err(e) => fail("unreadable", format!("the string tables cannot be read: {}", e.text())),
            }
        }
    }
}
