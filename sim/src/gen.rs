//! Seeded generation of plans.
use crate::rng::Rng;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::HashMap;

pub fn op_cost(o: &Op) -> u64 {
    match o {
        Op::Nop => 0,
        Op::Str { len, .. } => 60 + *len as u64 / 64,
        Op::Comp { parts, .. } => 100 + parts.len() as u64 * 40,
        Op::BulkV { n, single, .. } => 150 + *n as u64 * if *single { 90 } else { 12 },
        Op::FillInt { n, .. } => *n as u64 * 90,
        Op::Many { n, what, len, .. } => *n as u64 * (match what { 16 | 17 => 3000, 7 | 14 => 1000, 2 | 12..=15 => 400, _ => 150 } + *len as u64 / 64),
        Op::HugeS { to: n } | Op::HugeW { len: n, .. } => 200 + *n / 300,
        Op::WA { len, .. } | Op::WB { len, .. } => 120 + *len as u64 / 2000,
        Op::SW { lens, .. } => 150 * lens.len() as u64,
        _ => 120,
    }
}
pub fn par_cost(p: &Plan) -> u64 { p.threads.iter().flatten().map(op_cost).sum::<u64>() + 500 * p.threads.len() as u64 }

/// scheduling policy, swarm style
pub fn sched(rng: &mut Rng, p: &mut Plan) {
    let est = par_cost(p).max(200);
    p.sim.seed = rng.next();
    match rng.weighted(&[55, 30, 15]) {
        0 => {
            p.sim.policy = POL_RANDOM;
            let min = (est / 4000).max(1);
            p.sim.mean = *rng.pick(&[1, 3, 7, 20, 60, 200, 1000, 5000]).max(&min);
            p.sim.p_sys = *rng.pick(&[0, 0, 32, 128]);
        }
        1 => {
            p.sim.policy = POL_PCT;
            p.sim.pct_depth = rng.range(0, 12) as u32;
            p.sim.horizon = (est * rng.range(1, 12) / 4).max(50);
        }
        _ => {
            p.sim.policy = POL_RANDOM;
            p.sim.mean = 1 << 40;
            p.sim.p_sys = *rng.pick(&[40, 100, 200, 255]);
        }
    }
    if rng.chance(1, 4) { p.sim.p_spurious = *rng.pick(&[8, 64, 200]); }
    let any = rng.range(1, 4_194_304);
    p.sim.pid = *rng.pick(&[any, any, any, 1, 4_194_304, (1 << 22) + any, i32::MAX as u64 - any, i32::MAX as u64]) as u32;
}
pub fn clocks(rng: &mut Rng, p: &mut Plan) {
    p.sim.mono0 = rng.range(1_000_000_000, 400_000_000_000_000) as i64;
    p.sim.wall0 = *rng.pick(&[0u64, 1, 999_999_999, 1_600_000_000_123_456_789, 1_700_000_000_000_000_000, 4_000_000_000_000_000_001]) as i64 + rng.below(1_000_000_000) as i64;
    if rng.chance(2, 3) {
        p.sim.p_tick = *rng.pick(&[10, 100, 255]);
        p.sim.tick_max = *rng.pick(&[1, 50, 1000, 100_000, 3_000_000]);
    }
    if rng.chance(1, 4) { p.sim.p_walljump = *rng.pick(&[3, 40, 200]); }
}
pub fn soft_io_faults(rng: &mut Rng, p: &mut Plan, strong: bool) {
    if strong || rng.chance(1, 3) {
        p.sim.p_short = *rng.pick(&[8, 40, 128, 220, 250]);
        p.sim.p_eintr = *rng.pick(&[0, 8, 40, 128, 220]);
    }
}

#[derive(Clone)]
pub struct Opts {
    pub threads: (u64, u64),
    pub ops: (u64, u64),
    pub fill: bool,
    pub strings: bool,
    pub bad: bool,
    pub virt: bool,
    pub v8: bool,
    pub real_tids: bool,
    pub weird_text: bool,
    pub max_str: u32,
    /// handles may be dropped while a panic unwinds (a failing storage would abort the process then)
    pub unwind_drop: bool,
}
impl Default for Opts {
    fn default() -> Opts { Opts { threads: (1, 5), ops: (3, 40), fill: true, strings: true, bad: false, virt: true, v8: false, real_tids: false, weird_text: true, max_str: 600, unwind_drop: false } }
}
pub struct Book {
    pub plain: Vec<u32>, // label-safe, non-empty
    pub any: Vec<u32>,
    pub eids: Vec<u32>,
    pub virts: Vec<u64>, // ids whose target is label-safe
    pub next_vid: u64,
    pub lim_vid: u64,
    /// bytes a slot or virtual id expands to (upper bound)
    pub size: HashMap<u64, u64>,
    pub detached: Vec<u32>,
}
impl Book {
    fn fork(&self) -> Book { Book { plain: self.plain.clone(), any: self.any.clone(), eids: self.eids.clone(), virts: self.virts.clone(), next_vid: self.next_vid, lim_vid: self.lim_vid, size: self.size.clone(), detached: vec![] } }
}
const LENS: [u32; 14] = [1, 2, 3, 5, 8, 9, 13, 40, 126, 127, 128, 129, 255, 600];

fn str_op(rng: &mut Rng, o: &Opts, safe: bool) -> Op {
    let len = if rng.chance(1, 60) && o.max_str > 1000 { *rng.pick(&[1000, 70_000, 131_071, 131_072, 200_000, 262_142, 262_143, 262_144, 262_145, 300_000]) } else { (*rng.pick(&LENS)).min(o.max_str) };
    let kind = if safe { rng.weighted(&[6, 2, if o.weird_text { 2 } else { 0 }]) as u8 } else { rng.weighted(&[4, 2, 2, if o.weird_text { 2 } else { 0 }]) as u8 };
    let len = if !safe && rng.chance(1, 8) { 0 } else { len.max(if kind == 1 { 4 } else { 1 }) };
    Op::Str { len, kind }
}
fn label_id(rng: &mut Rng, b: &Book, o: &Opts) -> Id {
    if o.virt && !b.virts.is_empty() && rng.chance(1, 5) { return Id::Virt(*rng.pick(&b.virts)); }
    Id::Slot(*rng.pick(&b.plain))
}
fn eid_id(rng: &mut Rng, b: &Book, o: &Opts) -> Id {
    if o.virt && !o.v8 && rng.chance(1, 40) { return Id::Virt(INVALID); }
    if !b.eids.is_empty() && rng.chance(2, 3) { Id::Slot(*rng.pick(&b.eids)) } else { label_id(rng, b, o) }
}
fn kind_id(rng: &mut Rng, b: &Book, o: &Opts) -> Id {
    if o.virt && rng.chance(1, 40) { return Id::Virt(if !o.v8 && rng.chance(1, 2) { INVALID } else { 98_000_000 + rng.below(1000) }); } // never mapped
    if !b.any.is_empty() && rng.chance(1, 4) { Id::Slot(*rng.pick(&b.any)) } else { label_id(rng, b, o) }
}
/// `StringId::INVALID`
pub const INVALID: u64 = 100_000_002;
const V: u64 = 1 << 40;
fn size_of(b: &Book, i: &Id) -> u64 { match i { Id::Slot(s) => b.size.get(&(*s as u64)), Id::Virt(v) => b.size.get(&(V | v)) }.copied().unwrap_or(10) }
/// remembers how much the new slot expands to
fn note(b: &mut Book, me: u32, op: &Op) {
    let n = match op {
        Op::Str { len, .. } => *len as u64,
        Op::Text { s } => s.len() as u64,
        Op::Comp { parts, .. } => parts.iter().map(|p| match p { Part::Val(l) => *l as u64, Part::Ref(s) => size_of(b, &Id::Slot(*s)), Part::Virt(v) => size_of(b, &Id::Virt(*v)) }).sum(),
        Op::Eid { label, args, .. } => size_of(b, label) + args.iter().map(|a| size_of(b, a) + 1).sum::<u64>(),
        Op::MapV { vid, to } => { let n = size_of(b, &Id::Slot(*to)); b.size.insert(V | vid, n); return; }
        Op::BulkV { start, n, step, to, .. } => { let z = size_of(b, &Id::Slot(*to)); if z > 200 { for i in 0..*n as u64 { b.size.insert(V | (*start + i * *step as u64), z); } } return; }
        _ => return,
    };
    b.size.insert(me as u64, n);
}
fn comp_op(rng: &mut Rng, b: &Book, o: &Opts) -> Op {
    let n = rng.weighted(&[1, 4, 6, 5, 3, 2, 1, 1]) + if rng.chance(1, 12) { rng.range(5, 12) as usize } else { 0 };
    let many = rng.chance(1, 40);
    let n = if many { rng.range(17, 300) as usize } else { n.min(16) };
    let mut parts = vec![];
    let mut room = if rng.chance(1, 40) { 700_000u64 } else { 8_000 };
    for _ in 0..n {
        let part = match rng.weighted(&[4, 5, if o.virt && !b.virts.is_empty() { 2 } else { 0 }]) {
            0 => Part::Val(*rng.pick(&[0, 1, 2, 3, 7, 8, 9, 10, 31, 100])),
            1 => if b.any.is_empty() || rng.chance(1, 2) { Part::Ref(*rng.pick(&b.plain)) } else { Part::Ref(*rng.pick(&b.any)) },
            _ => Part::Virt(if !o.v8 && rng.chance(1, 10) { INVALID } else { *rng.pick(&b.virts) }),
        };
        let z = match &part { Part::Val(l) => *l as u64, Part::Ref(s) => size_of(b, &Id::Slot(*s)), Part::Virt(v) => size_of(b, &Id::Virt(*v)) };
        if z > room { continue; }
        room -= z;
        parts.push(part);
    }
    let fixed = parts.len() <= 16 && rng.chance(1, 2);
    Op::Comp { parts, fixed }
}
pub fn new_vid(rng: &mut Rng, b: &mut Book, n: u64, step: u64) -> u64 {
    let v = b.next_vid;
    b.next_vid += n * step + if b.next_vid + 2000 > b.lim_vid { 0 } else { rng.below(3) };
    v
}
fn eid_op(rng: &mut Rng, b: &Book, o: &Opts) -> Op {
    let n = rng.weighted(&[2, 5, 3, 2, 1]);
    let n = if rng.chance(1, 15) { rng.range(5, 40) as usize } else if rng.chance(1, 300) { rng.range(100, 400) as usize } else { n };
    let label = label_id(rng, b, o);
    let small = b.plain.iter().copied().filter(|s| b.size.get(&(*s as u64)).map_or(false, |z| *z < 50)).collect::<Vec<u32>>();
    // an element may be a virtual id without a mapping, or the invalid id
    let odd = |rng: &mut Rng, i: Id| if o.virt && rng.chance(1, 40) { Id::Virt(if !o.v8 && rng.chance(2, 3) { INVALID } else { 98_000_000 + rng.below(1000) }) } else { i };
    let label = odd(rng, label);
    let args = (0..n).map(|_| { let i = if n > 12 && !small.is_empty() { Id::Slot(*rng.pick(&small)) } else { label_id(rng, b, o) }; odd(rng, i) }).collect();
    Op::Eid { label, args, single: n == 0 || rng.chance(1, 2) && n == 1 }
}
/// one bad call; `fresh` makes virtual ids that nothing else uses
pub fn bad_op(rng: &mut Rng, b: &mut Book, o: &Opts, tid: u32) -> Op {
    match rng.weighted(&[6, 3, 3, 2, 2]) {
        0 => { let len = *rng.pick(&[1u32, 2, 9, 100, 128, 129, 5000, 131_072, 200_000, 262_144, 262_145]); Op::BadStr { len, at: if rng.chance(1, 3) { len } else { rng.below(len as u64) as u32 } } }
        1 => { let n = if rng.chance(2, 3) { rng.range(1, 40) } else { *rng.pick(&[257, 600, 1100, 2500, 5000, 9000]) } as u32; if b.next_vid + n as u64 > b.lim_vid { return Op::Yield; } let v = new_vid(rng, b, n as u64, 1); Op::BadIter { start: v, n, at: if rng.chance(1, 2) { rng.below(n as u64) as u32 } else { n - 1 - rng.below((n as u64).min(3)) as u32 }, to: *rng.pick(&b.plain) } }
        2 => Op::BadInt { kind: label_id(rng, b, o), eid: label_id(rng, b, o), tid, val: *rng.pick(&[MAXS + 1, MAXS + 2, 1 << 60, u64::MAX, u64::MAX - 1, (1 << 48) | 5]) },
        3 => Op::BadMap { vid: *rng.pick(&[100_000_001, 100_000_002, 100_000_003, 200_000_000, u32::MAX as u64]), to: *rng.pick(&b.plain), bulk: rng.chance(1, 2) },
        _ => Op::BadTarget { vid: rng.below(1000), bulk: rng.chance(1, 2) },
    }
}
pub const MAXS: u64 = (1 << 48) - 1;

fn pre_strings(rng: &mut Rng, p: &mut Plan, b: &mut Book, o: &Opts) {
    let push = |p: &mut Plan, b: &mut Book, op: Op| { let me = opid(T_PRE, p.pre.len()); note(b, me, &op); p.pre.push(op); me };
    for _ in 0..rng.range(2, 5) { let op = str_op(rng, o, true); let s = push(p, b, op); b.plain.push(s); }
    if rng.chance(1, 4) { let op = Op::Text { s: rng.pick(&[" ", "\n", "\t", "  \r\n ", "\u{c}", "a\u{c}b", if o.v8 { "\t" } else { "\u{b}" }, if o.v8 { "\t\t" } else { "a\u{b} b" }, "\u{a0}", "\u{2028}", "{", "<unknown>", "<invalid>", "0"]).to_string() }; let s = push(p, b, op); b.plain.push(s); }
    if o.strings {
        for _ in 0..rng.below(3) { let op = str_op(rng, o, false); let s = push(p, b, op); b.any.push(s); }
        for _ in 0..rng.below(3) { let op = comp_op(rng, b, o); let s = push(p, b, op); b.any.push(s); }
        if o.virt {
            for _ in 0..rng.below(4) {
                let v = new_vid(rng, b, 1, 1);
                let to = *rng.pick(&b.plain);
                push(p, b, Op::MapV { vid: v, to });
                b.virts.push(v);
            }
        }
        for _ in 0..rng.below(4) { let op = eid_op(rng, b, o); let s = push(p, b, op); b.eids.push(s); }
    }
}
/// brings the buffers close to a page boundary
fn fill(rng: &mut Rng, p: &mut Plan, b: &mut Book) {
    let which = rng.weighted(&[5, 3, 2]);
    let small = *b.plain.iter().min_by_key(|s| b.size.get(&(**s as u64)).copied().unwrap_or(10)).unwrap();
    match which {
        0 => {
            let per_page = 8191i64;
            let n = (per_page * if rng.chance(1, 30) { rng.range(3, 10) as i64 } else { *rng.pick(&[1, 1, 1, 2]) } - rng.below(30) as i64) as u32;
            let (k, e) = (Id::Slot(small), Id::Slot(small));
            p.pre.push(Op::FillInt { kind: k, eid: e, tid: 0xF111_0000, base: 0, n });
        }
        1 => {
            let m = 262_144u32;
            p.pre.push(Op::PadTo { modulus: m, rem: m - rng.below(120) as u32 - 1 });
        }
        _ => {
            // index entries are 16 bytes (8 in the previous format)
            let single = rng.chance(1, 6);
            let n = if single { rng.range(16_300, 16_400) } else if rng.chance(1, 12) { if rng.chance(1, 3) { rng.range(65_500, 70_000) } else { rng.range(16_000, 41_000) } } else { rng.range(8000, 8300) } as u32;
            let v = new_vid(rng, b, n as u64, 1);
            p.pre.push(Op::BulkV { start: v, n, step: 1, to: b.plain[0], single });
            if rng.chance(1, 2) { let n2 = rng.range(8050, 8192) as u32; let v = new_vid(rng, b, n2 as u64, 1); for _ in 0..1 { p.pre.push(Op::BulkV { start: v, n: n2, step: 1, to: b.plain[0], single: false }); } }
        }
    }
}

pub fn profiler_plan(prop: &str, seed: u64, rng: &mut Rng, o: &Opts) -> Plan {
    let mut p = Plan::new(prop, seed);
    p.session = if o.v8 { Session::ProfilerV8 } else { Session::Profiler };
    p.path = rng.pick(&["/sim/trace", "/sim/a/b/t", "/sim/t.x.y", "/sim/dir/trace-1234"]).to_string();
    let mut b = Book { plain: vec![], any: vec![], eids: vec![], virts: vec![], next_vid: *rng.pick(&[0, 1, 77, 1000, 65_530, 16_777_200, 99_000_000]), lim_vid: 99_400_000, size: HashMap::new(), detached: vec![] };
    pre_strings(rng, &mut p, &mut b, o);
    if o.fill && rng.chance(1, 3) { fill(rng, &mut p, &mut b); }
    let deep = rng.1 && rng.chance(1, 6);
    let nt = if deep { rng.range(4, 16) } else { rng.range(o.threads.0, o.threads.1) } as usize;
    // per-run operation mix
    let on = |rng: &mut Rng, w: u32| if rng.chance(2, 3) { w } else { 0 };
    let w = [
        if o.strings { on(rng, 6) } else { 0 }, // Str
        if o.strings { on(rng, 4) } else { 0 }, // Comp
        if o.strings { on(rng, 4) } else { 0 }, // Eid
        8, 6, 10, 9,
        on(rng, 4),  // detached
        on(rng, 2),  // unwind
        on(rng, 2),  // fill
        if o.virt && o.strings { on(rng, 3) } else { 0 },
        if o.virt && o.strings { on(rng, 2) } else { 0 },
        on(rng, 4), // advance
        on(rng, 3),
        on(rng, 1), // wall jump
        if o.bad { 7 } else { 0 },
    ];
    let mut cross: Vec<Vec<(usize, u32)>> = vec![vec![]; nt];
    let mut books: Vec<Book> = vec![];
    let vspan = if nt > 8 { 30_000 } else { 60_000u64 };
    let vbase = if rng.chance(1, 4) { 100_000_000 - nt as u64 * vspan } else { b.next_vid + 500 };
    for t in 0..nt {
        let mut bk = b.fork();
        bk.next_vid = vbase + vspan * t as u64;
        bk.lim_vid = bk.next_vid + vspan;
        if rng.chance(1, 3) { bk.next_vid += vspan - rng.range(1, 40); }
        let mut ops: Vec<Op> = vec![];
        let n = if deep { rng.range(20, 250) } else { rng.range(o.ops.0, o.ops.1) } as usize;
        let mut open: Vec<u32> = vec![];
        let base_tid = *rng.pick(&[t as u32 + 1, (t as u32 + 1) * 1000, u32::MAX - t as u32]);
        for _ in 0..n {
            let i = ops.len();
            let uniq = 0x4000_0000 | (t as u32) << 16 | i as u32;
            let tid = if o.real_tids || rng.chance(1, 3) { base_tid } else { uniq };
            let me = opid(t + 1, i);
            if i > 0 { let last = ops[i - 1].clone(); note(&mut bk, opid(t + 1, i - 1), &last); }
            match rng.weighted(&w) {
                0 => { let safe = rng.chance(1, 2); ops.push(str_op(rng, o, safe)); if safe { bk.plain.push(me) } else { bk.any.push(me) } }
                1 => { let op = comp_op(rng, &bk, o); ops.push(op); bk.any.push(me); }
                2 => { let op = eid_op(rng, &bk, o); ops.push(op); bk.eids.push(me); }
                3 => ops.push(Op::Instant { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid }),
                4 => { let v = *rng.pick(&[0, 1, 255, 256, 0xFFFF_FFFF, 0x1_0000_0000, MAXS, MAXS - 1, MAXS - 2, 0x1234_5678_9abc]); let v = if rng.chance(1, 2) { v } else { rng.below(MAXS + 1) }; ops.push(Op::Integer { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid, val: v }) }
                5 => { ops.push(Op::Begin { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid, detached: rng.chance(1, 5) }); open.push(me); }
                6 => {
                    if open.is_empty() { continue; }
                    let k = if rng.chance(3, 4) { open.len() - 1 } else { rng.idx(open.len()) };
                    let bg = open.remove(k);
                    let over = if rng.chance(1, 5) { Some(eid_id(rng, &bk, o)) } else { None };
                    let over = if matches!(ops[op_index(bg)], Op::Begin { detached: true, .. }) { None } else { over };
                    ops.push(Op::End { begin: bg, over });
                }
                7 => {
                    // finished by any thread
                    ops.push(Op::Begin { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid: uniq, detached: true });
                    let to = rng.idx(nt);
                    cross[to].push((i, me));
                    bk.detached.push(me);
                }
                8 => ops.push(Op::Unwind { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid }),
                9 => { let n = rng.range(1, 30) as u32; ops.push(Op::FillInt { kind: kind_id(rng, &bk, o), eid: eid_id(rng, &bk, o), tid, base: rng.below(1 << 40), n }) }
                10 => { if bk.next_vid + 1 > bk.lim_vid { continue; } let v = new_vid(rng, &mut bk, 1, 1); ops.push(Op::MapV { vid: v, to: *rng.pick(&bk.plain) }); bk.virts.push(v); }
                11 => {
                    let n = *rng.pick(&[0u32, 1, 2, 7, 8, 9, 16, 17, 100, 600]);
                    let step = *rng.pick(&[1u32, 1, 2, 5]);
                    if bk.next_vid + n as u64 * step as u64 > bk.lim_vid { continue; }
                    let v = new_vid(rng, &mut bk, n as u64, step as u64);
                    ops.push(Op::BulkV { start: v, n, step, to: *rng.pick(&bk.plain), single: n < 200 && rng.chance(1, 4) });
                    if n > 0 { bk.virts.push(v + rng.below(n as u64) * step as u64); }
                }
                12 => ops.push(Op::Advance { ns: *rng.pick(&[1, 10, 999, 1000, 1_000_000, 5_000_000_000]) }),
                13 => ops.push(Op::Yield),
                14 => ops.push(Op::WallJump { ns: rng.range(0, 10_000_000_000) as i64 - 5_000_000_000 }),
                _ => { let op = bad_op(rng, &mut bk, o, uniq); ops.push(op); }
            }
        }
        for bg in open.into_iter().rev() { if rng.chance(4, 5) { ops.push(Op::End { begin: bg, over: None }); } }
        p.threads.push(ops);
        books.push(bk);
    }
    // some threads give up their handle, not always peacefully
    if o.unwind_drop { for t in 0..nt { if cross.iter().all(|c| c.is_empty()) && rng.chance(1, 5) { p.threads[t].push(Op::DropProf { unwind: rng.chance(2, 3) }); } } }
    // ends on other threads
    for t in 0..nt {
        for (i, bg) in cross[t].clone() {
            let at = rng.range(i.min(p.threads[t].len()) as u64, p.threads[t].len() as u64) as usize;
            // inserting would shift slot numbers: append instead, or replace a Yield
            let _ = at;
            p.threads[t].push(Op::End { begin: bg, over: None });
        }
    }
    let all: Vec<u32> = books.iter().flat_map(|b| b.detached.iter().copied()).collect();
    for d in all { if rng.chance(2, 3) { p.post.push(Op::End { begin: d, over: None }); } }
    if rng.chance(1, 3) {
        for _ in 0..rng.below(6) {
            let i = p.post.len();
            p.post.push(Op::Instant { kind: Id::Slot(b.plain[0]), eid: eid_id(rng, &b, o), tid: 0x7000_0000 + i as u32 });
        }
    }
    p.main_drops_early = p.post.is_empty() && rng.chance(1, 2);
    p.pre_preempt = false;
    p
}

const WLENS: [u32; 26] = [0, 1, 2, 3, 31, 32, 33, 100, 127, 128, 129, 130, 1000, 4096, 65_536, 131_071, 131_072, 131_073, 131_200, 262_143, 262_144, 262_145, 262_272, 393_216, 524_288, 786_433];
pub fn wlen(rng: &mut Rng, budget: &mut i64) -> u32 {
    let l = if rng.chance(1, 5) { *rng.pick(&WLENS) } else if rng.chance(1, 12) { rng.range(100_000, 300_000) as u32 } else { WLENS[rng.idx(13)] };
    if *budget < l as i64 { return rng.below(64) as u32; }
    *budget -= l as i64;
    l
}
/// `calm`: the storage does not fail
pub fn sink_plan(prop: &str, seed: u64, rng: &mut Rng, file: bool, bad: bool, calm: bool) -> Plan {
    let mut p = Plan::new(prop, seed);
    p.session = if file { Session::SinksFile } else { Session::SinksMem };
    p.path = "/sim/raw".into();
    p.sinks = rng.range(1, 3) as u8;
    let mut budget: i64 = *rng.pick(&[20_000, 600_000, 2_500_000]);
    let ns = p.sinks as usize;
    // bring buffers close to a boundary
    for s in 0..ns {
        if rng.chance(1, 2) {
            let target = *rng.pick(&[131_072i64, 262_144, 262_144, 262_144 * 2]) - *rng.pick(&[0, 1, 2, 33, 127, 128, 129, 200, 1000]);
            if budget > target {
                budget -= target;
                let mut left = target;
                while left > 0 { let k = left.min(*rng.pick(&[128, 4096, 100_000, 131_072, 262_144])); p.pre.push(if k <= 262_144 && rng.chance(1, 2) { Op::WA { s: s as u8, len: k as u32 } } else { Op::WB { s: s as u8, len: k as u32 } }); left -= k; if p.pre.len() > 3000 { break; } }
            }
        }
    }
    let deep = rng.1 && rng.chance(1, 6);
    let nt = rng.range(1, if deep { 12 } else { 4 }) as usize;
    let w = [6, 6, if rng.chance(1, 2) { 4 } else { 0 }, if rng.chance(1, 3) { 2 } else { 0 }, if bad { 6 } else { 0 }, if file && rng.chance(1, 3) { 1 } else { 0 }, 1];
    for _ in 0..nt {
        let mut ops = vec![];
        let n = rng.range(2, if deep { 150 } else { 40 });
        for _ in 0..n {
            let s = rng.idx(ns) as u8;
            ops.push(match rng.weighted(&w) {
                0 => Op::WA { s, len: wlen(rng, &mut budget) },
                1 => Op::WB { s, len: wlen(rng, &mut budget) },
                2 => Op::SW { s, lens: (0..rng.range(1, 4)).map(|_| wlen(rng, &mut budget)).collect(), flush: rng.chance(1, 3) },
                3 => Op::SF { s },
                4 => { let len = *rng.pick(&[1u32, 9, 32, 128, 129, 1000, 131_072, 200_000, 262_144, 262_145, 300_000]); Op::WAPanic { s, len, fill: rng.below(len as u64 + 1) as u32 } }
                5 => Op::DropSink { s, unwind: calm && rng.chance(1, 2) },
                _ => Op::Yield,
            });
        }
        p.threads.push(ops);
    }
    if file && calm { for t in p.threads.iter_mut() { if rng.chance(1, 4) { for s in 0..ns { t.push(Op::DropSink { s: s as u8, unwind: rng.chance(1, 2) }); } } } }
    if rng.chance(1, 3) { for _ in 0..rng.range(1, 4) { let s = rng.idx(ns) as u8; p.post.push(Op::WB { s, len: wlen(rng, &mut budget) }); } }
    p.main_drops_early = file && p.post.is_empty() && rng.chance(1, 3);
    p
}

// ---- properly nested sessions --------------------------------------------------------------------
pub struct Nest { pub threads: (u64, u64), pub ops: (u64, u64), pub v8: bool, pub newlines: bool, pub fill: bool }
impl Default for Nest { fn default() -> Nest { Nest { threads: (1, 5), ops: (2, 40), v8: false, newlines: false, fill: true } } }
pub const RUSTC_KINDS: [&str; 7] = ["Query", "GenericActivity", "IncrementalLoadResult", "IncrementalResultHashing", "QueryBlocked", "QueryCacheHit", "ArtifactSize"];

/// The intervals of each thread nest properly and carry a thread id of their own; labels repeat.
pub fn nested_plan(prop: &str, seed: u64, rng: &mut Rng, o: &Nest) -> Plan {
    let mut p = Plan::new(prop, seed);
    p.session = if o.v8 { Session::ProfilerV8 } else { Session::Profiler };
    p.path = "/sim/trace".into();
    let put = |p: &mut Plan, s: &str| { p.pre.push(Op::Text { s: s.into() }); opid(T_PRE, p.pre.len() - 1) };
    let mut kinds: Vec<u32> = RUSTC_KINDS.iter().map(|k| put(&mut p, k)).collect();
    for k in ["Linking", "query"] { if rng.chance(1, 2) { kinds.push(put(&mut p, k)); } }
    let mut pool: Vec<String> = ["typeck", "mir_borrowck", "codegen_module", "parse crate", "incr_comp_load", "LLVM_passes", "a", "b", "é∂\u{1F980}", "<x&y>", "q\"uote'", "back\\slash", "tab\there", "form\u{c}feed", "semi;colon", "rustc", "null", "1e5", "self_time", " lead", "trail ", "@x@", " ", "\t ", "   "].iter().map(|s| s.to_string()).collect();
    pool.push("x".repeat(130));
    if o.newlines { pool.push("\n".into()); pool.push("two\nlines".into()); pool.push("cr\r\n".into()); }
    let rich = rng.chance(1, 12);
    let nl = if rich { rng.range(20, 300) } else { rng.range(1, 7) } as usize;
    let texts: Vec<u32> = (0..nl).map(|i| { let s = if rich { format!("{}{}", *rng.pick(&["query_", "q", "::", "zz"]), i * 7 % 311) } else { rng.pick(&pool).clone() }; put(&mut p, &s) }).collect();
    let argt: Vec<u32> = (0..rng.range(1, 3)).map(|i| { let s = if rng.chance(1, 3) { rng.pick(&pool).clone() } else { format!("arg{i}::<T>") }; put(&mut p, &s) }).collect();
    let mut labels: Vec<Id> = texts.iter().map(|t| Id::Slot(*t)).collect();
    for _ in 0..rng.range(0, 5) {
        let label = Id::Slot(*rng.pick(&texts));
        let args: Vec<Id> = (0..rng.weighted(&[1, 4, 2, 1, 1])).map(|_| Id::Slot(*rng.pick(&argt))).collect();
        let single = args.len() == 1 && rng.chance(1, 2);
        p.pre.push(Op::Eid { label, args, single });
        labels.push(Id::Slot(opid(T_PRE, p.pre.len() - 1)));
    }
    // the same label behind a virtual id
    for v in 0..rng.below(3) { let to = *rng.pick(&texts); p.pre.push(Op::MapV { vid: 500 + v, to }); labels.push(Id::Virt(500 + v)); }
    if o.fill && rng.chance(1, 6) { let n = rng.range(8150, 8200) as u32; let (k, e) = (Id::Slot(kinds[*rng.pick(&[6, 0, 1])]), rng.pick(&labels).clone()); p.pre.push(Op::FillInt { kind: k, eid: e, tid: 0xF111_0000, base: rng.below(1 << 40), n }); }
    clocks(rng, &mut p);
    if rng.chance(1, 3) { p.sim.p_tick = 255; p.sim.tick_max = p.sim.tick_max.max(1); }
    let w = [8, 8, if rng.chance(2, 3) { 3 } else { 0 }, if rng.chance(2, 3) { 2 } else { 0 }, 5, if rng.chance(1, 2) { 2 } else { 0 }, 1];
    let deep = rng.chance(1, 4);
    let kmix: Vec<u32> = (0..rng.range(1, 6)).map(|_| *rng.pick(&kinds)).collect();
    let nt = rng.range(o.threads.0, o.threads.1) as usize;
    let nt = if o.ops.1 > 4 && rng.chance(1, if rng.1 { 12 } else { 60 }) { rng.range(7, 16) as usize } else { nt };
    let span = if o.ops.1 >= 30 && rng.chance(1, if rich { 8 } else if rng.1 { 15 } else { 50 }) { (200, if rng.1 { 2000 } else { 700 }) } else { o.ops };
    let mut tids: Vec<u32> = vec![];
    while tids.len() <= nt { let t = tids.len() as u32; let x = *rng.pick(&[t, t + 1, t + 1, t + 1, 1000 + t, u32::MAX - t, 0x8000_0000 + t, 0x1_0000 + t]); if !tids.contains(&x) { tids.push(x); } }
    let mut gen_thread = |rng: &mut Rng, t: usize, tid: u32, n: usize| {
        let mut ops: Vec<Op> = vec![];
        let mut open: Vec<(u32, bool)> = vec![];
        for _ in 0..n {
            let me = opid(t, ops.len());
            let kind = Id::Slot(*rng.pick(&kmix));
            let eid = rng.pick(&labels).clone();
            let mut w = w;
            if deep { w[1] = 3; }
            match rng.weighted(&w) {
                0 => { let d = rng.chance(1, 4); ops.push(Op::Begin { kind, eid, tid, detached: d }); open.push((me, d)); }
                1 => if let Some((b, d)) = open.pop() {
                    if rng.chance(1, 15) { continue; } // never finished
                    ops.push(Op::End { begin: b, over: if !d && rng.chance(1, 6) { Some(eid) } else { None } });
                },
                2 => ops.push(Op::Instant { kind: if rng.chance(2, 3) { Id::Slot(kinds[5]) } else { kind }, eid, tid }),
                3 => ops.push(Op::Integer { kind: if rng.chance(2, 3) { Id::Slot(kinds[6]) } else { kind }, eid, tid, val: *rng.pick(&[0, 1, 1000, (1 << 32) + 7, MAXS]) }),
                4 => ops.push(Op::Advance { ns: *rng.pick(&[1, 10, 499, 500, 999, 1000, 1500, 1_000_000, 5_000_000_000, 3_600_000_000_000]) }),
                5 => { let len = *rng.pick(&[1, 9, 129, 600]); ops.push(Op::Str { len, kind: 0 }) }
                _ => ops.push(Op::Yield),
            }
        }
        while let Some((b, _)) = open.pop() { if rng.chance(9, 10) { ops.push(Op::End { begin: b, over: None }); } if rng.chance(1, 3) { ops.push(Op::Advance { ns: *rng.pick(&[1, 1000, 77_777]) }); } }
        ops
    };
    for t in 0..nt { let n = if span == o.ops || t == 0 { rng.range(span.0, span.1) } else { rng.range(o.ops.0, o.ops.1) } as usize; let ops = gen_thread(rng, t + 1, tids[t], n); p.threads.push(ops); }
    if rng.chance(1, 4) { let n = rng.range(o.ops.0, o.ops.1) as usize / 2; p.post = gen_thread(rng, T_POST, tids[nt], n); }
    sched(rng, &mut p);
    p
}
