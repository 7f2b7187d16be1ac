//! Reference model: an independent reading of the documented file format, and the ledger of what a
//! plan recorded according to the operation records.
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub const MAX_PAGE: usize = 256 * 1024;
pub const METADATA_ID: u64 = 100_000_001;
pub const FIRST_ID: u64 = 100_000_003;
pub const MAX_SINGLE: u64 = (1 << 48) - 1;
pub const MAX_INTERVAL: u64 = (1 << 48) - 3;

#[derive(Clone, Debug)]
pub struct V { pub class: String, pub msg: String }
pub type Check = Result<(), V>;
pub fn fail<T>(class: &str, msg: String) -> Result<T, V> { Err(V { class: class.to_string(), msg }) }
#[macro_export]
macro_rules! ensure { ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return $crate::refmodel::fail($class, format!($($a)*)); } } }

// ---- pages ---------------------------------------------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct Pages {
    pub header: bool,
    /// (tag, offset of content, length)
    pub pages: Vec<(u8, usize, usize)>,
    /// bytes of an incomplete page at the end (header included)
    pub tail: usize,
    pub bad: Option<String>,
}
pub fn parse_pages(d: &[u8], with_header: bool) -> Pages {
    let mut p = Pages::default();
    let mut pos = 0;
    if with_header {
        if d.len() < 8 { p.tail = d.len(); return p; }
        if &d[..4] != b"MMPD" { p.bad = Some(format!("file magic {:?}", &d[..4])); return p; }
        p.header = true;
        pos = 8;
    }
    while pos < d.len() {
        if d[pos] > 2 { p.bad = Some(format!("page tag {} at offset {}", d[pos], pos)); return p; }
        if d.len() - pos < 5 { p.tail = d.len() - pos; return p; }
        let n = u32::from_le_bytes(d[pos + 1..pos + 5].try_into().unwrap()) as usize;
        if n == 0 || n > MAX_PAGE { p.bad = Some(format!("page size {} at offset {}", n, pos)); return p; }
        if d.len() - pos < 5 + n { p.tail = d.len() - pos; return p; }
        p.pages.push((d[pos], pos + 5, n));
        pos += 5 + n;
    }
    p
}
pub fn streams(d: &[u8], p: &Pages) -> [Vec<u8>; 3] {
    let mut s = [vec![], vec![], vec![]];
    for (t, o, n) in &p.pages { s[*t as usize].extend_from_slice(&d[*o..*o + *n]); }
    s
}
/// Streams of a finished file; an error when it is not a header followed by whole pages.
pub fn finished_streams(d: &[u8]) -> Result<[Vec<u8>; 3], String> {
    let p = parse_pages(d, true);
    if let Some(b) = p.bad { return Err(b); }
    if !p.header { return Err(format!("no file header ({} bytes)", d.len())); }
    if p.tail != 0 { return Err(format!("{} bytes of an incomplete page at the end", p.tail)); }
    Ok(streams(d, &p))
}

// ---- string table --------------------------------------------------------------------------------
pub struct RefStrings<'a> { pub data: &'a [u8], pub index: HashMap<u64, u64>, pub v8: bool }
impl<'a> RefStrings<'a> {
    pub fn new(data: &'a [u8], idx: &[u8], v8: bool) -> RefStrings<'a> {
        let mut index = HashMap::new();
        let w = if v8 { 8 } else { 16 };
        for c in idx.get(8..).unwrap_or(&[]).chunks_exact(w) {
            let (a, b) = c.split_at(w / 2);
            let rd = |x: &[u8]| if v8 { u32::from_le_bytes(x.try_into().unwrap()) as u64 } else { u64::from_le_bytes(x.try_into().unwrap()) };
            index.insert(rd(a), rd(b));
        }
        RefStrings { data, index, v8 }
    }
    /// Where the text of an id begins; `None` if it stands for the placeholder
    fn addr(&self, id: u64) -> Option<usize> {
        if id <= METADATA_ID { self.index.get(&id).map(|a| *a as usize) } else { id.checked_sub(FIRST_ID).map(|a| a as usize) }
    }
    pub fn get(&self, id: u64) -> Option<Vec<u8>> {
        let mut out = vec![];
        let mut stack = vec![];
        let mut next = Some(id);
        loop {
            if let Some(id) = next.take() {
                match self.addr(id) {
                    Some(a) => stack.push(a),
                    None => out.extend(b"<unknown>"),
                }
                if stack.len() > 5000 { return None; }
            }
            let Some(pos) = stack.last_mut() else { return Some(out) };
            match *self.data.get(*pos)? {
                0xFF => { stack.pop(); }
                0xFE => {
                    let w = if self.v8 { 4 } else { 8 };
                    let b = self.data.get(*pos + 1..*pos + 1 + w)?;
                    next = Some(if self.v8 { u32::from_le_bytes(b.try_into().unwrap()) as u64 } else { u64::from_le_bytes(b.try_into().unwrap()) });
                    *pos += 1 + w;
                }
                b => { out.push(b); *pos += 1; }
            }
        }
    }
}

// ---- events --------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pay { Instant(u64), Integer(u64), Interval(u64, u64) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev { pub kind: String, pub label: String, pub args: Vec<String>, pub tid: u32, pub pay: Pay }
fn off(t: std::time::SystemTime, start: std::time::SystemTime) -> u64 {
    match t.duration_since(start) { Ok(d) => d.as_nanos() as u64, Err(_) => u64::MAX }
}
pub fn conv_payload(p: &analyzeme::EventPayload, start: std::time::SystemTime) -> Pay {
    match p {
        analyzeme::EventPayload::Integer(v) => Pay::Integer(*v),
        analyzeme::EventPayload::Timestamp(analyzeme::Timestamp::Instant(t)) => Pay::Instant(off(*t, start)),
        analyzeme::EventPayload::Timestamp(analyzeme::Timestamp::Interval { start: s, end: e }) => Pay::Interval(off(*s, start), off(*e, start)),
    }
}
pub fn conv_event(e: &analyzeme::Event<'_>, start: std::time::SystemTime) -> Ev {
    Ev { kind: e.event_kind.to_string(), label: e.label.to_string(), args: e.additional_data.iter().map(|a| a.to_string()).collect(), tid: e.thread_id, pay: conv_payload(&e.payload, start) }
}
#[derive(Clone, Debug)]
pub struct Read { pub events: Vec<Ev>, pub start: u64, pub pid: u32, pub cmd: String }
#[derive(Clone, Debug)]
pub enum ReadErr { Err(String), Panic(String) }
impl ReadErr { pub fn text(&self) -> String { match self { ReadErr::Err(e) => format!("error: {e}"), ReadErr::Panic(p) => format!("panic: {p}") } } }
pub fn pmsg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}
pub fn guarded<T>(f: impl FnOnce() -> Result<T, ReadErr>) -> Result<T, ReadErr> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(p) => Err(ReadErr::Panic(pmsg(p))) }
}
pub fn read_with_lib(data: &[u8]) -> Result<Read, ReadErr> {
    guarded(|| {
        let d = analyzeme::ProfilingData::from_paged_buffer(data.to_vec(), None).map_err(|e| ReadErr::Err(e.to_string()))?;
        Ok(collect(&d))
    })
}
pub fn collect(d: &analyzeme::ProfilingData) -> Read {
    let m = d.metadata();
    let start = m.start_time;
    let events = d.iter_full().map(|e| conv_event(&e, start)).collect();
    Read { events, start: off(start, std::time::UNIX_EPOCH), pid: m.process_id, cmd: m.cmd.clone() }
}
/// What a reader sees in the file `path`, as text.
pub fn read_digest(path: &str) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| match analyzeme::ProfilingData::new(Path::new(path)) {
        Err(_) => "ERR".to_string(),
        Ok(d) => {
            let r = collect(&d);
            let mut h = 0u64;
            for e in &r.events { h = mix64(h ^ hash_str(&format!("{:?}", e))); }
            format!("OK n={} start={} pid={} cmd={:016x} ev={:016x}", r.events.len(), r.start, r.pid, hash_str(&r.cmd), h)
        }
    }));
    r.unwrap_or_else(|p| format!("PANIC {}", pmsg(p)))
}
pub fn digest_of(r: &Read) -> String {
    let mut h = 0u64;
    for e in &r.events { h = mix64(h ^ hash_str(&format!("{:?}", e))); }
    format!("OK n={} start={} pid={} cmd={:016x} ev={:016x}", r.events.len(), r.start, r.pid, hash_str(&r.cmd), h)
}
pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); h = mix64(h ^ u64::from_le_bytes(x) ^ ((c.len() as u64) << 56)); }
    h
}

// ---- ledger --------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Exp {
    pub op: u32,
    pub kind: String,
    pub label: String,
    pub args: Vec<String>,
    pub tid: u32,
    pub pay: ExpPay,
    pub start: u64,
    pub end: u64,
    /// completed for certain (otherwise it may or may not be in the trace)
    pub sure: bool,
}
#[derive(Clone, Debug)]
pub enum ExpPay { Integer(u64), Instant(i64, i64), Interval(i64, i64, i64, i64) }

pub struct Ledger<'a> {
    pub plan: &'a Plan,
    pub out: &'a Outcome,
    texts: std::cell::RefCell<HashMap<u32, Option<std::rc::Rc<Texts>>>>,
    pub virt: BTreeMap<u64, u32>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Texts { pub full: String, pub label: String, pub args: Vec<String> }

impl<'a> Ledger<'a> {
    pub fn new(plan: &'a Plan, out: &'a Outcome) -> Ledger<'a> {
        let mut virt = BTreeMap::new();
        for (id, op) in plan.all_ops() {
            if out.rec(id).status != S_DONE { continue; }
            match op {
                Op::MapV { vid, to } => { virt.insert(*vid, *to); }
                Op::BulkV { start, n, step, to, .. } => { for i in 0..*n as u64 { virt.insert(*start + i * *step as u64, *to); } }
                _ => {}
            }
        }
        Ledger { plan, out, texts: Default::default(), virt }
    }
    pub fn id_texts(&self, i: &Id) -> Option<std::rc::Rc<Texts>> {
        match i {
            Id::Slot(s) => self.slot(*s),
            Id::Virt(v) => match self.virt.get(v) {
                Some(s) => self.slot(*s),
                None => Some(std::rc::Rc::new(Texts { full: "<unknown>".into(), label: "<unknown>".into(), args: vec![] })),
            },
        }
    }
    pub fn slot(&self, s: u32) -> Option<std::rc::Rc<Texts>> {
        if let Some(t) = self.texts.borrow().get(&s) { return t.clone(); }
        let r = self.out.rec(s);
        let t = if r.status != S_DONE { None } else { self.compute(s, r) };
        let t = t.map(std::rc::Rc::new);
        self.texts.borrow_mut().insert(s, t.clone());
        t
    }
    fn compute(&self, s: u32, r: OpRec) -> Option<Texts> {
        let plain = |x: String| Some(Texts { label: x.clone(), full: x, args: vec![] });
        match self.plan.op(s)? {
            Op::Str { len, kind } => plain(text(s, *len as usize, *kind)),
            Op::Text { s } => plain(s.clone()),
            Op::PadTo { .. } => plain(text(s, r.r1 as usize, 0)),
            Op::Comp { parts, .. } => {
                let mut x = String::new();
                for (k, p) in parts.iter().enumerate() {
                    match p {
                        Part::Val(l) => x.push_str(&text(s.wrapping_mul(31).wrapping_add(k as u32), *l as usize, 1)),
                        Part::Ref(o) => x.push_str(&self.slot(*o)?.full),
                        Part::Virt(v) => x.push_str(&self.id_texts(&Id::Virt(*v))?.full),
                    }
                }
                plain(x)
            }
            Op::CompRel { r: o, .. } => plain(format!("{}{}", self.slot(*o)?.full, text(s, r.r1 as usize, 0))),
            Op::Eid { label, args, .. } => {
                let l = self.id_texts(label)?;
                let mut t = Texts { full: l.full.clone(), label: l.label.clone(), args: l.args.clone() };
                for a in args {
                    let a = self.id_texts(a)?;
                    t.full.push('\x1E');
                    t.full.push_str(&a.full);
                    t.args.push(a.full.clone());
                }
                Some(t)
            }
            _ => None,
        }
    }
    fn ev(&self, op: u32, kind: &Id, eid: &Id, tid: u32, pay: ExpPay, r: OpRec, sure: bool) -> Option<Exp> {
        let k = self.id_texts(kind)?;
        let e = self.id_texts(eid)?;
        Some(Exp { op, kind: k.full.clone(), label: e.label.clone(), args: e.args.clone(), tid, pay, start: r.start, end: r.end, sure })
    }
    /// Everything the completed (or, with `maybe`, also the interrupted) calls recorded.
    pub fn expected(&self, maybe: bool) -> Vec<Exp> {
        let mut v = vec![];
        for (id, op) in self.plan.all_ops() {
            let mut r = self.out.rec(id);
            let sure = r.status == S_DONE;
            if !sure && !(maybe && (r.status == S_STARTED || r.status == S_PANIC)) { continue; }
            if !sure { r.end = u64::MAX; if r.status == S_STARTED { r.t1 = i64::MAX / 2; } }
            match op {
                Op::Instant { kind, eid, tid } => v.extend(self.ev(id, kind, eid, *tid, ExpPay::Instant(r.t0, r.t1), r, sure)),
                Op::Integer { kind, eid, tid, val } => v.extend(self.ev(id, kind, eid, *tid, ExpPay::Integer(*val), r, sure)),
                Op::FillInt { kind, eid, tid, base, n } => {
                    if let Some(e) = self.ev(id, kind, eid, *tid, ExpPay::Integer(0), r, sure) {
                        for i in 0..*n as u64 { let mut e = e.clone(); e.pay = ExpPay::Integer(*base + i); v.push(e); }
                    }
                }
                Op::End { begin, over } => {
                    let b = self.out.rec(*begin);
                    if let Some(Op::Begin { kind, eid, tid, .. }) = self.plan.op(*begin) {
                        if sure || b.status == S_DONE {
                            let eid = match over { Some(o) if r.r1 == 1 || !sure => o, _ => eid };
                            v.extend(self.ev(id, kind, eid, *tid, ExpPay::Interval(b.t0, b.t1, r.t0, r.t1), r, sure));
                        }
                    }
                }
                Op::Unwind { kind, eid, tid } => v.extend(self.ev(id, kind, eid, *tid, ExpPay::Interval(r.t0, r.t1, r.t0, r.t1), r, sure)),
                _ => {}
            }
        }
        v
    }
}
pub fn same_content(e: &Ev, x: &Exp, zero: (i64, i64)) -> bool {
    e.tid == x.tid && e.kind == x.kind && e.label == x.label && e.args == x.args && pay_ok(&e.pay, &x.pay, zero)
}
/// `zero` bounds the clock value at creation
pub fn pay_ok(p: &Pay, x: &ExpPay, zero: (i64, i64)) -> bool {
    let within = |v: u64, a: i64, b: i64| (v as i64) >= a - zero.1 && (v as i64) <= b - zero.0;
    match (p, x) {
        (Pay::Integer(a), ExpPay::Integer(b)) => a == b,
        (Pay::Instant(t), ExpPay::Instant(a, b)) => within(*t, *a, *b),
        (Pay::Interval(s, e), ExpPay::Interval(a, b, c, d)) => s <= e && within(*s, *a, *b) && within(*e, *c, *d),
        _ => false,
    }
}
pub fn exp_text(x: &Exp) -> String { format!("op {}:{} kind={:?} label={:?} args={} tid={} {:?}", op_thread(x.op), op_index(x.op), short(&x.kind), short(&x.label), x.args.len(), x.tid, x.pay) }
pub fn ev_text(x: &Ev) -> String { format!("kind={:?} label={:?} args={:?} tid={} {:?}", short(&x.kind), short(&x.label), x.args.iter().map(|a| short(a)).collect::<Vec<_>>(), x.tid, x.pay) }
pub fn short(s: &str) -> String { if s.len() <= 40 { s.to_string() } else { format!("{}…({} bytes)", s.chars().take(24).collect::<String>(), s.len()) } }

/// Matches decoded events with the ledger. `exact`: nothing may be missing.
/// Returns the ledger entry of each event.
pub fn match_events(events: &[Ev], exp: &[Exp], zero: (i64, i64), exact: bool) -> Result<Vec<usize>, V> {
    let mut by: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, x) in exp.iter().enumerate() { by.entry(x.tid).or_default().push(i); }
    for v in by.values_mut() { v.sort_by_key(|i| exp[*i].start); }
    let mut next: HashMap<u32, usize> = HashMap::new();
    let mut out = vec![];
    for (n, e) in events.iter().enumerate() {
        let list = match by.get(&e.tid) { Some(l) => l, None => return fail("event-invented", format!("event {n} was never recorded: {}", ev_text(e))) };
        let pos = next.entry(e.tid).or_insert(0);
        // calls that did not complete may be absent
        while *pos < list.len() && !exp[list[*pos]].sure && !same_content(e, &exp[list[*pos]], zero) { *pos += 1; }
        if *pos >= list.len() {
            let dup = list.iter().any(|i| same_content(e, &exp[*i], zero));
            return fail(if dup { "event-duplicated" } else { "event-invented" }, format!("event {n} is one too many for its thread: {}", ev_text(e)));
        }
        let x = &exp[list[*pos]];
        if !same_content(e, x, zero) {
            let later = list[*pos..].iter().any(|i| same_content(e, &exp[*i], zero));
            let earlier = list[..*pos].iter().any(|i| same_content(e, &exp[*i], zero));
            let class = if later { "event-lost" } else if earlier { "event-duplicated" } else { "event-altered" };
            return fail(class, format!("event {n} is {} but the next one recorded on that thread is {}", ev_text(e), exp_text(x)));
        }
        out.push(list[*pos]);
        *pos += 1;
    }
    if exact {
        for (t, l) in &by {
            let done = next.get(t).copied().unwrap_or(0);
            if let Some(i) = l[done..].iter().find(|i| exp[**i].sure) {
                return fail("event-lost", format!("no event in the trace for {} ({} events decoded, {} recorded)", exp_text(&exp[*i]), events.len(), exp.iter().filter(|x| x.sure).count()));
            }
        }
    }
    // real-time order
    let mut max_start = (0u64, 0usize);
    for (n, i) in out.iter().enumerate() {
        let x = &exp[*i];
        if x.end < max_start.0 {
            return fail("event-order", format!("{} finished (step {}) before {} began (step {}) but comes after it in the trace", exp_text(x), x.end, exp_text(&exp[out[max_start.1]]), max_start.0));
        }
        if x.start > max_start.0 { max_start = (x.start, n); }
    }
    Ok(out)
}
