//! A plan fully describes one simulated execution.
use crate::ffi::*;
use serde::{Deserialize, Serialize};

pub const T_PRE: usize = 0; // ops run by the main task before the threads start
pub const T_POST: usize = MAX_THREADS - 1; // ops run by the main task after joining them
/// pseudo op ids for the constructor and the final drop by the main task
pub fn opid(t: usize, i: usize) -> u32 { (t * OPS_PER_THREAD + i) as u32 }
pub const OP_NEW: u32 = (MAX_THREADS - 2) as u32 * OPS_PER_THREAD as u32;
pub const OP_MAIN_DROP: u32 = OP_NEW + 1;
pub const OP_READ: u32 = OP_NEW + 2;
pub const OP_SPAWN: u32 = OP_NEW + 3;
pub const OP_CTR: u32 = OP_NEW + 4;
/// constructor and last drop of the second session
pub const OP_NEW2: u32 = OP_NEW + 5;
pub const OP_MAIN_DROP2: u32 = OP_NEW + 6;
/// nothing is left of the session
pub const OP_OVER: u32 = OP_NEW + 7;
/// record used for the drop of thread t's handle
pub fn op_drop(t: usize) -> u32 { OP_NEW + 16 + t as u32 }
/// drop of thread t's handle of raw sink s
pub fn op_drop_sink(t: usize, s: usize) -> u32 { OP_NEW + 128 + (s * 32 + t) as u32 }
/// drop of the main task's handle of raw sink s
pub fn op_main_drop_sink(s: usize) -> u32 { OP_MAIN_DROP + 64 + s as u32 }
pub fn pseudo_ops() -> Vec<u32> {
    let mut v = vec![OP_NEW, OP_MAIN_DROP, OP_READ, OP_SPAWN, OP_CTR, OP_NEW2, OP_MAIN_DROP2, OP_OVER];
    for t in 0..MAX_THREADS { v.push(op_drop(t)); for s in 0..4 { v.push(op_drop_sink(t, s)); } }
    for s in 0..8 { v.push(op_main_drop_sink(s)); }
    v
}
pub fn op_thread(id: u32) -> usize { id as usize / OPS_PER_THREAD }
pub fn op_index(id: u32) -> usize { id as usize % OPS_PER_THREAD }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Id {
    Slot(u32),
    Virt(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Val(u32),
    Ref(u32),
    Virt(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Nop,
    // ---- profiler
    Str { len: u32, kind: u8 },
    /// exactly this text
    Text { s: String },
    Comp { parts: Vec<Part>, fixed: bool },
    CompRel { r: u32, delta: i32 },
    PadTo { modulus: u32, rem: u32 },
    MapV { vid: u64, to: u32 },
    BulkV { start: u64, n: u32, step: u32, to: u32, /** one call each */ #[serde(default)] single: bool },
    Eid { label: Id, args: Vec<Id>, single: bool },
    Instant { kind: Id, eid: Id, tid: u32 },
    Integer { kind: Id, eid: Id, tid: u32, val: u64 },
    Begin { kind: Id, eid: Id, tid: u32, detached: bool },
    End { begin: u32, over: Option<Id> },
    Unwind { kind: Id, eid: Id, tid: u32 },
    FillInt { kind: Id, eid: Id, tid: u32, base: u64, n: u32 },
    Advance { ns: u64 },
    WallJump { ns: i64 },
    Yield,
    BadStr { len: u32, at: u32 },
    BadIter { start: u64, n: u32, at: u32, to: u32 },
    BadInt { kind: Id, eid: Id, tid: u32, val: u64 },
    BadMap { vid: u64, to: u32, bulk: bool },
    BadTarget { vid: u64, bulk: bool },
    // ---- raw sinks
    WA { s: u8, len: u32 },
    WB { s: u8, len: u32 },
    SW { s: u8, lens: Vec<u32>, flush: bool },
    SF { s: u8 },
    WAPanic { s: u8, len: u32, fill: u32 },
    /// more zeroes than anything else writes, ended by a byte naming the thread; form 0 callback, 1 slice, 2 standard writer
    HugeW { s: u8, len: u64, form: u8 },
    /// a string of NULs that ends at stream address `to`
    HugeS { to: u64 },
    /// the same kind of call over and over
    Many { what: u8, n: u32, len: u32, s: u8, v: u64, to: u32 },
    /// gives this thread's handle up, possibly while a panic unwinds
    DropSink { s: u8, #[serde(default)] unwind: bool },
    DropProf { unwind: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Session {
    Profiler,
    ProfilerV8,
    SinksMem,
    SinksFile,
    /// a profiler with a counter obtained by name, on simulated counter hardware
    ProfilerHw,
    /// nothing is recorded; only `read` is executed
    ReadOnly,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct FaultSpec { pub task: u32, pub cls: u32, pub idx: u64, pub kind: u32, pub arg: u64 }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct DiskSpec { pub cap: u64, pub err: u32, pub calls: u64, /** only below /sim/bad/ */ #[serde(default)] pub only: bool }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct SimParams {
    pub seed: u64,
    pub policy: u32,
    pub mean: u64,
    pub horizon: u64,
    pub pct_depth: u32,
    pub p_sys: u32,
    pub p_short: u32,
    pub p_eintr: u32,
    pub p_spurious: u32,
    pub max_steps: u64,
    pub crash_step: u64,
    pub mono0: i64,
    pub wall0: i64,
    pub tick_max: u64,
    pub p_tick: u32,
    pub p_walljump: u32,
    pub pid: u32,
    pub disk: Vec<DiskSpec>,
    pub faults: Vec<FaultSpec>,
    /// a large session: zeroes in the middle of writes are not logged and files are not kept
    #[serde(default)]
    pub keep: u64,
    /// explicit schedule, used with POL_REPLAY
    pub switches: Vec<(u32, u32, u64)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct HwPage { pub at: u64, pub index: u32, pub width: u32, pub caps: u64 }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct HwEvent { pub open_err: u32, pub map_err: u32, pub base: u64, pub pages: Vec<HwPage> }
/// A second session in the same process. The first `na` threads of the plan belong to the first session, the next `na`
/// to this one (real thread k executes threads k and na + k), and thread 2 na is what this session does before its threads.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Twin {
    pub path: String,
    /// 0: created before the threads start, 1: after the first session is over, 2: by the first thread half-way,
    /// 3: by the only thread, after it dropped the first session, at the same address
    pub create: u8,
    pub na: usize,
    pub mix: u64,
}
/// the counter hardware and its driver
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Hw { pub name: String, pub vendor: Vec<u8>, pub version: u32, pub irq_config: u32, pub paranoid: u32, pub step_max: u32, pub p_irq: u32, pub events: Vec<HwEvent> }
impl Hw {
    pub fn cfg(&self) -> Box<SimPmu> {
        let mut c = Box::new(SimPmu::default());
        let mut v = self.vendor.clone(); v.resize(12, 0);
        let w = |i: usize| u32::from_le_bytes(v[i..i + 4].try_into().unwrap());
        c.vendor = [w(0), w(4), w(8)];
        c.version = self.version; c.irq_config = self.irq_config; c.paranoid = self.paranoid; c.step_max = self.step_max; c.p_irq = self.p_irq;
        for (i, e) in self.events.iter().take(PMU_EVENTS).enumerate() {
            let d = &mut c.ev[i];
            d.open_err = e.open_err; d.map_err = e.map_err; d.base = e.base & 0xffff_ffff_ffff; d.npage = e.pages.len().min(PMU_UPDATES) as u32;
            for (k, p) in e.pages.iter().take(PMU_UPDATES).enumerate() { d.page[k] = PmuPage { at: p.at, index: p.index, width: p.width, caps: p.caps }; }
        }
        c
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub session: Session,
    /// path stem for the profiler, or full path for a file-backed sink set
    pub path: String,
    /// directories that exist beforehand
    pub dirs: Vec<String>,
    /// files that exist beforehand
    #[serde(default)]
    pub files: Vec<(String, Vec<u8>)>,
    pub sinks: u8,
    pub argv: Vec<Vec<u8>>,
    /// main drops its handle before joining (true) or after
    pub main_drops_early: bool,
    /// preemption during the pre phase
    pub pre_preempt: bool,
    /// ops[0] = pre, ops[1..] = threads, last = post
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    /// leak the profiler instead of dropping it at the end (used for kill-before-drop histories)
    pub leak: bool,
    /// read the trace back inside the simulation (path as given to the reader)
    pub read: Option<String>,
    #[serde(default)]
    pub hw: Option<Hw>,
    #[serde(default)]
    pub twin: Option<Twin>,
    pub sim: SimParams,
    /// free-form parameters of the property's oracle
    pub extra: Vec<u64>,
    pub extra_s: Vec<String>,
}
impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(), seed, session: Session::Profiler, path: "/sim/trace".into(), dirs: vec![], files: vec![], sinks: 0, argv: vec![b"prog".to_vec()],
            main_drops_early: false, pre_preempt: false, pre: vec![], threads: vec![], post: vec![], leak: false, read: None, hw: None, twin: None,
            sim: SimParams { seed, mean: 100, max_steps: 400_000_000, mono0: 5_000_000_000, wall0: 1_600_000_000_000_000_000, pid: 4242, ..Default::default() },
            extra: vec![], extra_s: vec![],
        }
    }
    pub fn op(&self, id: u32) -> Option<&Op> {
        let (t, i) = (op_thread(id), op_index(id));
        if t == T_PRE { self.pre.get(i) } else if t == T_POST { self.post.get(i) } else { self.threads.get(t - 1).and_then(|v| v.get(i)) }
    }
    pub fn all_ops(&self) -> Vec<(u32, &Op)> {
        let mut v = vec![];
        for (i, o) in self.pre.iter().enumerate() { v.push((opid(T_PRE, i), o)); }
        for (t, ops) in self.threads.iter().enumerate() { for (i, o) in ops.iter().enumerate() { v.push((opid(t + 1, i), o)); } }
        for (i, o) in self.post.iter().enumerate() { v.push((opid(T_POST, i), o)); }
        v
    }
    pub fn trace_path(&self) -> String {
        match self.session {
            Session::Profiler | Session::ProfilerV8 | Session::ProfilerHw => {
                let p = std::path::Path::new(&self.path).with_extension("mm_profdata");
                p.to_str().unwrap().to_string()
            }
            _ => self.path.clone(),
        }
    }
    pub fn cfg(&self) -> Box<SimCfg> {
        let s = &self.sim;
        let mut c: Box<SimCfg> = unsafe { Box::new(std::mem::zeroed()) };
        c.seed = s.seed; c.policy = s.policy; c.mean = s.mean; c.horizon = s.horizon; c.pct_depth = s.pct_depth;
        c.p_short = s.p_short; c.p_eintr = s.p_eintr; c.p_spurious = s.p_spurious; c.max_steps = s.max_steps; c.crash_step = s.crash_step;
        c.mono0 = s.mono0; c.wall0 = s.wall0; c.tick_max = s.tick_max; c.p_tick = s.p_tick; c.p_walljump = s.p_walljump; c.pid = s.pid; c.p_sys = s.p_sys; c.keep = s.keep;
        for (i, d) in s.disk.iter().take(4).enumerate() { c.disk[i] = SimDisk { cap_bytes: d.cap, err: d.err, pad: d.only as u32, fail_calls: d.calls }; c.ndisk = i as u32 + 1; }
        for (i, f) in s.faults.iter().take(SIM_MAX_FAULTS).enumerate() { c.faults[i] = SimFault { task: f.task, cls: f.cls, idx: f.idx, kind: f.kind, pad: 0, arg: f.arg }; c.nfaults = i as u32 + 1; }
        c.nswitch = s.switches.len() as u32;
        c
    }
}

// ---- deterministic contents ---------------------------------------------------------------------
pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// Text of exactly `len` bytes, identified by `key` as far as the length permits.
pub fn text(key: u32, len: usize, kind: u8) -> String {
    let tok = format!("s{:x}.", key);
    let mut s = String::with_capacity(len + 8);
    match kind {
        0 => {
            while s.len() + tok.len() <= len { s.push_str(&tok); if s.len() > 64 { break; } }
            let fill = b"abcdefghijklmnopqrstuvwxyz0123456789";
            let mut h = mix64(key as u64 + 1);
            while s.len() < len { s.push(fill[(h % 36) as usize] as char); h = h.rotate_left(7).wrapping_mul(0x9E3779B97F4A7C15) ^ s.len() as u64; }
        }
        1 => {
            let cs = ['ä', '€', '漢', '😀', 'z', 'ß', '\u{7ff}', '\u{ffff}', '\u{10ffff}', '\u{a0}'];
            s.push_str(&tok[..tok.len().min(len)]);
            let mut h = mix64(key as u64 + 3);
            loop {
                let c = cs[(h % cs.len() as u64) as usize];
                if s.len() + c.len_utf8() > len { break; }
                s.push(c);
                h = mix64(h);
            }
            while s.len() < len { s.push('.'); }
        }
        2 => {
            let cs = [' ', '\t', '\n', 'q', ' ', '\r', '"', '\\', '{', ';', ',', '<', '&', '\u{c}'];
            s.push_str(&tok[..tok.len().min(len)]);
            let mut h = mix64(key as u64 + 5);
            while s.len() < len { s.push(cs[(h % cs.len() as u64) as usize]); h = mix64(h); }
        }
        _ => {
            let cs = ['\0', '\u{1}', '\u{7f}', '\u{1e}', '\u{80}', '\u{200b}', 'x', '\u{fffd}', '\u{fffe}', '\u{d7ff}', '\u{e000}'];
            let mut h = mix64(key as u64 + 7);
            loop {
                let c = cs[(h % cs.len() as u64) as usize];
                if s.len() + c.len_utf8() > len { break; }
                s.push(c);
                h = mix64(h);
            }
            while s.len() < len { s.push('\u{2}'); }
        }
    }
    debug_assert!(s.len() == len);
    s
}
/// Bytes of a raw write: the first byte names the thread, the rest depends on (op, chunk).
pub fn fill_bytes(key: u32, chunk: u32, out: &mut [u8]) {
    let mut h = mix64(((key as u64) << 16) ^ chunk as u64 ^ 0xABCD_0000_0000);
    let mut i = 0;
    let n = out.len();
    while i < n {
        let b = h.to_le_bytes();
        let k = (n - i).min(8);
        out[i..i + k].copy_from_slice(&b[..k]);
        i += k;
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        h ^= h >> 29;
    }
    if n > 0 { out[0] = op_thread(key) as u8 + 0x40; }
}
