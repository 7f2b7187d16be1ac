//! Runs one plan in a forked, fully simulated process and collects everything observable about it.
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit { Done, Crashed, Deadlock, Budget, Unsupported, Code(i32), Signal(i32), Hang }

#[derive(Clone, Debug)]
pub struct W { pub step: u64, pub task: u32, pub ino: usize, pub off: u64, pub len: u64, pub data: usize, pub err: u32, pub trunc: bool, /** bytes kept at either end, 0 when everything is */ pub keep: u64 }

pub struct Outcome {
    pub exit: Exit,
    pub note: String,
    pub recs: HashMap<u32, OpRec>,
    pub writes: Vec<W>,
    pub wdata: Vec<u8>,
    pub paths: Vec<String>,
    pub switches: Vec<(u32, u32, u64)>,
    pub fired: Vec<FaultSpec>,
    pub nfault: [u64; F_KINDS],
    pub steps: u64,
    pub nswitch: u64,
    pub sched_hash: u64,
    pub mono_span: u64,
    pub blobs: Vec<(u64, u64, Vec<u8>)>,
    pub wall_reads: Vec<(u64, u32, i64)>,
    pub io_calls: [u64; IO_CLASSES],
    pub ntasks: u32,
    pub dead_state: Vec<u32>,
    pub overflow: bool,
    /// accesses to performance counters: (kind, a, b, c, mark)
    pub pmc: Vec<(u32, u64, u64, u64, u64)>,
    /// the native CPU model was used
    pub native_cpu: bool,
    /// files that existed before
    pub initial: Vec<(usize, Vec<u8>)>,
}
impl Outcome {
    pub fn rec(&self, id: u32) -> OpRec { self.recs.get(&id).copied().unwrap_or_default() }
    pub fn ino(&self, path: &str) -> Option<usize> {
        let n = norm(path);
        // the most recently created one wins
        self.paths.iter().rposition(|p| *p == n)
    }
    /// contents after the first `n` log entries (the last one cut to `cut` bytes)
    pub fn image(&self, ino: usize, n: usize, cut: Option<u64>) -> Vec<u8> {
        let mut v: Vec<u8> = self.initial.iter().find(|x| x.0 == ino).map(|x| x.1.clone()).unwrap_or_default();
        if self.writes.iter().any(|w| w.keep > 0) { return self.sparse(ino, n); }
        for (k, w) in self.writes[..n].iter().enumerate() {
            if w.ino != ino || w.err != 0 { continue; }
            if w.trunc { v.resize(w.off as usize, 0); continue; }
            let len = if k + 1 == n { cut.unwrap_or(w.len).min(w.len) } else { w.len } as usize;
            let end = w.off as usize + len;
            if v.len() < end { v.resize(end, 0); }
            v[w.off as usize..end].copy_from_slice(&self.wdata[w.data..w.data + len]);
        }
        v
    }
    fn sparse(&self, ino: usize, n: usize) -> Vec<u8> {
        let end = self.writes[..n].iter().filter(|w| w.ino == ino && w.err == 0 && !w.trunc).map(|w| w.off + w.len).max().unwrap_or(0);
        let mut v = vec![0u8; end as usize];
        for (off, d) in self.stored(ino) { v[off as usize..off as usize + d.len()].copy_from_slice(d); }
        v
    }
    /// the pieces of a file that were logged; everything else is zero
    pub fn stored(&self, ino: usize) -> Vec<(u64, &[u8])> {
        let mut v = vec![];
        for w in self.writes.iter().filter(|w| w.ino == ino && w.err == 0 && !w.trunc) {
            if w.keep == 0 { v.push((w.off, &self.wdata[w.data..w.data + w.len as usize])); continue; }
            let k = w.keep as usize;
            v.push((w.off, &self.wdata[w.data..w.data + k]));
            v.push((w.off + w.len - w.keep, &self.wdata[w.data + k..w.data + 2 * k]));
        }
        v
    }
    pub fn file(&self, path: &str) -> Option<Vec<u8>> { self.ino(path).map(|i| self.image(i, self.writes.len(), None)) }
    pub fn signature(&self) -> u64 {
        let mut h = self.sched_hash ^ mix64(self.steps);
        for w in &self.writes { h = mix64(h ^ w.len ^ (w.task as u64) << 40 ^ (w.err as u64) << 50 ^ w.off); }
        for f in &self.fired { h = mix64(h ^ f.idx ^ (f.kind as u64) << 32 ^ (f.task as u64) << 48 ^ f.arg); }
        h
    }
}
pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') { if c.is_empty() || c == "." { continue; } out.push(c); }
    format!("/{}", out.join("/"))
}

pub struct Runner { pub shm: &'static Shm, pub guards: u64, pub cov: Vec<u8>, pub sims: u64, pub steps: u64, pub switches: u64, pub sim_ns: u64, pub faults: [u64; F_KINDS], pub io: [u64; IO_CLASSES], pub timeout: Duration, pub tool_runs: u64, pub tool_mem: Option<crate::tools::Mem> }
static mut SWITCHES: Vec<SimSwitch> = Vec::new();

impl Runner {
    pub fn new() -> Runner {
        if std::env::var_os("DST_STDERR").is_none() { std::panic::set_hook(Box::new(|_| {})); }
        Runner { shm: Box::leak(Box::new(Shm::new())), guards: unsafe { sim_guard_count() }, cov: vec![0; COV_LEN], sims: 0, steps: 0, switches: 0, sim_ns: 0, faults: [0; F_KINDS], io: [0; IO_CLASSES], timeout: Duration::from_secs(120), tool_runs: 0, tool_mem: None }
    }
    pub fn run(&mut self, plan: &Plan) -> Outcome {
        let shm = self.shm;
        let mut ids: Vec<u32> = plan.all_ops().iter().map(|x| x.0).collect();
        ids.extend(pseudo_ops());
        unsafe {
            for i in &ids { *shm.recs.add(*i as usize) = OpRec::default(); }
            *shm.blob_len = 0;
            (*shm.sh).state = ST_INIT;
            (*shm.sh).evn = 0;
            (*shm.sh).wdata_len = 0;
        }
        let cfg = plan.cfg();
        let sw: Vec<SimSwitch> = plan.sim.switches.iter().map(|x| SimSwitch { from: x.0, to: x.1, step: x.2 }).collect();
        unsafe { SWITCHES = sw; }
        let pid = unsafe { libc::fork() };
        if pid == 0 { unsafe { child(plan, shm, &cfg); } }
        assert!(pid > 0, "fork");
        let t0 = Instant::now();
        let mut status = 0;
        let mut hang = false;
        let mut naps = 0u32;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if r == pid { break; }
            if t0.elapsed() > self.timeout { unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); } hang = true; break; }
            naps += 1;
            if naps < 50 { std::thread::sleep(Duration::from_micros(100)); } else { std::thread::sleep(Duration::from_millis(1)); }
        }
        let sh = unsafe { &*shm.sh };
        let exit = if hang { Exit::Hang } else if libc::WIFSIGNALED(status) { Exit::Signal(libc::WTERMSIG(status)) } else {
            match libc::WEXITSTATUS(status) {
                0 => Exit::Done,
                83 => Exit::Crashed,
                84 => Exit::Deadlock,
                85 => Exit::Budget,
                86 => Exit::Unsupported,
                c => Exit::Code(c),
            }
        };
        let cstr = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())]).to_string();
        let mut o = Outcome {
            exit, note: cstr(&sh.note), recs: HashMap::with_capacity(ids.len()), writes: vec![], wdata: vec![], paths: vec![], switches: vec![], fired: vec![],
            nfault: sh.nfault, steps: sh.step, nswitch: sh.switches, sched_hash: sh.sched_hash, mono_span: (sh.mono - sh.mono_start).max(0) as u64,
            blobs: shm.blobs(), wall_reads: vec![], io_calls: sh.io_calls, ntasks: sh.ntasks, dead_state: sh.dead_state.to_vec(), overflow: sh.ev_overflow > 0, pmc: vec![], native_cpu: sh.probes[63] == 1, initial: vec![],
        };
        unsafe {
            for i in &ids { let r = *shm.recs.add(*i as usize); if r.status != S_NONE { o.recs.insert(*i, r); } }
            for k in 0..sh.evn as usize {
                let e = &*shm.ev.add(k);
                match e.kind {
                    EV_SWITCH => o.switches.push((e.task, e.b as u32 | (e.c as u32) << 16, e.a)),
                    EV_WRITE => o.writes.push(W { step: e.step, task: e.task, ino: e.a as usize, off: e.b, len: e.c, data: (e.d & !(1 << 63)) as usize, err: 0, trunc: false, keep: if e.d >> 63 == 1 { plan.sim.keep } else { 0 } }),
                    EV_WFAIL => o.writes.push(W { step: e.step, task: e.task, ino: e.a as usize, off: e.b, len: e.c, data: 0, err: e.d as u32, trunc: false, keep: 0 }),
                    EV_TRUNC => o.writes.push(W { step: e.step, task: e.task, ino: e.a as usize, off: e.b, len: 0, data: 0, err: 0, trunc: true, keep: 0 }),
                    EV_FAULT => o.fired.push(FaultSpec { task: e.task, cls: e.d as u32, idx: e.b, kind: e.a as u32, arg: e.c }),
                    EV_PMC | EV_PERF => o.pmc.push((e.kind, e.a, e.b, e.c, e.d)),
                    EV_WALL => o.wall_reads.push((e.step, e.task, e.a as i64)),
                    _ => {}
                }
            }
            o.wdata = std::slice::from_raw_parts(shm.wdata, sh.wdata_len as usize).to_vec();
            for i in 0..(sh.ninodes as usize).min(64) { o.paths.push(cstr(&sh.paths[i])); }
            for (p, d) in &plan.files { let n = norm(p); if let Some(i) = o.paths.iter().position(|x| *x == n) { o.initial.push((i, d.clone())); } }
            for i in 0..COV_LEN { self.cov[i] |= *shm.cov.add(i); }
        }
        self.sims += 1; self.steps += o.steps; self.switches += o.nswitch; self.sim_ns += o.mono_span.min(345_600_000_000_000);
        for i in 0..F_KINDS { self.faults[i] += o.nfault[i]; }
        for i in 0..IO_CLASSES { self.io[i] += o.io_calls[i]; }
        if exit == Exit::Unsupported || exit == Exit::Code(97) { eprintln!("harness: simulation not supported: {}", o.note); std::process::exit(3); }
        o
    }
    pub fn edges(&self) -> u64 { self.cov.iter().filter(|x| **x != 0).count() as u64 }
}

unsafe fn child(plan: &Plan, shm: &'static Shm, cfg: &SimCfg) -> ! {
    if std::env::var_os("DST_STDERR").is_none() { let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY); if n >= 0 { libc::dup2(n, 2); libc::close(n); } }
    // the tasks hand over to each other, so they are best kept together
    {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let c = libc::sched_getcpu();
        if c >= 0 { libc::CPU_SET(c as usize, &mut set); libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set); }
    }
    crate::alloc::activate();
    let plan: &'static Plan = std::mem::transmute(plan);
    // command line of the simulated process
    let mut argc = 0;
    let argv = sim_argv(&mut argc);
    for i in 0..argc as usize {
        *argv.add(i) = match plan.argv.get(i) {
            Some(a) => { let mut v = a.clone(); v.retain(|b| *b != 0); v.push(0); Box::leak(v.into_boxed_slice()).as_mut_ptr() as *mut _ }
            None => std::ptr::null_mut(),
        };
    }
    #[allow(static_mut_refs)]
    let sw = SWITCHES.as_ptr();
    sim_setup(cfg, shm.sh, shm.ev, shm.wdata, sw, shm.cov, COV_LEN as u64);
    for d in &plan.dirs { let c = std::ffi::CString::new(d.as_str()).unwrap(); sim_put_file(c.as_ptr(), std::ptr::null(), 0); }
    for (p, k) in plan.files.iter() { let c = std::ffi::CString::new(p.as_str()).unwrap(); sim_put_file(c.as_ptr(), k.as_ptr(), k.len() as u64); }
    sim_start();
    if let Some(h) = &plan.hw {
        let r = sim_pmu_start(&*h.cfg());
        if r < 0 { libc::_exit(98); }
        (*shm.sh).probes[63] = r as u64;
    }
    match plan.session {
        Session::ProfilerV8 => dstexec::exec8::run(plan, shm),
        Session::ReadOnly => {}
        _ => dstexec::exec9::run(plan, shm),
    }
    if let Some(p) = &plan.read {
        let r = &mut *shm.recs.add(OP_READ as usize);
        r.status = S_STARTED;
        let d = crate::refmodel::read_digest(p);
        shm.put_blob(BLOB_READ, 0, d.as_bytes());
        r.status = S_DONE;
    }
    sim_stop();
    libc::_exit(0);
}
