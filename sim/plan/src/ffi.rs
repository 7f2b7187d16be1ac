//! Rust view of libsim.h, and the memory shared between a simulated process and its observer.
use std::os::raw::c_char;
pub const SIM_MAX_TASKS: usize = 24;
pub const SIM_EVLOG_CAP: usize = 1 << 20;
pub const SIM_WDATA_CAP: usize = 768 << 20;
pub const SIM_MAX_FAULTS: usize = 512;
pub const SIM_MAX_SWITCH: usize = 1 << 17;

pub const POL_RANDOM: u32 = 0;
pub const POL_PCT: u32 = 1;
pub const POL_SYS: u32 = 2;
pub const POL_REPLAY: u32 = 3;

pub const EV_SWITCH: u32 = 1;
pub const EV_WRITE: u32 = 2;
pub const EV_OPEN: u32 = 3;
pub const EV_TRUNC: u32 = 4;
pub const EV_CLOSE: u32 = 5;
pub const EV_FAULT: u32 = 6;
pub const EV_WFAIL: u32 = 7;
pub const EV_READ: u32 = 8;
pub const EV_MKDIR: u32 = 9;
pub const EV_UNLINK: u32 = 10;
pub const EV_RENAME: u32 = 11;
pub const EV_WALL: u32 = 14;
pub const EV_PMC: u32 = 15;
pub const EV_PERF: u32 = 16;

pub const F_SHORT: u32 = 1;
pub const F_EINTR: u32 = 2;
pub const F_ERR: u32 = 3;
pub const F_SHORT_READ: u32 = 4;
pub const F_SPURIOUS: u32 = 5;
pub const F_DISK: u32 = 6;
pub const F_CLOCKTICK: u32 = 7;
pub const F_WALLJUMP: u32 = 8;
pub const F_CRASH: u32 = 9;
pub const F_KINDS: usize = 16;
pub const FAULT_NAMES: [&str; 10] = ["none", "short_write", "eintr", "io_error", "short_read", "spurious_wakeup", "disk_full", "clock_tick", "wall_clock_jump", "process_kill"];

pub const IO_WRITE: u32 = 0;
pub const IO_READ: u32 = 1;
pub const IO_OPEN: u32 = 2;
pub const IO_MKDIR: u32 = 3;
pub const IO_STAT: u32 = 4;
pub const IO_CLOSE: u32 = 5;
pub const IO_FUTEX: u32 = 6;
pub const IO_OTHER: u32 = 7;
pub const IO_CLASSES: usize = 8;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimFault { pub task: u32, pub cls: u32, pub idx: u64, pub kind: u32, pub pad: u32, pub arg: u64 }
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimDisk { pub cap_bytes: u64, pub err: u32, pub pad: u32, pub fail_calls: u64 }
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimSwitch { pub from: u32, pub to: u32, pub step: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimCfg {
    pub seed: u64, pub policy: u32, pub nfaults: u32, pub mean: u64, pub horizon: u64, pub pct_depth: u32,
    pub p_short: u32, pub p_eintr: u32, pub p_spurious: u32, pub max_steps: u64, pub crash_step: u64,
    pub mono0: i64, pub wall0: i64, pub tick_max: u64, pub p_tick: u32, pub p_walljump: u32, pub pid: u32, pub p_sys: u32,
    pub disk: [SimDisk; 4], pub ndisk: u32, pub nswitch: u32, pub keep: u64, pub faults: [SimFault; SIM_MAX_FAULTS],
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct SimEv { pub step: u64, pub task: u32, pub kind: u32, pub a: u64, pub b: u64, pub c: u64, pub d: u64 }

pub const PMU_EVENTS: usize = 8;
pub const PMU_UPDATES: usize = 8;
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct PmuPage { pub at: u64, pub index: u32, pub width: u32, pub caps: u64 }
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct PmuEvent { pub open_err: u32, pub map_err: u32, pub npage: u32, pub pad: u32, pub base: u64, pub page: [PmuPage; PMU_UPDATES] }
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct SimPmu { pub vendor: [u32; 3], pub version: u32, pub irq_config: u32, pub paranoid: u32, pub step_max: u32, pub p_irq: u32, pub ev: [PmuEvent; PMU_EVENTS] }

pub const ST_INIT: u32 = 0;
pub const ST_RUNNING: u32 = 1;
pub const ST_DONE: u32 = 2;
pub const ST_CRASHED: u32 = 3;
pub const ST_DEADLOCK: u32 = 4;
pub const ST_BUDGET: u32 = 5;
pub const ST_UNSUPPORTED: u32 = 6;

#[repr(C)]
pub struct SimShared {
    pub state: u32, pub ntasks: u32, pub step: u64, pub switches: u64, pub sched_hash: u64, pub evn: u64, pub ev_overflow: u64,
    pub wdata_len: u64, pub mono: i64, pub wall_off: i64, pub mono_start: i64, pub nfault: [u64; F_KINDS], pub io_calls: [u64; IO_CLASSES],
    pub edges: u64, pub clock_reads: u64, pub dead_state: [u32; SIM_MAX_TASKS], pub local_steps: [u64; SIM_MAX_TASKS],
    pub ninodes: u64, pub paths: [[u8; 256]; 64], pub note: [u8; 256], pub probes: [u64; 64],
}
extern "C" {
    pub fn sim_setup(cfg: *const SimCfg, sh: *mut SimShared, ev: *mut SimEv, wd: *mut u8, sw: *const SimSwitch, cov: *mut u8, covlen: u64);
    pub fn sim_start();
    pub fn sim_stop();
    pub fn sim_yield_hook();
    pub fn sim_rebase();
    pub fn sim_argv(argc: *mut i32) -> *mut *mut c_char;
    pub fn sim_step() -> u64;
    pub fn sim_mono() -> i64;
    pub fn sim_wall() -> i64;
    pub fn sim_advance(ns: u64);
    pub fn sim_walljump(ns: i64);
    pub fn sim_probe(i: u32);
    pub fn sim_in_task() -> i32;
    pub fn sim_task() -> u32;
    pub fn sim_put_file(path: *const c_char, data: *const u8, len: u64);
    pub fn sim_set_nopreempt(on: i32);
    pub fn sim_guard_count() -> u64;
    pub fn sim_pmu_start(p: *const SimPmu) -> i32;
    pub fn sim_mark(m: u64);
    pub fn sim_open_fds() -> u32;
    pub fn sim_pmu_open_now(fds: *mut u32, maps: *mut u32);
}

// ---- operation records -------------------------------------------------------------------------
pub const S_NONE: u32 = 0;
pub const S_STARTED: u32 = 1;
pub const S_DONE: u32 = 2;
pub const S_PANIC: u32 = 3;
pub const S_SKIP: u32 = 4;
pub const S_ERR: u32 = 5;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct OpRec {
    pub status: u32, pub task: u32, pub start: u64, pub end: u64, pub r0: u64, pub r1: u64, pub t0: i64, pub t1: i64,
    /// bytes of heap in use before, after and at most in between; open descriptors before, after and at most
    pub live0: u64, pub live1: u64, pub peak: u64, pub fds0: u32, pub fds1: u32, pub fds_peak: u32, pub pad: u32,
}
/// bytes of heap in use in a simulated process
pub static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub const OPS_PER_THREAD: usize = 4096;
pub const MAX_THREADS: usize = 24;
pub const NRECS: usize = OPS_PER_THREAD * MAX_THREADS;
pub const BLOB_CAP: usize = 256 << 20;

pub struct Shm {
    pub sh: *mut SimShared,
    pub ev: *mut SimEv,
    pub wdata: *mut u8,
    pub recs: *mut OpRec,
    pub cov: *mut u8,
    pub blob: *mut u8, // [u64 len][kind u64][key u64] bytes ...
    pub blob_len: *mut u64,
}
pub const COV_LEN: usize = 1 << 16;
unsafe fn map(len: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}
impl Shm {
    pub fn new() -> Shm {
        unsafe {
            Shm {
                sh: map(std::mem::size_of::<SimShared>()) as *mut _,
                ev: map(std::mem::size_of::<SimEv>() * SIM_EVLOG_CAP) as *mut _,
                wdata: map(SIM_WDATA_CAP),
                recs: map(std::mem::size_of::<OpRec>() * NRECS) as *mut _,
                cov: map(COV_LEN),
                blob: map(BLOB_CAP),
                blob_len: map(4096) as *mut u64,
            }
        }
    }
    pub fn put_blob(&self, kind: u64, key: u64, data: &[u8]) {
        unsafe {
            let pos = *self.blob_len as usize;
            if pos + 24 + data.len() > BLOB_CAP { return; }
            let p = self.blob.add(pos);
            std::ptr::write_unaligned(p as *mut u64, data.len() as u64);
            std::ptr::write_unaligned(p.add(8) as *mut u64, kind);
            std::ptr::write_unaligned(p.add(16) as *mut u64, key);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(24), data.len());
            *self.blob_len = (pos + 24 + data.len()) as u64;
        }
    }
    pub fn blobs(&self) -> Vec<(u64, u64, Vec<u8>)> {
        let mut out = vec![];
        unsafe {
            let n = *self.blob_len as usize;
            let mut pos = 0;
            while pos + 24 <= n {
                let p = self.blob.add(pos);
                let len = std::ptr::read_unaligned(p as *const u64) as usize;
                out.push((std::ptr::read_unaligned(p.add(8) as *const u64), std::ptr::read_unaligned(p.add(16) as *const u64), std::slice::from_raw_parts(p.add(24), len).to_vec()));
                pos += 24 + len;
            }
        }
        out
    }
}
pub const BLOB_SINK: u64 = 1; // key = sink
pub const BLOB_PANIC: u64 = 2; // key = op id
pub const BLOB_READ: u64 = 3; // reader report
pub const BLOB_ERR: u64 = 4;
