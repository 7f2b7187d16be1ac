//! Runs the repository's command line tools, unmodified, as simulated processes: libsimtool.so is
//! preloaded, so their files, directory listings and output streams live in the simulation.
use crate::runner::{Exit, Runner, W};
use dstplan::ffi::*;
use dstplan::plan::*;
use std::collections::BTreeMap;
use std::time::Instant;

#[repr(C)]
pub struct ToolHdr { pub magic: u64, pub nfiles: u64, pub files_len: u64, pub pad: u64, pub cwd: [u8; 256], pub cfg: SimCfg }
const MAGIC: u64 = 0x4453545f544f4f4c;
const OFF_SH: usize = 1 << 16;
const OFF_EV: usize = 1 << 20;
const OFF_WDATA: usize = 64 << 20;
const OFF_FILES: usize = OFF_WDATA + SIM_WDATA_CAP;
const FILES_CAP: usize = 256 << 20;
const LEN: usize = OFF_FILES + FILES_CAP;

pub struct Tool { pub bin: &'static str, pub args: Vec<Vec<u8>>, pub cwd: String, pub files: Vec<(String, Vec<u8>)>, pub dirs: Vec<String>, pub sim: SimParams }
impl Tool {
    pub fn new(bin: &'static str, args: &[&str], seed: u64) -> Tool {
        Tool { bin, args: args.iter().map(|a| a.as_bytes().to_vec()).collect(), cwd: "/sim/work".into(), files: vec![], dirs: vec!["/sim/work".into()], sim: SimParams { seed, mean: 1000, max_steps: 1 << 40, mono0: 5_000_000_000, wall0: 1_600_000_000_000_000_000, pid: 777, ..Default::default() } }
    }
    pub fn file(mut self, path: &str, data: &[u8]) -> Tool {
        let dir = path.rsplit_once('/').map_or("", |x| x.0).to_string();
        if dir != "/sim" && !self.dirs.contains(&dir) { self.dirs.push(dir); }
        self.files.push((path.into(), data.to_vec()));
        self
    }
    pub fn text(&self) -> String { format!("{} {}", self.bin, self.args.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>().join(" ")) }
}
pub struct ToolOut { pub exit: Exit, pub files: BTreeMap<String, Vec<u8>>, pub stdout: Vec<u8>, pub stderr: String, pub fired: Vec<FaultSpec>, pub io_calls: [u64; IO_CLASSES], pub written: u64 }
impl ToolOut {
    pub fn ok(&self) -> bool { self.exit == Exit::Done }
    pub fn file(&self, p: &str) -> Option<&Vec<u8>> { self.files.get(p) }
    pub fn err(&self) -> String { let s = self.stderr.trim().replace('\n', " | "); if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "…" } else { s } }
}

pub struct Mem { fd: i32, p: *mut u8 }
impl Mem {
    pub fn new() -> Mem {
        unsafe {
            let fd = libc::memfd_create(b"dsttool\0".as_ptr() as *const _, 0);
            assert!(fd >= 0 && libc::ftruncate(fd, LEN as i64) == 0, "memfd");
            let p = libc::mmap(std::ptr::null_mut(), LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_NORESERVE, fd, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            Mem { fd, p: p as *mut u8 }
        }
    }
}

impl Runner {
    pub fn run_tool(&mut self, t: &Tool) -> ToolOut {
        let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into()) + "/target";
        let (fd, m) = { let mem = self.tool_mem.get_or_insert_with(Mem::new); (mem.fd, mem.p) };
        let mut plan = Plan::new("tool", t.sim.seed);
        plan.sim = t.sim.clone();
        let cfg = plan.cfg();
        unsafe {
            let h = &mut *(m as *mut ToolHdr);
            h.magic = MAGIC;
            h.cwd = [0; 256];
            h.cwd[..t.cwd.len()].copy_from_slice(t.cwd.as_bytes());
            std::ptr::copy_nonoverlapping(&*cfg, &mut h.cfg, 1);
            let mut pos = OFF_FILES;
            let mut put = |path: &str, data: Option<&[u8]>| {
                let d = data.unwrap_or(&[]);
                assert!(pos + 24 + path.len() + d.len() <= LEN, "tool inputs too large");
                let w = |o: usize, v: u64| std::ptr::write_unaligned(m.add(pos + o) as *mut u64, v);
                w(0, path.len() as u64); w(8, d.len() as u64); w(16, if data.is_some() { 1 } else { 2 });
                std::ptr::copy_nonoverlapping(path.as_ptr(), m.add(pos + 24), path.len());
                std::ptr::copy_nonoverlapping(d.as_ptr(), m.add(pos + 24 + path.len()), d.len());
                pos += 24 + path.len() + d.len();
            };
            for d in &t.dirs { put(d, None); }
            for (p, d) in &t.files { put(p, Some(d)); }
            h.nfiles = (t.dirs.len() + t.files.len()) as u64;
            (*(m.add(OFF_SH) as *mut SimShared)).evn = 0;
            (*(m.add(OFF_SH) as *mut SimShared)).state = ST_INIT;
        }
        let cs = |s: &[u8]| { let mut v = s.to_vec(); v.retain(|b| *b != 0); v.push(0); v };
        let path = cs(format!("{dir}/repo/debug/{}", t.bin).as_bytes());
        let mut args: Vec<Vec<u8>> = vec![cs(t.bin.as_bytes())];
        args.extend(t.args.iter().map(|a| cs(a)));
        let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr() as *const _).collect();
        argv.push(std::ptr::null());
        let envs: Vec<Vec<u8>> = vec![cs(format!("LD_PRELOAD={dir}/libsimtool.so").as_bytes()), cs(format!("DST_SIM_FD={fd}").as_bytes()), cs(b"PATH=/usr/bin:/bin"), cs(b"TERM=dumb"), cs(b"HOME=/nonexistent")];
        let mut envp: Vec<*const libc::c_char> = envs.iter().map(|a| a.as_ptr() as *const _).collect();
        envp.push(std::ptr::null());
        let pid = unsafe { libc::vfork() };
        if pid == 0 {
            unsafe {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                libc::dup2(n, 0); libc::dup2(n, 1); libc::dup2(n, 2);
                libc::personality(0x0040000);
                libc::execve(path.as_ptr() as *const _, argv.as_ptr(), envp.as_ptr());
                libc::_exit(97);
            }
        }
        assert!(pid > 0, "fork");
        let t0 = Instant::now();
        let mut status = 0;
        let mut hang = false;
        let mut naps = 0u32;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if r == pid { break; }
            if t0.elapsed() > self.timeout { unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); } hang = true; break; }
            naps += 1;
            std::thread::sleep(std::time::Duration::from_micros(if naps < 50 { 100 } else { 1000 }));
        }
        let sh = unsafe { &*(m.add(OFF_SH) as *const SimShared) };
        let exit = if hang { Exit::Hang } else if libc::WIFSIGNALED(status) { Exit::Signal(libc::WTERMSIG(status)) } else { match libc::WEXITSTATUS(status) { 0 => Exit::Done, 85 => Exit::Budget, 86 => Exit::Unsupported, c => Exit::Code(c) } };
        let cstr = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())]).to_string();
        if exit == Exit::Unsupported || exit == Exit::Code(97) || sh.state == ST_INIT { eprintln!("harness: tool {} not supported: {} ({exit:?})", t.bin, cstr(&sh.note)); std::process::exit(3); }
        if sh.ev_overflow > 0 { eprintln!("harness: event log of tool {} full", t.bin); std::process::exit(3); }
        let mut writes: Vec<W> = vec![];
        let mut fired = vec![];
        let mut opened: Vec<bool> = vec![false; 64];
        let mut written = 0;
        unsafe {
            let ev = m.add(OFF_EV) as *const SimEv;
            for k in 0..sh.evn as usize {
                let e = &*ev.add(k);
                match e.kind {
                    EV_WRITE => { writes.push(W { step: e.step, task: e.task, ino: e.a as usize, off: e.b, len: e.c, data: e.d as usize, err: 0, trunc: false, keep: 0 }); if e.a != 2 { written += e.c; } }
                    EV_TRUNC => writes.push(W { step: e.step, task: e.task, ino: e.a as usize, off: e.b, len: 0, data: 0, err: 0, trunc: true, keep: 0 }),
                    EV_FAULT => fired.push(FaultSpec { task: e.task, cls: e.d as u32, idx: e.b, kind: e.a as u32, arg: e.c }),
                    EV_OPEN => opened[(e.a as usize).min(63)] = true,
                    _ => {}
                }
            }
            let w = std::slice::from_raw_parts(m.add(OFF_WDATA), sh.wdata_len as usize);
            let mut images: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
            images.insert(1, vec![]);
            images.insert(2, vec![]);
            let paths: Vec<String> = (0..(sh.ninodes as usize).min(64)).map(|i| cstr(&sh.paths[i])).collect();
            let base = |i: usize| t.files.iter().find(|f| crate::runner::norm(&f.0) == paths[i]).map(|f| f.1.clone()).unwrap_or_default();
            for x in &writes {
                let v = images.entry(x.ino).or_insert_with(|| base(x.ino));
                if x.trunc { v.resize(x.off as usize, 0); continue; }
                let end = (x.off + x.len) as usize;
                if v.len() < end { v.resize(end, 0); }
                v[x.off as usize..end].copy_from_slice(&w[x.data..x.data + x.len as usize]);
            }
            // files that exist but were never written
            for i in 3..paths.len() { if opened[i] && !t.files.iter().any(|f| crate::runner::norm(&f.0) == paths[i]) { images.entry(i).or_default(); } }
            self.sims += 1; self.tool_runs += 1; self.steps += sh.step;
            for i in 0..F_KINDS { self.faults[i] += sh.nfault[i]; }
            for i in 0..IO_CLASSES { self.io[i] += sh.io_calls[i]; }
            let stdout = images.remove(&1).unwrap();
            let stderr = String::from_utf8_lossy(&images.remove(&2).unwrap()).to_string();
            let files = images.into_iter().map(|(i, v)| (paths[i].clone(), v)).collect();
            ToolOut { exit, files, stdout, stderr, fired, io_calls: sh.io_calls, written }
        }
    }
}
