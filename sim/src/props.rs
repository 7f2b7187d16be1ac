//! One generator and one judge per property.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;

pub struct Cx<'a> {
    pub r: &'a mut Runner,
    /// schedule and faults of the first simulation of this case
    pub first: Option<(Vec<(u32, u32, u64)>, Vec<FaultSpec>, u64)>,
    pub sig: u64,
    pub nontrivial: bool,
    pub inconclusive: bool,
    pub checks: u64,
    pub extra: Vec<(&'static str, u64)>,
}
impl<'a> Cx<'a> {
    pub fn new(r: &'a mut Runner) -> Cx<'a> { Cx { r, first: None, sig: 0, nontrivial: false, inconclusive: false, checks: 0, extra: vec![] } }
    pub fn stat(&mut self, k: &'static str) -> &mut u64 {
        if let Some(i) = self.extra.iter().position(|x| x.0 == k) { return &mut self.extra[i].1; }
        self.extra.push((k, 0));
        &mut self.extra.last_mut().unwrap().1
    }
    pub fn run(&mut self, p: &Plan) -> Outcome {
        let o = self.r.run(p);
        self.checks += 1;
        if self.first.is_none() { self.first = Some((o.switches.clone(), o.fired.clone(), o.sched_hash)); }
        self.sig = mix64(self.sig ^ o.signature());
        if o.switches.len() > p.threads.len() * 2 || !o.fired.is_empty() || o.exit != Exit::Done { self.nontrivial = true; }
        o
    }
    /// one run of a command line tool
    pub fn tool(&mut self, t: &crate::tools::Tool) -> crate::tools::ToolOut {
        let o = self.r.run_tool(t);
        let mut h = mix64(self.sig ^ o.stdout.len() as u64 ^ (o.ok() as u64) << 60);
        for (k, v) in &o.files { h = mix64(h ^ crate::refmodel::hash_str(k) ^ v.len() as u64); }
        for f in &o.fired { h = mix64(h ^ f.idx ^ (f.kind as u64) << 32 ^ (f.cls as u64) << 48 ^ f.arg); }
        self.sig = h;
        if !o.fired.is_empty() || !o.ok() { self.nontrivial = true; }
        o
    }
    /// A run without storage faults must reach its end; being stuck is judged by C21.
    pub fn finished(&mut self, o: &Outcome) -> Result<bool, V> {
        match o.exit {
            Exit::Done => Ok(true),
            Exit::Deadlock | Exit::Budget | Exit::Hang => { self.inconclusive = true; Ok(false) }
            e => fail("process-died", format!("the recording process died: {e:?}")),
        }
    }
}

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];

fn budget(p: &mut Plan) { p.sim.max_steps = 40_000_000 + 2000 * (par_cost(p) + p.pre.iter().map(op_cost).sum::<u64>()); }

/// sized for well under two minutes on eight cores
pub fn quick_cases(prop: &str) -> u64 {
    match prop {
        "C04" => 3600, "C05" => 4500, "C06" => 14000, "C07" => 12000, "C08" => 25000, "C09" => 6500, "C21" => 15000,
        "C10" => 16000, "C11" => 30000, "C12" => 22000, "C13" | "C14" => 25000, "C15" => 22000, "C16" | "C17" | "C20" => 20000, "C24" => 12000, "C18" => 8000, "C25" => 1800, "C19" => 80000,
        _ => 14000,
    }
}
/// (how cases are made, components that ran real code, components that ran a stand-in, assumptions) for the evidence file
pub fn info(prop: &str) -> (&'static str, Vec<&'static str>, Vec<&'static str>, Vec<&'static str>) {
    const REC: &str = "measureme: Profiler, TimingGuard, StringTableBuilder, SerializationSink, RawEvent (/repo's current tree, instrumented build)";
    const READ: &str = "analyzeme, decodeme: loading, string table, iteration, analysis (/repo's current tree)";
    const LOCKS: &str = "parking_lot, std: locks, thread::spawn/join, Arc, allocation";
    const SCHED: &str = "thread scheduler, futex system call: one real thread runs at a time, a seeded policy decides every hand-over";
    const TIME: &str = "monotonic and wall clock, sleeping";
    const FS: &str = "file system below /sim/: an in-memory store that logs every write";
    const ENV: &str = "argv, process id, random numbers for hash maps";
    const V8: &str = "version 8 recorder: the released measureme 10.1.3";
    let rule = match prop {
        "C01" => "One seed makes 1-8 recording threads with a mix of interval (guard, started and finished apart, handed to other threads, id overridden), instant, integer and raw events, the clocks, and one of three scheduling policies (random bursts of a seeded mean length, priorities with seeded change points, switches at system calls only); one case in 700 is a session of several gigabytes around the 32-bit limits.",
        "C02" => "One seed makes 1-8 threads that write to one to four streams of one storage with sizes around 0, the page size and multiples of it, in callback, byte-slice and io::Write form, in memory or in a file, or a recording session; then the schedule. One case in 800 writes several gigabytes.",
        "C03" => "Recording sessions and raw streams as for C01/C02 with short, empty and interrupted writes; the storage is parsed after each write call.",
        "C04" => "A recording session under one schedule; every prefix of its write log, also inside writes, and live kills at arbitrary scheduler steps are decoded and compared.",
        "C05" => "A recording session runs twice with the same schedule decisions, once with short and interrupted writes at random or targeted calls; loading likewise with short and interrupted reads and opens.",
        "C06" => "A recording session on a disk that fails at a chosen byte, call count and error, for one, a few or all calls, and files or directories that cannot be created.",
        "C07" => "Threads allocate plain, composite and event-label strings, map virtual ids alone and in bulk (also before, after and concurrently with use), and resolve them afterwards.",
        "C08" => "Recording sessions on clocks with chosen start, tick sizes, ties, wall-clock jumps and offsets around the 48-bit limit.",
        "C09" => "Recording sessions and raw streams in which chosen calls panic (serializers, write callbacks, id iterators, rejected arguments, exhausted limits).",
        "C10" => "A recorded session is loaded in several ways (with read faults) and iterated by a seeded sequence of next/next_back/nth/nth_back/skip/step_by/fold operations.",
        "C11" => "Recorded files (versions 8 and 9) with one seeded damage: bit flips in headers, cuts, missing streams, foreign magic, unreadable metadata.",
        "C12" => "A seeded session is recorded by the released version 8 recorder and, with the same operations and clock, by the current one; both are read and compared.",
        "C13" => "Threads record properly nested intervals of the rustc event kinds with ties, zero lengths and several schedules; the summary is compared with a direct computation over the call tree, and the summarize tool's tables and JSON with the library.",
        "C14" => "Histories as for C13; the collapsed stacks and the tools' outputs are compared with a direct computation over the call tree.",
        "C15" => "One to three sessions of different processes; crox runs on them with a seeded choice of options (collapse, minimum duration, --dir).",
        "C16" => "Recorded sessions listed by mmview with and without thread filter; its output is parsed and compared with the plan.",
        "C17" => "Two sessions (equal, related, unrelated) compared by summarize diff over traces and JSON, and 1-5 runs aggregated, compared with a direct computation.",
        "C18" => "Version 7, 8 and 9 files of different page counts truncated by mmedit; the result is decoded and compared with the beginning of the input.",
        "C19" => "A counter is requested on a simulated machine (CPU model, kernel, permissions, perf_event_paranoid, CPUID, rdpmc, control page contents and concurrent kernel updates, failing system calls), then used while a seeded amount of simulated work, interrupts and traps passes.",
        "C24" => "Each tool is run three times on the same input with different hash seeds, process ids, clocks, directory orders, short and interrupted transfers; status and outputs are compared byte for byte (entries of several traces in any order), inputs must stay untouched.",
        "C20" => "Each tool runs with a seeded output that fails at a byte, call or open with one of several errors, or on an invalid input; its status and outputs are compared with the undisturbed run.",
        "C21" => "Recording sessions, raw streams and failing storage under all scheduling policies, with spurious wake-ups and panicking calls; a deadlock or an exceeded step budget is a violation.",
        "C23" => "Two sessions in one process, at the same time on the same threads, one created by a thread of the other, or one after the other (also to the same path); older files of seeded length and content at the target, and a disk that fails below one of the two.",
        _ => "Sessions with a seeded command line (count, length, quoting, invalid Unicode), process id and clocks; the metadata is read back.",
    };
    let tools = match prop {
        "C13" => "summarize (real binary)", "C14" => "stack_collapse, flamegraph (real binaries)", "C15" => "crox (real binary)", "C16" => "mmview (real binary)",
        "C17" => "summarize diff, summarize aggregate (real binary)", "C18" => "mmedit (real binary)", "C20" | "C24" => "summarize, crox, flamegraph, stack_collapse, mmview, mmedit (real binaries)",
        "C12" => "summarize, stack_collapse and mmview logic through the libraries", _ => "",
    };
    let mut real = vec![REC, LOCKS];
    if !matches!(prop, "C02" | "C19") { real.push(READ); }
    if !tools.is_empty() { real.push(tools); }
    if matches!(prop, "C11" | "C12" | "C18" | "C20" | "C24") { real.push(V8); }
    let mut stub = vec![SCHED, TIME, FS, ENV];
    if prop == "C19" {
        stub.push("CPU and kernel: the CPUID and RDPMC instructions (trapped), perf_event_open and its control page, fcntl, mmap");
        real.push("perf-event-open-sys, memmap2");
    }
    let mut assume = vec![
        "Schedules are sequentially consistent: one thread runs at a time, so effects of weakly ordered memory are not explored.",
        "Preemption happens at instrumented edges, memory accesses and system calls of the crates under test and of parking_lot; std is preempted at its system calls only.",
        "A write(2) call appends its bytes in order; a crash leaves a prefix of the write log (as for a process that dies, not for a machine that loses its page cache).",
    ];
    match prop {
        "C19" => assume.push("The machine model: at least 9 user instructions per clock tick, interrupts at most once per tick, counters stay in their register unless the case moves them, CPUs with CPUID and RDPMC faulting (else the case is inconclusive)."),
        "C12" | "C11" => assume.push("Inputs on which the released version 8 recorder or reader itself is wrong (argument escaping, its event fast path) are not generated."),
        "C18" => assume.push("Both files are read by the same decoder; texts the released reader cannot resolve are compared by their ids."),
        "C13" | "C14" => assume.push("Intervals of one thread id are nested and stored in the order of their ends."),
        _ => {}
    }
    (rule, real, stub, assume)
}
pub fn gen(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut rng = Rng::new(seed, hash_str(prop));
    rng.1 = thorough;
    let r = &mut rng;
    let mut p = match prop {
        "C01" | "C07" if r.chance(1, 700) => crate::p_huge::gen_profiler(prop, seed, r),
        "C02" if r.chance(1, 800) => if r.chance(1, 3) { crate::p_huge::gen_profiler(prop, seed, r) } else { crate::p_huge::gen_sinks(prop, seed, r) },
        "C01" => {
            let o = Opts { strings: r.chance(1, 2), virt: r.chance(1, 2), real_tids: r.chance(1, 3), ops: *r.pick(&[(1, 6), (3, 30), (20, 80)]), threads: *r.pick(&[(1, 2), (2, 4), (3, 8)]), unwind_drop: r.chance(1, 3), ..Default::default() };
            let mut p = profiler_plan(prop, seed, r, &o);
            clocks(r, &mut p);
            sched(r, &mut p);
            p
        }
        "C02" => {
            if r.chance(1, 5) {
                let o = Opts { max_str: 2000, unwind_drop: r.chance(1, 3), ..Default::default() };
                let mut p = profiler_plan(prop, seed, r, &o);
                sched(r, &mut p);
                p
            } else { let f = r.chance(1, 2); let mut p = sink_plan(prop, seed, r, f, false, true); sched(r, &mut p); p }
        }
        "C03" => {
            let mut p = if r.chance(1, 2) { profiler_plan(prop, seed, r, &Opts { max_str: 2000, unwind_drop: true, ..Default::default() }) } else { sink_plan(prop, seed, r, true, false, true) };
            soft_io_faults(r, &mut p, false);
            sched(r, &mut p);
            p
        }
        "C21" => {
            let dead = r.chance(1, 4);
            let mut p = match r.below(3) {
                0 => { let f = r.chance(1, 2); let b = r.chance(1, 2); sink_plan(prop, seed, r, f, b, !dead) }
                _ => { let bad = r.chance(1, 2); profiler_plan(prop, seed, r, &Opts { bad, unwind_drop: !dead, ..Default::default() }) }
            };
            clocks(r, &mut p);
            soft_io_faults(r, &mut p, false);
            if dead { disk_fault(r, &mut p); }
            sched(r, &mut p);
            p
        }
        "C04" => crate::p_rec::gen_c04(prop, seed, r),
        "C05" => crate::p_rec::gen_c05(prop, seed, r),
        "C06" => crate::p_rec::gen_c06(prop, seed, r),
        "C07" => crate::p_rec::gen_c07(prop, seed, r),
        "C08" => crate::p_rec::gen_c08(prop, seed, r),
        "C09" => crate::p_rec::gen_c09(prop, seed, r),
        "C22" => crate::p_rec::gen_c22(prop, seed, r),
        "C23" => crate::p_multi::gen_c23(prop, seed, r),
        "C25" => crate::p_mem::gen_c25(prop, seed, r),
        "C10" => crate::p_read::gen_c10(prop, seed, r),
        "C11" => crate::p_read::gen_c11(prop, seed, r),
        "C12" => crate::p_read::gen_c12(prop, seed, r),
        "C15" => crate::p_tools::gen_c15(prop, seed, r),
        "C16" => crate::p_tools::gen_c16(prop, seed, r),
        "C17" => crate::p_tools::gen_c17(prop, seed, r),
        "C18" => crate::p_tools::gen_c18(prop, seed, r),
        "C19" => crate::p_hw::gen_c19(prop, seed, r),
        "C20" => crate::p_tools::gen_c20(prop, seed, r),
        "C24" => crate::p_tools::gen_c24(prop, seed, r),
        "C13" | "C14" => crate::p_read::gen_nested(prop, seed, r),
        _ => Plan::new(prop, seed),
    };
    budget(&mut p);
    p
}
pub fn disk_fault(r: &mut Rng, p: &mut Plan) {
    let cap = match r.below(4) { 0 => r.below(40), 1 => r.below(3000), 2 => *r.pick(&[8u64, 9, 13, 131_085, 262_157, 262_158]) + r.below(3), _ => r.below(600_000) };
    p.sim.disk.push(DiskSpec { cap, err: *r.pick(&[28, 28, 5, 122, 27, 0]), calls: *r.pick(&[1, 1, 2, 3, 7, u64::MAX, u64::MAX]), only: false });
}

pub fn eval(prop: &str, cx: &mut Cx, p: &Plan) -> Check {
    if p.sim.keep > 0 { return crate::p_huge::judge(cx, p); }
    match prop {
        "C01" => c01(cx, p),
        "C02" => c02(cx, p),
        "C03" => c03(cx, p),
        "C21" => c21(cx, p),
        "C04" => crate::p_rec::c04(cx, p),
        "C05" => crate::p_rec::c05(cx, p),
        "C06" => crate::p_rec::c06(cx, p),
        "C07" => crate::p_rec::c07(cx, p),
        "C08" => crate::p_rec::c08(cx, p),
        "C09" => crate::p_rec::c09(cx, p),
        "C22" => crate::p_rec::c22(cx, p),
        "C23" => crate::p_multi::c23(cx, p),
        "C25" => crate::p_mem::c25(cx, p),
        "C10" => crate::p_read::c10(cx, p),
        "C11" => crate::p_read::c11(cx, p),
        "C12" => crate::p_read::c12(cx, p),
        "C15" => crate::p_tools::c15(cx, p),
        "C16" => crate::p_tools::c16(cx, p),
        "C17" => crate::p_tools::c17(cx, p),
        "C18" => crate::p_tools::c18(cx, p),
        "C19" => crate::p_hw::c19(cx, p),
        "C20" => crate::p_tools::c20(cx, p),
        "C24" => crate::p_tools::c24(cx, p),
        "C13" => crate::p_read::c13(cx, p),
        "C14" => crate::p_read::c14(cx, p),
        _ => Ok(()),
    }
}

fn c01(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    no_panics(p, &o, is_event_op)?;
    let d = trace(p, &o)?;
    events_ok_ref(p, &o, &d)?;
    events_ok(p, &o, &d)
}
fn c02(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(()); }
    if is_profiler(p) {
        no_panics(p, &o, normal_op)?;
        let d = trace(p, &o)?;
        string_tiling(p, &o, &d)
    } else {
        no_panics(p, &o, normal_op)?;
        sinks_ok(p, &o)
    }
}
fn c03(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    let path = if is_profiler(p) { p.trace_path() } else { p.path.clone() };
    if let Some(ino) = o.ino(&path) {
        let pg = page_log(p, &o, ino, is_profiler(p))?;
        if !cx.finished(&o)? { return Ok(()); }
        ensure!(pg.tail == 0, "page-left-incomplete", "{} bytes of an incomplete page at the end of the finished file", pg.tail);
    }
    if !cx.finished(&o)? { return Ok(()); }
    if is_profiler(p) {
        let d = trace(p, &o)?;
        ensure!(parse_pages(&d, true).header, "bad-header", "the finished file has no header");
        events_ok_ref(p, &o, &d)?;
        strings_ok_ref(p, &o, &d)
    } else { sinks_ok(p, &o) }
}
fn c21(cx: &mut Cx, p: &Plan) -> Check {
    let o = cx.run(p);
    match o.exit {
        Exit::Deadlock => fail("deadlock", format!("no thread can run any more at step {}: task states {:?} (2 = waiting for a lock, 3 = joining)", o.steps, &o.dead_state[..o.ntasks as usize])),
        Exit::Budget => fail("no-progress", format!("not finished after {} steps", o.steps)),
        Exit::Hang => fail("hang", "a call did not return".into()),
        _ => Ok(()),
    }
}
