//! Runs a property's cases on all cores and reports.
use crate::minimise::minimise;
use crate::props::{self, Cx};
use crate::refmodel::V;
use crate::runner::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Stats {
    pub cases: u64, pub sims: u64, pub steps: u64, pub switches: u64, pub sim_ns: u64, pub inconclusive: u64, pub nontrivial: u64, pub checks: u64,
    pub faults: Vec<u64>, pub io: Vec<u64>, pub cov: Vec<u32>, pub guards: u64, pub sigs: Vec<u64>, pub samples: Vec<serde_json::Value>, pub tool_runs: u64, pub extra: std::collections::BTreeMap<String, u64>,
}
#[derive(Serialize, Deserialize)]
pub enum Msg { S(u64), V { seed: u64, class: String, msg: String }, End(Box<Stats>) }

#[derive(Serialize, Deserialize)]
pub struct ReplayFile { pub property: String, pub class: String, pub message: String, pub seed: u64, pub minimised: bool, pub tried: u64, pub operations: usize, pub context_switches: usize, pub faults: usize, pub plan: Plan }

pub fn verif() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).count()
    }
}
fn sample(p: &Plan, cx: &Cx, seed: u64) -> serde_json::Value {
    let mut faults = serde_json::Map::new();
    if let Some((sw, fired, h)) = &cx.first {
        for f in fired { let e = faults.entry(FAULT_NAMES.get(f.kind as usize).unwrap_or(&"?").to_string()).or_insert(0.into()); *e = (e.as_u64().unwrap() + 1).into(); }
        return serde_json::json!({"seed": seed, "threads": p.threads.len(), "operations": p.all_ops().len(), "first_operations": p.all_ops().iter().take(6).map(|x| crate::oracle::brief(x.1)).collect::<Vec<_>>(), "context_switches": sw.len(), "schedule_hash": format!("{h:016x}"), "faults_fired": faults, "policy": p.sim.policy, "first_switches": sw.iter().take(6).collect::<Vec<_>>() });
    }
    serde_json::json!({"seed": seed})
}

pub fn worker(prop: &str, tier: &str, base: u64, k: u64, stride: u64, count: u64, secs: u64) {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    let out = std::io::stdout();
    let say = |m: &Msg| { let mut s = serde_json::to_string(m).unwrap(); s.push('\n'); let mut o = out.lock(); let _ = o.write_all(s.as_bytes()); let _ = o.flush(); };
    let mut r = Runner::new();
    let mut st = Stats::default();
    let mut sigs = HashSet::new();
    let t0 = Instant::now();
    let mut i = k;
    while (count == 0 || i < count) && (secs == 0 || t0.elapsed() < Duration::from_secs(secs)) {
        let seed = base.wrapping_add(i);
        say(&Msg::S(seed));
        let p = props::gen(prop, seed, tier == "thorough");
        let mut cx = Cx::new(&mut r);
        let v = props::eval(prop, &mut cx, &p);
        st.cases += 1;
        st.inconclusive += cx.inconclusive as u64;
        st.checks += cx.checks;
        for (k, n) in std::mem::take(&mut cx.extra) { *st.extra.entry(k.to_string()).or_default() += n; }
        if cx.nontrivial && sigs.insert(cx.sig) { st.nontrivial += 1; }
        if st.samples.len() < 1 && cx.nontrivial && st.cases > 3 { st.samples.push(sample(&p, &cx, seed)); }
        if let Err(V { class, msg }) = v { say(&Msg::V { seed, class, msg }); }
        i += stride;
    }
    st.sims = r.sims; st.steps = r.steps; st.switches = r.switches; st.sim_ns = r.sim_ns;
    st.faults = r.faults.to_vec(); st.io = r.io.to_vec(); st.guards = r.guards; st.tool_runs = r.tool_runs;
    st.cov = r.cov.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u32).collect();
    st.sigs = sigs.into_iter().collect();
    say(&Msg::End(Box::new(st)));
}

struct Known { property: String, class: String, contains: String, text: String }
fn known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.jsonl", verif())) {
        for l in s.lines() {
            if let Ok(j) = serde_json::from_str::<serde_json::Value>(l) {
                let g = |k: &str| j[k].as_str().unwrap_or("").to_string();
                if g("status") == "known" && g("property") == prop { v.push(Known { property: g("property"), class: g("class"), contains: g("contains"), text: g("what") }); }
            }
        }
    }
    v
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if !props::PROPS.contains(&prop) { eprintln!("unknown property {prop}"); return 2; }
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let base = if seed == 1 && !thorough { 0 } else { mix64(seed.wrapping_mul(2).wrapping_add(thorough as u64)) >> 16 };
    println!("property {prop} tier {tier} seed {seed}: first case seed {base}");
    let nw = ncpu().clamp(1, 16) as u64;
    let count = if thorough { 0 } else { props::quick_cases(prop) };
    let secs: u64 = std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 800 } else { 400 });
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let mut kids: Vec<Child> = vec![];
    for k in 0..nw {
        let mut c = Command::new(&exe).args(["worker", prop, tier, &base.to_string(), &k.to_string(), &nw.to_string(), &count.to_string(), &secs.to_string()]).stdout(Stdio::piped()).stdin(Stdio::null()).spawn().expect("spawn worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { for l in BufReader::new(o).lines() { match l { Ok(l) => { if tx.send((k, Some(l))).is_err() { return; } } Err(_) => break } } let _ = tx.send((k, None)); });
        kids.push(c);
    }
    drop(tx);
    let mut last: Vec<(u64, Instant)> = vec![(base, Instant::now()); nw as usize];
    let mut done = vec![false; nw as usize];
    let mut stats: Vec<Stats> = vec![];
    let mut bad: Vec<(u64, V)> = vec![];
    let known = known(prop);
    let mut hit: HashSet<usize> = HashSet::new();
    let mut harness_error = None;
    'outer: while done.iter().any(|d| !d) {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((k, Some(l))) => match serde_json::from_str::<Msg>(&l) {
                Ok(Msg::S(s)) => last[k as usize] = (s, Instant::now()),
                Ok(Msg::V { seed, class, msg }) => {
                    if let Some(i) = known.iter().position(|f| f.class == class && msg.contains(&f.contains)) {
                        hit.insert(i);
                    } else { bad.push((seed, V { class, msg })); break 'outer; }
                }
                Ok(Msg::End(s)) => { stats.push(*s); done[k as usize] = true; }
                Err(_) => println!("worker {k}: {l}"),
            },
            Ok((k, None)) => {
                let st = kids[k as usize].wait().ok();
                if !done[k as usize] {
                    use std::os::unix::process::ExitStatusExt;
                    match st.and_then(|s| s.signal()) {
                        Some(sig) if sig != libc::SIGKILL => bad.push((last[k as usize].0, V { class: "reader-crashed".into(), msg: format!("the process reading the result of case {} died of signal {sig}", last[k as usize].0) })),
                        s => harness_error = Some(format!("worker {k} ended at case {}: {st:?} {s:?}", last[k as usize].0)),
                    }
                    break 'outer;
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for k in 0..nw as usize {
            if !done[k] && last[k].1.elapsed() > Duration::from_secs(240) {
                bad.push((last[k].0, V { class: "reader-hang".into(), msg: format!("judging case {} did not end within 240 s", last[k].0) }));
                break 'outer;
            }
        }
    }
    for c in kids.iter_mut() { let _ = c.kill(); let _ = c.wait(); }
    if bad.is_empty() { if let Some(e) = harness_error { eprintln!("harness error: {e}"); return 2; } }
    // merge
    let mut m = Stats { faults: vec![0; F_KINDS], io: vec![0; IO_CLASSES], ..Default::default() };
    let (mut sigs, mut cov) = (HashSet::new(), HashSet::new());
    for s in &stats {
        m.cases += s.cases; m.sims += s.sims; m.steps += s.steps; m.switches += s.switches; m.sim_ns = m.sim_ns.saturating_add(s.sim_ns); m.inconclusive += s.inconclusive; m.checks += s.checks; m.tool_runs += s.tool_runs;
        for i in 0..F_KINDS { m.faults[i] += s.faults[i]; }
        for i in 0..IO_CLASSES { m.io[i] += s.io[i]; }
        for (k, n) in &s.extra { *m.extra.entry(k.clone()).or_default() += n; }
        m.guards = s.guards;
        sigs.extend(s.sigs.iter().copied());
        cov.extend(s.cov.iter().copied());
        m.samples.extend(s.samples.iter().take(1).cloned());
    }
    m.samples.truncate(3);
    m.nontrivial = sigs.len() as u64;
    let mut code = 0;
    let mut replay = String::new();
    if let Some((s, v)) = bad.first() {
        code = 1;
        let p = props::gen(prop, *s, thorough);
        let crashy = v.class.starts_with("reader-");
        let mut r = Runner::new();
        let mm = if crashy { crate::minimise::Min { plan: p, v: V { class: v.class.clone(), msg: v.msg.clone() }, tried: 0, explicit: false } } else {
            minimise(&mut r, &p, V { class: v.class.clone(), msg: v.msg.clone() }, if thorough { 120 } else { 45 })
        };
        let f = ReplayFile { property: prop.into(), class: mm.v.class.clone(), message: mm.v.msg.clone(), seed: *s, minimised: mm.tried > 1, tried: mm.tried, operations: mm.plan.all_ops().iter().filter(|x| *x.1 != Op::Nop).count(), context_switches: mm.plan.sim.switches.len(), faults: mm.plan.sim.faults.len() + mm.plan.sim.disk.len(), plan: mm.plan };
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        replay = format!("{dir}/{prop}-{s}.json");
        std::fs::write(&replay, serde_json::to_string(&f).unwrap()).expect("write replay file");
        println!("{prop} seed {s}: {}: {}", v.class, v.msg);
        println!("minimised to {} operations, {} context switches, {} faults ({} candidates tried): {}", f.operations, f.context_switches, f.faults, f.tried, f.message);
        println!("VIOLATION property={prop} replay={replay}");
    }
    for i in &hit { println!("KNOWN-FINDING: property={} {}", known[*i].property, known[*i].text); }
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = serde_json::Map::new();
    for (i, n) in FAULT_NAMES.iter().enumerate().skip(1) { faults.insert(n.to_string(), m.faults[i].into()); }
    let info = props::info(prop);
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration", "wall_s": wall, "violations": bad.len(),
        "coverage": {
            "evaluations": m.cases, "distinct_nontrivial": m.nontrivial,
            "rule": format!("{} A case is non-trivial when a thread was preempted, a fault fired or the run did not end normally; cases are distinct when the hash of (context switches with the code location and thread of each, total steps, every write's size/offset/task/error, every fired fault) differs.", info.0),
            "samples": m.samples,
            "simulated_runs": m.sims, "runs_per_hour": (m.sims as f64 / wall * 3600.0) as u64, "seeds_per_hour": (m.cases as f64 / wall * 3600.0) as u64,
            "first_seed": base, "simulated_time_s": m.sim_ns as f64 / 1e9, "scheduler_steps": m.steps, "context_switches": m.switches,
            "faults_fired": faults, "oracle_checks": m.checks, "tool_processes": m.tool_runs, "counters": m.extra,
            "io_calls": {"write": m.io[0], "read": m.io[1], "open": m.io[2], "mkdir": m.io[3], "stat": m.io[4], "close": m.io[5], "futex_wait": m.io[6]},
            "edges_reached": cov.len(), "edges_instrumented": m.guards, "inconclusive_runs": m.inconclusive, "workers": nw,
            "real_components": info.1, "stub_components": info.2, "known_findings_hit": hit.len(), "replay": replay,
        },
        "assumptions": info.3,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{prop}: {} cases, {} simulated runs, {} distinct non-trivial, {} inconclusive, {:.1} s", m.cases, m.sims, m.nontrivial, m.inconclusive, wall);
    code
}

pub fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => { eprintln!("{file}: {e}"); return 2; } };
    let f: ReplayFile = match serde_json::from_str(&s) { Ok(f) => f, Err(e) => { eprintln!("{file}: {e}"); return 2; } };
    let mut r = Runner::new();
    let mut cx = Cx::new(&mut r);
    let v = props::eval(&f.property, &mut cx, &f.plan);
    if let Some((sw, fired, h)) = &cx.first { println!("schedule hash {h:016x}, {} context switches, {} faults fired", sw.len(), fired.len()); }
    match v {
        Err(v) => {
            println!("{}: {}: {}", f.property, v.class, v.msg);
            if v.class != f.class || v.msg != f.message { println!("note: the recorded failure was {}: {}", f.class, f.message); }
            println!("VIOLATION property={} replay={file}", f.property);
            1
        }
        Ok(()) => { println!("{}: the recorded case does not fail", f.property); 0 }
    }
}

pub fn one(prop: &str, from: u64, to: u64) -> i32 {
    let mut r = Runner::new();
    let t = Instant::now();
    let mut incon = 0;
    let mut classes: std::collections::BTreeMap<String, u64> = Default::default();
    let (mut checks, mut nontriv) = (0, 0);
    for s in from..to {
        let t1 = Instant::now();
        let p = props::gen(prop, s, std::env::var("VERIF_TIER").as_deref() == Ok("thorough"));
        if std::env::var_os("HUGE").is_some() && p.sim.keep == 0 { continue; }
        if std::env::var("DUMP").is_ok() { println!("{}", serde_json::to_string(&p).unwrap()); let o = r.run(&p); println!("{:?} {} recs {:?}", o.exit, o.note, o.recs); }
        let mut cx = Cx::new(&mut r);
        let v = props::eval(prop, &mut cx, &p);
        if cx.inconclusive { incon += 1; }
        if cx.nontrivial { nontriv += 1; }
        checks += cx.checks;
        for (k, n) in &cx.extra { *classes.entry(format!("+{k}")).or_default() += n; }
        if std::env::var_os("HUGE").is_some() { println!("seed {s}: {:?} steps {}", t1.elapsed(), cx.r.steps); }
        if t1.elapsed().as_millis() > 2000 { println!("slow seed {s} {:?}", t1.elapsed()); }
        if let Err(v) = v { *classes.entry(v.class.clone()).or_default() += 1; if classes[&v.class] <= 3 { println!("seed {s}: {} {}", v.class, v.msg); } }
    }
    println!("{} cases {} sims {} tools {:?} steps {} switches {} edges {}/{} faults {:?} inconclusive {} checks {} nontrivial {} {:?}", to - from, r.sims, r.tool_runs, t.elapsed(), r.steps, r.switches, r.edges(), r.guards, &r.faults[..10], incon, checks, nontriv, classes);
    0
}

/// The same plan must give the same execution, again and when replayed from its recorded schedule.
pub fn selftest(n: u64) -> i32 {
    let mut r = Runner::new();
    let mut bad = 0;
    let mut total = 0;
    for prop in props::PROPS {
        for s in 0..n {
            let p = props::gen(prop, s, false);
            if p.session == Session::ReadOnly { continue; }
            let a = r.run(&p);
            let b = r.run(&p);
            total += 1;
            let same = |x: &Outcome, y: &Outcome| x.signature() == y.signature() && x.exit == y.exit && x.wdata == y.wdata && x.switches == y.switches && x.steps == y.steps;
            if !same(&a, &b) { bad += 1; println!("{prop} seed {s}: two runs differ: {:?}/{:?} steps {}/{} switches {}/{} first difference {:?}", a.exit, b.exit, a.steps, b.steps, a.switches.len(), b.switches.len(), a.switches.iter().zip(&b.switches).position(|x| x.0 != x.1)); continue; }
            let mut q = p.clone();
            q.sim.policy = POL_REPLAY; q.sim.switches = a.switches.clone(); q.sim.p_short = 0; q.sim.p_eintr = 0; q.sim.p_spurious = 0; q.sim.p_sys = 0;
            for f in &a.fired { if [F_SHORT, F_EINTR, F_SHORT_READ, F_SPURIOUS].contains(&f.kind) { q.sim.faults.push(f.clone()); } }
            if q.sim.switches.len() >= SIM_MAX_SWITCH || q.sim.faults.len() >= SIM_MAX_FAULTS { continue; }
            let c = r.run(&q);
            if !(a.wdata == c.wdata && a.exit == c.exit && a.steps == c.steps && a.switches == c.switches) { bad += 1; println!("{prop} seed {s}: replay differs: {:?}/{:?} steps {}/{} switches {}/{} first difference {:?}", a.exit, c.exit, a.steps, c.steps, a.switches.len(), c.switches.len(), a.switches.iter().zip(&c.switches).position(|x| x.0 != x.1)); }
        }
    }
    println!("determinism: {total} plans, {bad} differences");
    (bad > 0) as i32
}
