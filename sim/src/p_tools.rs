//! The command line tools, run as simulated processes on recorded sessions.
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p_read::*;
use crate::props::Cx;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::tools::*;
use dstplan::ffi::*;
use dstplan::plan::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, UNIX_EPOCH};

/// one recorded session, as the reference model sees it
pub struct Rec { pub d: Vec<u8>, pub evs: Vec<Ev>, pub start: u128, pub pid: u32, pub cmd: String }
pub fn record(cx: &mut Cx, p: &Plan) -> Result<Option<(Rec, Outcome)>, V> {
    let o = cx.run(p);
    if !cx.finished(&o)? { return Ok(None); }
    let d = trace(p, &o)?;
    let v8 = p.session == Session::ProfilerV8;
    let evs = ref_events(&d, v8)?;
    let x = open(&d)?;
    let start = x.metadata().start_time.duration_since(UNIX_EPOCH).unwrap_or_default().as_nanos();
    let mut cmd = String::new();
    for a in &p.argv { cmd.push_str(&String::from_utf8_lossy(a)); cmd.push(' '); }
    if v8 { cmd.pop(); }
    Ok(Some((Rec { d, evs, start, pid: p.sim.pid, cmd }, o)))
}
/// interruptions a tool has to cope with silently
pub fn soft(r: &mut Rng, t: &mut Tool) {
    t.sim.seed = r.next();
    if r.chance(1, 3) { t.sim.p_short = *r.pick(&[0, 20, 128, 240]); t.sim.p_eintr = *r.pick(&[0, 20, 128]); }
}
/// the output file of an earlier run is still there
pub fn leftover(r: &mut Rng, t: &mut Tool, out: &str) {
    if !r.chance(1, 3) { return; }
    let n = *r.pick(&[0usize, 1, 40, 3_000, 600_000]);
    let d = b"[{\"x\":1},\n</svg> 17\n".iter().copied().cycle().take(n).collect();
    let dir = out.rsplit_once('/').map_or("", |x| x.0).to_string();
    if dir != "/sim" && !t.dirs.contains(&dir) { t.dirs.push(dir); }
    t.files.push((out.into(), d));
}
pub fn run_ok(cx: &mut Cx, t: &Tool) -> Result<ToolOut, V> {
    let o = cx.tool(t);
    cx.checks += 1;
    ensure!(o.ok(), "tool-failed", "`{}` fails on a valid trace ({:?}): {}", t.text(), o.exit, o.err());
    Ok(o)
}
pub fn run_refused(cx: &mut Cx, t: &Tool, why: &str) -> Check {
    let o = cx.tool(t);
    cx.checks += 1;
    ensure!(!o.ok() && o.exit != Exit::Hang, "tool-accepted", "`{}` ends with {:?} although {why}", t.text(), o.exit);
    Ok(())
}
/// where the trace lies, as told to the tool and without its extension
pub fn place(r: &mut Rng) -> (String, String) {
    let (a, b) = *r.pick(&[("trace", "/sim/work/trace"), ("trace.mm_profdata", "/sim/work/trace"), ("./trace", "/sim/work/trace"), ("/sim/work/trace", "/sim/work/trace"), ("sub/trace", "/sim/work/sub/trace"), ("sub.d/trace.mm_profdata", "/sim/work/sub.d/trace"), ("/sim/else/t", "/sim/else/t"), ("a.b.mm_profdata", "/sim/work/a.b"), ("rustc-4711.mm_profdata", "/sim/work/rustc-4711")]);
    (a.into(), b.into())
}
fn printable(s: &str) -> bool { !s.contains(|c: char| c == '\n' || c == '\r' || c == '|' || c == '\t') }

// ---- C13: summarize ------------------------------------------------------------------------------
pub fn json_sum(d: &[u8]) -> Result<Sum, V> {
    let v: Value = match serde_json::from_slice(d) { Ok(v) => v, Err(e) => return fail("bad-json", format!("the summary is no valid JSON: {e}")) };
    let dur = |v: &Value| -> i128 { v["secs"].as_u64().map(|s| s as i128 * 1_000_000_000 + v["nanos"].as_u64().unwrap_or(u64::MAX) as i128).unwrap_or(-1) };
    let mut s = Sum { total: dur(&v["total_time"]) as u128, ..Default::default() };
    for q in v["query_data"].as_array().unwrap_or(&vec![]) {
        let n = |k: &str| q[k].as_u64().unwrap_or(u64::MAX);
        let r = Row { time: dur(&q["time"]), slf: dur(&q["self_time"]), misses: n("number_of_cache_misses"), hits: n("number_of_cache_hits"), inv: n("invocation_count"), blocked: dur(&q["blocked_time"]), load: dur(&q["incremental_load_time"]), hash: dur(&q["incremental_hashing_time"]) };
        ensure!(s.rows.insert(q["label"].as_str().unwrap_or("?").to_string(), r).is_none(), "duplicate-label", "two rows for {}", q["label"]);
    }
    for a in v["artifact_sizes"].as_array().unwrap_or(&vec![]) { ensure!(s.arts.insert(a["label"].as_str().unwrap_or("?").to_string(), a["value"].as_u64().unwrap_or(u64::MAX)).is_none(), "duplicate-label", "two artifact sizes for {}", a["label"]); }
    Ok(s)
}
/// the tables of a report and the lines between them
pub fn tables(out: &str) -> (Vec<Vec<Vec<String>>>, Vec<String>) {
    let mut ts: Vec<Vec<Vec<String>>> = vec![];
    let mut rest = vec![];
    let mut open = false;
    for l in out.lines() {
        if l.starts_with('|') {
            if !open { ts.push(vec![]); open = true; }
            let c: Vec<&str> = l.split('|').collect();
            ts.last_mut().unwrap().push(c[1..c.len() - 1].iter().map(|x| x.trim().to_string()).collect());
        } else if l.starts_with('+') { open = open || false; }
        else { open = false; rest.push(l.to_string()); }
    }
    (ts, rest)
}
fn dur(n: i128) -> Duration { Duration::from_nanos(n.max(0) as u64) }
fn summary_text(out: &[u8], want: &Sum, above: Option<f64>) -> Check {
    let out = match std::str::from_utf8(out) { Ok(s) => s, Err(_) => return fail("summary-text", "the report is not UTF-8".into()) };
    let (ts, rest) = tables(out);
    ensure!(ts.len() == 2, "summary-text", "{} tables in the report instead of 2", ts.len());
    let any = |f: &dyn Fn(&Row) -> bool| want.rows.values().any(|r| f(r));
    let show = [true, true, true, true, true, any(&|r| r.hits > 0), any(&|r| r.blocked > 0), any(&|r| r.load > 0), any(&|r| r.hash > 0)];
    let heads = ["Item", "Self time", "% of total time", "Time", "Item count", "Cache hits", "Blocked time", "Incremental load time", "Incremental result hashing time"];
    let h: Vec<String> = heads.iter().zip(show).filter(|x| x.1).map(|x| x.0.to_string()).collect();
    ensure!(ts[0].first() == Some(&h), "summary-columns", "the columns are {:?} instead of {h:?}", ts[0].first());
    let total = want.total as f64;
    let pct = |r: &Row| r.slf as f64 / total * 100.0;
    let mut exp: Vec<(Vec<String>, f64, i128)> = vec![];
    let mut sum = 0.0;
    let mut near = false;
    for (l, r) in &want.rows {
        let p = pct(r);
        if let Some(a) = above { if (p - a).abs() < 1e-9 { near = true; } if p < a { continue; } }
        sum += p;
        let cells = [l.trim().to_string(), format!("{:.2?}", dur(r.slf)), String::new(), format!("{:.2?}", dur(r.time)), r.inv.to_string(), r.hits.to_string(), format!("{:.2?}", dur(r.blocked)), format!("{:.2?}", dur(r.load)), format!("{:.2?}", dur(r.hash))];
        exp.push((cells.into_iter().zip(show).filter(|x| x.1).map(|x| x.0).collect(), p, r.slf));
    }
    if near { return Ok(()); }
    let mut left: Vec<usize> = (0..exp.len()).collect();
    let mut last: Option<i128> = None;
    for row in &ts[0][1..] {
        let hit = left.iter().position(|i| {
            let e = &exp[*i];
            row.len() == e.0.len() && row.iter().zip(&e.0).enumerate().all(|(k, (a, b))| if k == 2 { match a.parse::<f64>() { Ok(v) if v.is_nan() => e.1.is_nan(), Ok(v) => (v - e.1).abs() < 0.0011, Err(_) => false } } else { a == b })
        });
        match hit {
            Some(k) => {
                let e = &exp[left.remove(k)];
                ensure!(last.map_or(true, |l| l >= e.2), "summary-order", "the row {row:?} is out of order");
                last = Some(e.2);
            }
            None => return fail("summary-row", format!("the report has the row {row:?}, which is not among the expected {:?}", left.iter().map(|i| (&exp[*i].0, exp[*i].1)).take(4).collect::<Vec<_>>())),
        }
    }
    ensure!(left.is_empty(), "summary-row", "the report lacks the row {:?}", exp[left[0]]);
    let t = format!("Total cpu time: {:?}", Duration::from_nanos(want.total as u64));
    ensure!(rest.iter().any(|l| *l == t), "total-time", "the report does not say {t:?}: {rest:?}");
    if above.unwrap_or(0.0) != 0.0 && want.total > 0 {
        let ok = rest.iter().any(|l| l.strip_prefix("Filtered results account for ").and_then(|x| x.split('%').next()).and_then(|x| x.parse::<f64>().ok()).map_or(false, |v| (v - sum).abs() < 0.002));
        ensure!(ok, "summary-text", "the report does not say that the rows account for {sum:.3}%: {rest:?}");
    }
    let mut arts: Vec<Vec<String>> = want.arts.iter().map(|(l, v)| vec![l.trim().to_string(), format!("{v} bytes")]).collect();
    let mut got: Vec<Vec<String>> = ts[1][1..].to_vec();
    arts.sort(); got.sort();
    ensure!(arts == got, "artifact-sizes", "the report lists the artifact sizes {got:?} instead of {arts:?}");
    Ok(())
}
pub fn c13_tool(cx: &mut Cx, p: &Plan, d: &[u8], want: &Sum) -> Check {
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 13);
    let (pre, base) = place(&mut r);
    let mut t = Tool::new("summarize", &["summarize", "--json", &pre], 1).file(&format!("{base}.mm_profdata"), d);
    leftover(&mut r, &mut t, &format!("{base}.json"));
    soft(&mut r, &mut t);
    let o = run_ok(cx, &t)?;
    let j = match o.file(&format!("{base}.json")) { Some(j) => j, None => return fail("no-output", format!("`{}` wrote {:?}", t.text(), o.files.keys())) };
    same_sum(&json_sum(j)?, want, "the JSON file of the summary tool")?;
    if !want.rows.keys().chain(want.arts.keys()).all(|l| printable(l)) { return Ok(()); }
    let above = if r.chance(1, 2) { None } else { Some(*r.pick(&[0.0, 1.0, 10.0, 50.0, 99.5, 100.0])) };
    let a = above.map(|x: f64| x.to_string()).unwrap_or_default();
    let (pre, base) = place(&mut r);
    let mut args = vec!["summarize", &pre[..]];
    if above.is_some() { args.extend(["--percent-above", &a]); }
    let mut t = Tool::new("summarize", &args, 1).file(&format!("{base}.mm_profdata"), d);
    soft(&mut r, &mut t);
    let o = run_ok(cx, &t)?;
    summary_text(&o.stdout, want, above).map_err(|mut e| { e.msg = format!("`{}`: {}", t.text(), e.msg); e })
}

// ---- C14: stack_collapse and flamegraph ----------------------------------------------------------
fn commas(n: u64) -> String {
    let s = n.to_string();
    s.bytes().enumerate().map(|(i, b)| if i > 0 && (s.len() - i) % 3 == 0 { format!(",{}", b as char) } else { (b as char).to_string() }).collect()
}
pub fn c14_tool(cx: &mut Cx, p: &Plan, d: &[u8], want: &BTreeMap<String, u64>) -> Check {
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 14);
    if want.keys().all(|k| !k.contains(|c| c == '\n' || c == '\r')) {
        let (pre, base) = place(&mut r);
        let mut t = Tool::new("stack_collapse", &[&pre], 1).file(&format!("{base}.mm_profdata"), d);
        leftover(&mut r, &mut t, "/sim/work/out.stacks_folded");
        soft(&mut r, &mut t);
        let o = run_ok(cx, &t)?;
        let f = o.file("/sim/work/out.stacks_folded").cloned().unwrap_or_default();
        let s = match String::from_utf8(f) { Ok(s) => s, Err(_) => return fail("stack-wrong", "out.stacks_folded is not UTF-8".into()) };
        ensure!(s.ends_with('\n'), "stack-wrong", "out.stacks_folded ends within a line");
        let mut m = BTreeMap::new();
        for l in s.lines() {
            let (k, v) = match l.rsplit_once(' ').and_then(|(k, v)| v.parse::<u64>().ok().map(|v| (k, v))) { Some(x) => x, None => return fail("stack-wrong", format!("line {:?} of out.stacks_folded has no value", short(l))) };
            ensure!(m.insert(k.to_string(), v).is_none(), "stack-wrong", "out.stacks_folded has two lines for {:?}", short(k));
        }
        same_stacks(&m, want, "out.stacks_folded")?;
    }
    let total: u64 = want.values().sum();
    let plain = |k: &String| k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b';') && !k.contains(";;") && !k.ends_with(';');
    if total == 0 || total > 1 << 50 || !want.keys().all(plain) || !r.chance(1, 2) { return Ok(()); }
    let (pre, base) = place(&mut r);
    let mut t = Tool::new("flamegraph", &[&pre], 1).file(&format!("{base}.mm_profdata"), d);
    leftover(&mut r, &mut t, "/sim/work/rustc.svg");
    soft(&mut r, &mut t);
    let o = run_ok(cx, &t)?;
    let svg = String::from_utf8_lossy(o.file("/sim/work/rustc.svg").map(|v| &v[..]).unwrap_or(b"")).to_string();
    ensure!(svg.trim_end().ends_with("</svg>"), "flamegraph-incomplete", "rustc.svg does not end like an SVG file");
    // every call path is one frame whose value covers the paths below it
    let mut frames: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in want {
        let parts: Vec<&str> = k.split(';').collect();
        for n in 1..=parts.len() { *frames.entry(parts[..n].join(";")).or_default() += v; }
    }
    // the drawing library sorts the lines and draws a call path once per run of neighbouring lines: "a 1", "ab 1", "a;b 1"
    let mut lines: Vec<String> = want.iter().map(|(k, v)| format!("{k} {v}")).collect();
    lines.sort();
    let mut ended: std::collections::HashSet<String> = Default::default();
    let mut open: Vec<String> = vec![];
    for l in &lines {
        let parts: Vec<&str> = l.rsplit_once(' ').unwrap().0.split(';').collect();
        let now: Vec<String> = (1..=parts.len()).map(|n| parts[..n].join(";")).collect();
        for k in open { if !now.contains(&k) { ended.insert(k); } }
        if now.iter().any(|k| ended.contains(k)) { *cx.stat("skipped: flame graph with a call path in several frames") += 1; return Ok(()); }
        open = now;
    }
    let mut left: BTreeMap<(String, u64), i64> = BTreeMap::new();
    for (k, v) in &frames { *left.entry((k.rsplit(';').next().unwrap().to_string(), *v)).or_default() += 1; }
    *left.entry(("all".into(), total)).or_default() += 1;
    for t in svg.split("<title>").skip(1) {
        let t = t.split("</title>").next().unwrap_or("");
        let (name, rest) = match t.rsplit_once(" (") { Some(x) => x, None => continue };
        let n: u64 = match rest.split(" sample").next().and_then(|x| x.replace(',', "").parse().ok()) { Some(n) => n, None => return fail("flamegraph-frame", format!("frame {:?} has no value", short(t))) };
        let e = left.entry((name.to_string(), n)).or_default();
        *e -= 1;
        ensure!(*e >= 0, "flamegraph-frame", "the flame graph draws a frame {:?} with {} ns, which no call path has", short(name), commas(n));
    }
    for ((name, n), c) in &left { ensure!(*c <= 0 || (*n as f64) < total as f64 * 0.005, "flamegraph-frame", "the flame graph lacks the frame {name:?} with {} of {} ns", commas(*n), commas(total)); }
    Ok(())
}

// ---- C15: crox -----------------------------------------------------------------------------------
fn variants(p: &Plan, r: &mut Rng, n: usize) -> Vec<Plan> {
    let mut v = vec![p.clone()];
    for k in 1..n {
        let mut q = p.clone();
        q.sim.seed = r.next();
        q.sim.pid = p.sim.pid ^ (k as u32) << 8;
        q.sim.wall0 += r.below(1 << 40) as i64;
        mutate(&mut q, r, true);
        v.push(q);
    }
    v
}
/// another run of nearly the same program
pub fn mutate(q: &mut Plan, r: &mut Rng, events: bool) {
    let kinds: Vec<Id> = q.pre.iter().enumerate().filter(|x| matches!(x.1, Op::Text { s } if RUSTC_KINDS.contains(&&s[..]))).map(|x| Id::Slot(opid(T_PRE, x.0))).collect();
    let labels: Vec<Id> = q.pre.iter().enumerate().filter(|x| matches!(x.1, Op::Eid { .. }) || matches!(x.1, Op::Text { s } if !RUSTC_KINDS.contains(&&s[..]))).map(|x| Id::Slot(opid(T_PRE, x.0))).collect();
    if kinds.is_empty() || labels.is_empty() { return; }
    let rate = *r.pick(&[4, 12, 40]);
    if r.chance(1, 2) { q.sim.tick_max = *r.pick(&[1, 100, 10_000, 3_000_000]); }
    for ops in q.threads.iter_mut().chain(std::iter::once(&mut q.post)) {
        for o in ops.iter_mut() {
            if let Op::Advance { ns } = o { if r.chance(1, 2) { *ns = *r.pick(&[1, 100, 5000, 1_000_000, 7_000_000_000]); } }
            if !events || !r.chance(1, rate) { continue; }
            match r.below(3) {
                0 => if matches!(o, Op::Begin { .. } | Op::Instant { .. } | Op::Integer { .. }) { *o = Op::Nop },
                1 => match o { Op::Begin { eid, .. } | Op::Instant { eid, .. } | Op::Integer { eid, .. } => *eid = *r.pick(&labels), _ => {} },
                _ => match o { Op::Begin { kind, .. } | Op::Instant { kind, .. } => *kind = *r.pick(&kinds), Op::Integer { val, .. } => *val = r.below(1 << 30), _ => {} },
            }
        }
    }
}
pub fn gen_c15(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 5);
    let mut p = if r.chance(1, 4) { gen_mixed(prop, seed, r, v8) } else {
        let threads = *r.pick(&[(1, 3), (2, 6), (4, 8)]);
        let ops = *r.pick(&[(0, 4), (2, 20), (10, 60)]);
        let fill = r.chance(1, 8);
        nested_plan(prop, seed, r, &Nest { v8, newlines: true, ops, threads, fill, ..Default::default() })
    };
    let n = r.range(1, 5);
    p.argv = (0..n).map(|_| r.pick(&["rustc", "--crate-name", "foo_bar", "src/lib.rs", "-", "--crate-name=x", "x--crate-name"]).bytes().collect()).collect();
    if r.chance(1, 3) { p.argv = vec![b"rustc".to_vec(), b"--crate-name".to_vec(), b"foo".to_vec(), b"--crate-name".to_vec(), b"bar".to_vec()]; p.argv.truncate(r.range(2, 5) as usize); }
    if !v8 && r.chance(1, 4) { p.argv.push("é\"\\ \u{1}".bytes().collect()); }
    if v8 { plain_v8(&mut p); }
    p.extra = vec![r.next()];
    p
}
pub fn gen_mixed(prop: &str, seed: u64, r: &mut Rng, v8: bool) -> Plan {
    let o = Opts { v8, virt: r.chance(1, 2), ops: *r.pick(&[(0, 3), (1, 8), (5, 40)]), threads: (1, 4), fill: r.chance(1, 6), real_tids: r.chance(1, 3), ..Default::default() };
    let mut p = profiler_plan(prop, seed, r, &o);
    clocks(r, &mut p);
    sched(r, &mut p);
    if v8 { plain_v8(&mut p); }
    p
}
fn v8_skip(cx: &mut Cx, p: &Plan, d: &[u8]) -> bool {
    if p.session != Session::ProfilerV8 { return false; }
    let skip = finished_streams(d).map_or(true, |s| v8_reader_trips(&s));
    if skip { *cx.stat("skipped: misread by the released v8 reader") += 1; }
    skip
}
pub fn c15(cx: &mut Cx, p: &Plan) -> Check {
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 15);
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    let mut recs: Vec<Rec> = vec![];
    for q in variants(p, &mut r, n) {
        match record(cx, &q)? { Some((x, _)) => { if v8_skip(cx, &q, &x.d) { return Ok(()); } recs.push(x) } None => return Ok(()) }
    }
    let min: Option<u64> = if r.chance(1, 2) { None } else { Some(*r.pick(&[0, 1, 2, 1000, 1_000_000])) };
    let collapse = r.chance(1, 2);
    let dir = r.chance(1, 3);
    let m = min.map(|m| m.to_string()).unwrap_or_default();
    let mut args: Vec<&str> = vec![];
    let names = ["one", "two.x", "sub/three", "four four", "sub/5.mm_profdata"];
    let mut t = Tool::new("crox", &[], 1);
    t.dirs.push("/sim/work/sub".into());
    t.dirs.push("/sim/work/traces".into());
    let split = if dir { r.idx(n + 1) } else { n };
    let with_ext = r.chance(1, 2);
    let mut given: Vec<String> = vec![];
    for (i, x) in recs.iter().enumerate() {
        if i < split {
            let f = std::path::Path::new("/sim/work").join(names[i]).with_extension("mm_profdata");
            t.files.push((f.to_str().unwrap().into(), x.d.clone()));
            given.push(if with_ext { f.strip_prefix("/sim/work").unwrap().to_str().unwrap().into() } else { names[i].to_string() });
        } else { t.files.push((format!("/sim/work/traces/t-{i}.mm_profdata"), x.d.clone())); }
    }
    for g in &given { args.push(g); }
    if dir { args.extend(["--dir", "traces"]); t.files.push(("/sim/work/traces/readme.txt".into(), b"no trace".to_vec())); t.files.push(("/sim/work/traces/t.mm_profdata.bak".into(), b"x".to_vec())); t.files.push(("/sim/work/traces/mm_profdata".into(), b"x".to_vec())); }
    if collapse { args.push("--collapse-threads"); }
    if min.is_some() { args.extend(["--minimum-duration", &m]); }
    if !dir && given.is_empty() { return Ok(()); }
    t.args = args.iter().map(|a| a.as_bytes().to_vec()).collect();
    leftover(&mut r, &mut t, "/sim/work/chrome_profiler.json");
    soft(&mut r, &mut t);
    let o = run_ok(cx, &t)?;
    let out = o.file("/sim/work/chrome_profiler.json").cloned().unwrap_or_default();
    let v: Value = match serde_json::from_slice(&out) { Ok(v) => v, Err(e) => return fail("bad-json", format!("`{}`: chrome_profiler.json is no valid JSON: {e}", t.text())) };
    let a = match v.as_array() { Some(a) => a.clone(), None => return fail("bad-json", "chrome_profiler.json is no array".into()) };
    cx.checks += a.len() as u64;
    let bad = |class: &str, m: String| -> Check { fail(class, format!("`{}`: {m}", t.text())) };
    let mut want: BTreeMap<String, i64> = BTreeMap::new();
    let mut metas: BTreeMap<String, i64> = BTreeMap::new();
    let key = |x: &Value| serde_json::to_string(x).unwrap();
    // collapsed lanes: what each thread's events carry is looked up per event
    let mut lanes: BTreeMap<(u32, u32), BTreeSet<u64>> = BTreeMap::new();
    for x in &recs {
        for e in &x.evs {
            if let Pay::Interval(s, f) = e.pay {
                if let Some(m) = min { if (f - s) / 1000 < m { continue; } }
                let args = if e.args.is_empty() { Value::Null } else { Value::Object(e.args.iter().enumerate().map(|(i, a)| (format!("arg{i}"), Value::String(a.clone()))).collect()) };
                let tid = if collapse { json!("*") } else { json!(e.tid) };
                *want.entry(key(&json!({"name": e.label, "cat": e.kind, "ph": "X", "ts": ((x.start + s as u128) / 1000) as u64, "dur": (f - s) / 1000, "pid": x.pid, "tid": tid, "args": args}))).or_default() += 1;
            }
        }
        *metas.entry(key(&json!(["process_sort_index", x.pid, {"sort_index": (x.start / 1000) as u64}]))).or_default() += 1;
        if let Some(i) = x.cmd.find(" --crate-name ") {
            let rest = &x.cmd[i + 14..];
            *metas.entry(key(&json!(["process_name", x.pid, {"name": rest.split(' ').next().unwrap()}]))).or_default() += 1;
        }
    }
    // a thread's events in the export are recognised by everything but the lane
    let mut by_sig: BTreeMap<String, BTreeSet<(u32, u32)>> = BTreeMap::new();
    if collapse {
        for x in &recs { for e in &x.evs { if let Pay::Interval(s, f) = e.pay {
            by_sig.entry(format!("{} {} {} {} {} {:?}", x.pid, ((x.start + s as u128) / 1000) as u64, (f - s) / 1000, e.label, e.kind, e.args)).or_default().insert((x.pid, e.tid));
        } } }
    }
    for ev in &a {
        match ev["ph"].as_str() {
            Some("X") => {
                let mut c = ev.clone();
                if collapse { c["tid"] = json!("*"); }
                match want.get_mut(&key(&c)) { Some(n) if *n > 0 => *n -= 1, Some(_) => return bad("event-duplicated", format!("event {} comes too often", key(&c))), None => return bad("event-wrong", format!("event {} was not recorded or should not be exported; missing are {:?}", key(&c), want.iter().filter(|x| *x.1 > 0).take(3).collect::<Vec<_>>())) }
                if collapse {
                    let lane = match ev["tid"].as_u64() { Some(l) => l, None => return bad("event-wrong", format!("event {} has no thread id", key(ev))) };
                    let args: Vec<String> = ev["args"].as_object().map(|m| { let mut v: Vec<_> = m.iter().collect(); v.sort_by_key(|x| x.0[3..].parse::<u32>().unwrap_or(0)); v.into_iter().map(|x| x.1.as_str().unwrap_or("").to_string()).collect() }).unwrap_or_default();
                    let k = format!("{} {} {} {} {} {:?}", ev["pid"], ev["ts"], ev["dur"], ev["name"].as_str().unwrap_or(""), ev["cat"].as_str().unwrap_or(""), args);
                    if let Some(s) = by_sig.get(&k) { if s.len() == 1 { lanes.entry(*s.iter().next().unwrap()).or_default().insert(lane); } }
                }
            }
            Some("M") => {
                let k = key(&json!([ev["name"], ev["pid"], ev["args"]]));
                match metas.get_mut(&k) { Some(n) if *n > 0 => *n -= 1, _ => return bad("metadata-wrong", format!("process metadata {k} is not expected (missing are {:?})", metas.iter().filter(|x| *x.1 > 0).collect::<Vec<_>>())) }
            }
            _ => return bad("event-wrong", format!("unexpected entry {}", short(&key(ev)))),
        }
    }
    if let Some((k, _)) = want.iter().find(|x| *x.1 > 0) { return bad("event-missing", format!("event {k} is not exported")); }
    if let Some((k, _)) = metas.iter().find(|x| *x.1 > 0) { return bad("metadata-missing", format!("process metadata {k} is missing")); }
    if collapse {
        for ((_, tid), l) in &lanes { ensure!(l.len() == 1, "thread-split", "`{}`: thread {tid} is spread over the lanes {l:?}", t.text()); }
        for x in &recs {
            // activity of a thread: first to last timestamp of any of its events
            let mut span: BTreeMap<u32, (u64, u64)> = BTreeMap::new();
            for e in &x.evs {
                let (s, f) = match e.pay { Pay::Interval(s, f) => (s, f), Pay::Instant(s) => (s, s), _ => continue };
                let y = span.entry(e.tid).or_insert((s, f));
                y.0 = y.0.min(s); y.1 = y.1.max(f);
            }
            let v: Vec<_> = span.iter().collect();
            for i in 0..v.len() { for j in 0..i {
                let (a, b) = (v[i], v[j]);
                let over = a.1 .0 < b.1 .1 && b.1 .0 < a.1 .1 || a.1 == b.1;
                if over { if let (Some(x1), Some(x2)) = (lanes.get(&(x.pid, *a.0)), lanes.get(&(x.pid, *b.0))) {
                    ensure!(x1.is_disjoint(x2), "lane-overlap", "`{}`: threads {} ({:?}) and {} ({:?}) are active at the same time but share lane {:?}", t.text(), a.0, a.1, b.0, b.1, x1);
                    *cx.stat("overlapping thread pairs in lanes of their own") += 1;
                } }
                else if let (Some(x1), Some(x2)) = (lanes.get(&(x.pid, *a.0)), lanes.get(&(x.pid, *b.0))) { if x1 == x2 { *cx.stat("thread pairs sharing a lane") += 1; } }
            } }
        }
    }
    Ok(())
}

// ---- C16: mmview ---------------------------------------------------------------------------------
pub fn gen_c16(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 5);
    let mut p = if r.chance(1, 2) { gen_mixed(prop, seed, r, v8) } else {
        let ops = *r.pick(&[(0, 2), (1, 6), (5, 40)]);
        let fill = r.chance(1, 10);
        nested_plan(prop, seed, r, &Nest { v8, newlines: true, ops, fill, ..Default::default() })
    };
    if r.chance(1, 8) {
        // nothing but integers
        let fix = |o: &mut Op| if matches!(o, Op::Begin { .. } | Op::Instant { .. } | Op::Unwind { .. } | Op::End { .. }) { *o = Op::Nop };
        for t in p.threads.iter_mut() { t.iter_mut().for_each(fix); }
        p.pre.iter_mut().for_each(fix);
        p.post.iter_mut().for_each(fix);
    }
    if v8 { plain_v8(&mut p); }
    p.extra = vec![r.next()];
    p
}
fn view(evs: &[Ev], tid: Option<u32>) -> String {
    let t0 = evs.iter().filter_map(|e| match e.pay { Pay::Interval(a, _) => Some(a), Pay::Instant(a) => Some(a), _ => None }).min().unwrap_or(0);
    let mut s = String::new();
    for e in evs {
        if tid.map_or(false, |t| t != e.tid) { continue; }
        let pay = match e.pay {
            Pay::Interval(a, b) => format!("{} μs - {} μs", (a - t0) / 1000, (b - t0) / 1000),
            Pay::Instant(a) => format!("{} μs", (a - t0) / 1000),
            Pay::Integer(v) => v.to_string(),
        };
        s.push_str(&format!("{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {},\n    thread_id: {},\n}}\n", e.kind, e.label, e.args.join(","), pay, e.tid));
    }
    s
}
pub fn c16(cx: &mut Cx, p: &Plan) -> Check {
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 16);
    let x = match record(cx, p)? { Some((x, _)) => x, None => return Ok(()) };
    if v8_skip(cx, p, &x.d) { return Ok(()); }
    let tids: BTreeSet<u32> = x.evs.iter().map(|e| e.tid).collect();
    let mut filters: Vec<Option<u32>> = vec![None];
    for t in tids.iter().take(2) { filters.push(Some(*t)); }
    filters.push(Some(r.next() as u32));
    for f in filters {
        let a = f.map(|t| t.to_string()).unwrap_or_default();
        let b = format!("--thread-id={a}");
        let mut args = vec!["tr"];
        if f.is_some() { if r.chance(1, 2) { args.extend(["-t", &a]); } else { args.insert(0, &b); } }
        let mut t = Tool::new("mmview", &args, 1).file("/sim/work/tr.mm_profdata", &x.d);
        soft(&mut r, &mut t);
        let o = run_ok(cx, &t)?;
        let want = view(&x.evs, f);
        cx.checks += x.evs.len() as u64;
        if o.stdout != want.as_bytes() {
            let got = String::from_utf8_lossy(&o.stdout).to_string();
            let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            let cut = |s: &str| { let b = s.as_bytes(); String::from_utf8_lossy(&b[i.saturating_sub(40)..(i + 80).min(b.len())]).to_string() };
            let class = if got.len() < want.len() && want.starts_with(&got) { "listing-incomplete" } else { "listing-wrong" };
            return fail(class, format!("`{}` on {} events prints …{:?}… instead of …{:?}… ({} instead of {} bytes)", t.text(), x.evs.len(), cut(&got), cut(&want), got.len(), want.len()));
        }
        if f.is_some() && !want.is_empty() { *cx.stat("filtered listings") += 1; }
    }
    Ok(())
}

// ---- C17: summarize diff / aggregate -------------------------------------------------------------
pub fn gen_c17(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let agg = r.chance(1, 2);
    let threads = if agg && r.chance(4, 5) { (1, 1) } else { (1, 3) };
    let ops = *r.pick(&[(1, 8), (4, 30), (20, 100)]);
    let fill = r.chance(1, 10);
    let mut p = nested_plan(prop, seed, r, &Nest { newlines: false, ops, threads, fill, ..Default::default() });
    if agg && r.chance(4, 5) { p.post.clear(); }
    if agg && r.chance(3, 4) { p.sim.p_tick = 255; p.sim.tick_max = *r.pick(&[5000, 1_000_000]); }
    p.extra = vec![r.next(), agg as u64];
    p
}
fn neg(d: &BTreeMap<String, [i128; 8]>) -> BTreeMap<String, [i128; 8]> { d.iter().map(|(k, v)| (k.clone(), v.map(|x| -x))).collect() }
fn row8(r: &Row) -> [i128; 8] { [r.time, r.slf, r.misses as i128, r.hits as i128, r.inv as i128, r.blocked, r.load, r.hash] }
fn diff_model(a: &Sum, b: &Sum) -> (BTreeMap<String, [i128; 8]>, BTreeMap<String, i128>, i128) {
    let mut m = BTreeMap::new();
    for l in a.rows.keys().chain(b.rows.keys()) {
        let (x, y) = (a.rows.get(l).map(row8).unwrap_or_default(), b.rows.get(l).map(row8).unwrap_or_default());
        let mut d = [0; 8];
        for i in 0..8 { d[i] = y[i] - x[i]; }
        m.insert(l.clone(), d);
    }
    let mut arts = BTreeMap::new();
    for l in a.arts.keys().chain(b.arts.keys()) { arts.insert(l.clone(), b.arts.get(l).copied().unwrap_or(0) as i128 - a.arts.get(l).copied().unwrap_or(0) as i128); }
    (m, arts, b.total as i128 - a.total as i128)
}
fn json_diff(d: &[u8]) -> Result<(BTreeMap<String, [i128; 8]>, BTreeMap<String, i128>, i128), V> {
    let v: Value = match serde_json::from_slice(d) { Ok(v) => v, Err(e) => return fail("bad-json", format!("the difference is no valid JSON: {e}")) };
    let sd = |v: &Value| -> i128 { let d = &v["duration"]; let n = d["secs"].as_u64().unwrap_or(u64::MAX) as i128 * 1_000_000_000 + d["nanos"].as_u64().unwrap_or(0) as i128; if v["is_positive"] == json!(true) { n } else { -n } };
    let n = |v: &Value| v.as_i64().map(|x| x as i128).unwrap_or(i128::MAX / 4);
    let mut m = BTreeMap::new();
    let mut last = u128::MAX;
    for q in v["query_data"].as_array().unwrap_or(&vec![]) {
        let by = sd(&q["self_time"]).unsigned_abs();
        ensure!(by <= last, "diff-order", "{} with a change of {by} ns comes after a smaller change", q["label"]);
        last = by;
        let r = [sd(&q["time"]), sd(&q["self_time"]), n(&q["number_of_cache_misses"]), n(&q["number_of_cache_hits"]), n(&q["invocation_count"]), sd(&q["blocked_time"]), sd(&q["incremental_load_time"]), sd(&q["incremental_hashing_time"])];
        ensure!(m.insert(q["label"].as_str().unwrap_or("?").to_string(), r).is_none(), "duplicate-label", "two rows for {}", q["label"]);
    }
    let mut arts = BTreeMap::new();
    let mut last = i128::MAX;
    for a in v["artifact_sizes"].as_array().unwrap_or(&vec![]) {
        let by = n(&a["size_change"]);
        ensure!(by <= last, "diff-order", "artifact {} with a change of {by} bytes comes after a smaller change", a["label"]);
        last = by;
        ensure!(arts.insert(a["label"].as_str().unwrap_or("?").to_string(), n(&a["size_change"])).is_none(), "duplicate-label", "two artifact sizes for {}", a["label"]);
    }
    Ok((m, arts, sd(&v["total_time"])))
}
const COLS: [&str; 8] = ["time", "self time", "cache misses", "cache hits", "invocations", "blocked time", "incremental load time", "incremental hashing time"];
fn same_diff(got: &(BTreeMap<String, [i128; 8]>, BTreeMap<String, i128>, i128), want: &(BTreeMap<String, [i128; 8]>, BTreeMap<String, i128>, i128), what: &str) -> Check {
    for (l, w) in &want.0 {
        match got.0.get(l) {
            None => return fail("row-missing", format!("{what} has no row for {:?}", short(l))),
            Some(g) => for i in 0..8 { ensure!(g[i] == w[i], "difference-wrong", "{what}: the {} of {:?} changed by {} but it says {}", COLS[i], short(l), w[i], g[i]); },
        }
    }
    for l in got.0.keys() { ensure!(want.0.contains_key(l), "row-invented", "{what} has a row for {:?}, found in neither profile", short(l)); }
    ensure!(got.1 == want.1, "artifact-sizes", "{what}: artifact size changes {:?} instead of {:?}", got.1, want.1);
    ensure!(got.2 == want.2, "total-time", "{what}: the total time changed by {} ns but it says {}", want.2, got.2);
    Ok(())
}
fn sd_text(n: i128, cell: &str) -> bool { let d = format!("{:?}", Duration::from_nanos(n.unsigned_abs() as u64)); cell == format!("{}{d}", if n < 0 { '-' } else { '+' }) || n == 0 && cell == format!("-{d}") }
fn diff_text(out: &[u8], a: &Sum, b: &Sum, excl: &[&str]) -> Check {
    let out = String::from_utf8_lossy(out).to_string();
    let (ts, rest) = tables(&out);
    ensure!(ts.len() == 2, "diff-text", "{} tables in the report instead of 2", ts.len());
    let m = diff_model(a, b);
    let skip = |l: &str| excl.iter().any(|e| l.contains(e));
    let mut left: Vec<(&String, &[i128; 8])> = m.0.iter().filter(|x| !skip(x.0)).collect();
    let pct = |l: &str, i: usize| -> f64 {
        match (a.rows.get(l), b.rows.get(l)) {
            (Some(_), None) => -100.0,
            (None, _) => f64::INFINITY,
            (Some(x), Some(y)) => { let (x, y) = (row8(x)[i], row8(y)[i]); if x == y { 0.0 } else { (y - x) as f64 / x as f64 * 100.0 } }
        }
    };
    let pct_ok = |cell: &str, want: f64| cell.strip_suffix('%').and_then(|x| x.parse::<f64>().ok()).map_or(false, |v| v == want || (v - want).abs() <= 0.0101 + want.abs() * 1e-9);
    let mut last = u128::MAX;
    for row in &ts[0][1..] {
        ensure!(row.len() == 10, "diff-text", "row {row:?} has {} columns instead of 10", row.len());
        let k = left.iter().position(|(l, d)| l.trim() == row[0] && sd_text(d[1], &row[1]) && pct_ok(&row[2], pct(l, 1)) && sd_text(d[0], &row[3]) && pct_ok(&row[4], pct(l, 0))
            && row[5] == format!("{:+}", d[4]) && row[6] == format!("{:+}", d[3]) && sd_text(d[5], &row[7]) && sd_text(d[6], &row[8]) && sd_text(d[7], &row[9]));
        match k { Some(k) => { let by = left.remove(k).1[1].unsigned_abs(); ensure!(by <= last, "diff-order", "the row {row:?} comes after a smaller change of self time"); last = by; } None => {
            let like = m.0.iter().find(|x| x.0.trim() == row[0]);
            return fail("difference-wrong", format!("the report has the row {row:?}; the changes of that label are {like:?} ({COLS:?}) and {:?}%, {:?}%", like.map(|x| pct(x.0, 1)), like.map(|x| pct(x.0, 0)))) } }
    }
    ensure!(left.is_empty(), "row-missing", "the report has no row for {:?}", short(left[0].0));
    let tl = rest.iter().find_map(|l| l.strip_prefix("Total cpu time: "));
    ensure!(tl.map_or(false, |c| sd_text(m.2, c)), "total-time", "the total time changed by {} ns but the report says {tl:?}", m.2);
    let mut arts: Vec<Vec<String>> = m.1.iter().filter(|x| !skip(x.0)).map(|(l, v)| vec![l.trim().to_string(), format!("{v} bytes")]).collect();
    let mut got: Vec<Vec<String>> = ts[1][1..].to_vec();
    arts.sort(); got.sort();
    ensure!(arts == got, "artifact-sizes", "the report lists the artifact size changes {got:?} instead of {arts:?}");
    Ok(())
}
pub fn c17(cx: &mut Cx, p: &Plan) -> Check {
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 17);
    if p.extra.get(1) == Some(&1) { return c17_agg(cx, p, &mut r); }
    let mut q = p.clone();
    let same = r.chance(1, 5);
    if !same { q.sim.seed = r.next(); mutate(&mut q, &mut r, true); }
    let mut sums = vec![];
    let mut files = vec![];
    for p in [p, &q] {
        let (x, o) = match record(cx, p)? { Some(x) => x, None => return Ok(()) };
        let nodes = call_trees(p, &o, &x.evs)?;
        let s = model_summary(&x.evs, &nodes);
        if s.arts.values().any(|v| *v > 1 << 60) { return Ok(()); }
        sums.push(s);
        files.push(x.d);
    }
    let (a, b) = (&sums[0], &sums[1]);
    let want = diff_model(a, b);
    // two traces, or two summaries written before
    let via_json = r.chance(1, 3);
    let mut t = Tool::new("summarize", &["diff", "--json", "base", "change"], 1);
    let mut ins: Vec<(String, Vec<u8>)> = vec![("/sim/work/base.mm_profdata".into(), files[0].clone()), ("/sim/work/change.mm_profdata".into(), files[1].clone())];
    let mut names = ("base", "change");
    // summaries of other runs may lie beside them
    let mut stale: Vec<(String, Vec<u8>)> = vec![];
    if r.chance(1, 4) {
        let t = Tool::new("summarize", &["summarize", "--json", "x"], 1).file("/sim/work/x.mm_profdata", &files[1]);
        let j = run_ok(cx, &t)?.file("/sim/work/x.json").cloned().unwrap_or_default();
        stale.push(("/sim/work/base.json".into(), j.clone()));
        if r.chance(1, 2) { stale.push(("/sim/work/change.json".into(), if r.chance(1, 2) { j } else { b"{".to_vec() })); }
    }
    if via_json {
        let mut js = vec![];
        for i in 0..2 {
            let mut t = Tool::new("summarize", &["summarize", "--json", "x"], 1).file("/sim/work/x.mm_profdata", &files[i]);
            soft(&mut r, &mut t);
            let o = run_ok(cx, &t)?;
            js.push(o.file("/sim/work/x.json").cloned().unwrap_or_default());
        }
        ins = vec![("/sim/work/base.json".into(), js[0].clone()), ("/sim/work/change.json".into(), js[1].clone())];
        // traces of another run may lie beside them
        if r.chance(1, 2) { ins.push(("/sim/work/base.mm_profdata".into(), files[1].clone())); ins.push(("/sim/work/change.mm_profdata".into(), files[0].clone())); }
        names = ("base.json", "change.json");
        stale.clear();
        *cx.stat("differences of written summaries") += 1;
    }
    ins.extend(stale);
    let mut go = |cx: &mut Cx, r: &mut Rng, args: &[&str]| -> Result<ToolOut, V> {
        t.args = args.iter().map(|x| x.as_bytes().to_vec()).collect();
        t.files = ins.clone();
        soft(r, &mut t);
        run_ok(cx, &t)
    };
    let json = |o: &ToolOut, n: &str| -> Result<_, V> { match o.file(n) { Some(f) => json_diff(f), None => fail("no-output", format!("no file {n} was written")) } };
    let o = go(cx, &mut r, &["diff", "--json", names.0, names.1])?;
    same_diff(&json(&o, "/sim/work/change.json")?, &want, &format!("`summarize diff --json {} {}`", names.0, names.1))?;
    match r.below(3) {
        0 => {
            let o = go(cx, &mut r, &["diff", "--json", names.1, names.0])?;
            let w = (neg(&want.0), want.1.iter().map(|(k, v)| (k.clone(), -v)).collect(), -want.2);
            same_diff(&json(&o, "/sim/work/base.json")?, &w, "the swapped comparison")?;
        }
        1 => {
            let o = go(cx, &mut r, &["diff", "--json", names.0, names.0])?;
            let f = o.file("/sim/work/base.json").cloned().unwrap_or_default();
            let g = json_diff(&f)?;
            same_diff(&g, &diff_model(a, a), "the comparison of a profile with itself")?;
            let v: Value = serde_json::from_slice(&f).unwrap();
            for q in v["query_data"].as_array().unwrap_or(&vec![]) { for k in ["time_change", "self_time_change"] { ensure!(q[k].as_f64() == Some(0.0), "change-of-nothing", "comparing a profile with itself reports {k} = {} for {} (time {} ns, self time {} ns)", q[k], q["label"], a.rows[q["label"].as_str().unwrap()].time, a.rows[q["label"].as_str().unwrap()].slf); } }
        }
        _ => {
            if !want.0.keys().chain(want.1.keys()).all(|l| printable(l)) { return Ok(()); }
            let ex: Vec<&str> = match r.below(3) { 0 => vec![], 1 => vec!["a"], _ => vec!["parse", "_"] };
            let mut args = vec!["diff", names.0, names.1];
            for e in &ex { args.extend(["-e", e]); }
            let o = go(cx, &mut r, &args)?;
            diff_text(&o.stdout, a, b, &ex).map_err(|mut e| { e.msg = format!("`summarize {}`: {}", args.join(" "), e.msg); e })?;
        }
    }
    Ok(())
}

/// more events than another run, before or after all the others
fn extra_points(q: &mut Plan, r: &mut Rng) {
    let find = |f: &dyn Fn(&Op) -> Option<u32>| q.threads.iter().flatten().chain(&q.post).find_map(|o| f(o));
    let tid = match find(&|o| match o { Op::Begin { tid, .. } | Op::Instant { tid, .. } => Some(*tid), _ => None }) { Some(t) => t, None => return };
    let text = match q.pre.iter().position(|o| matches!(o, Op::Text { .. })) { Some(i) => Id::Slot(opid(T_PRE, i)), None => return };
    for _ in 0..r.range(1, 3) {
        let at_end = r.chance(1, 2);
        let v = if at_end { &mut q.post } else { &mut q.pre };
        if r.chance(1, 2) { v.push(Op::Instant { kind: text, eid: text, tid }); }
        else { let b = opid(if at_end { T_POST } else { T_PRE }, v.len()); v.push(Op::Begin { kind: text, eid: text, tid, detached: false }); v.push(Op::End { begin: b, over: None }); }
    }
}

// aggregate: the points in time of one run, in order
#[derive(Clone, Debug, PartialEq)]
struct Pt { what: u8, ev: usize, parent: Option<usize>, t: u64 }
/// (points in time of the run, the last one first)
fn points(p: &Plan, o: &Outcome, evs: &[Ev]) -> Result<Option<Vec<Pt>>, V> {
    let nodes = call_trees(p, o, evs)?;
    let mut pts: Vec<Pt> = vec![];
    let mut ivs: Vec<(u64, u64, usize)> = vec![];
    for n in &nodes {
        if let Pay::Interval(a, b) = evs[n.ev].pay {
            let par = n.parent.map(|k| nodes[k].ev);
            pts.push(Pt { what: 0, ev: n.ev, parent: par, t: a });
            pts.push(Pt { what: 1, ev: n.ev, parent: par, t: b });
            ivs.push((a, b, n.ev));
        }
    }
    for (i, e) in evs.iter().enumerate() {
        if let Pay::Instant(t) = e.pay {
            let par = ivs.iter().filter(|x| x.0 <= t && t <= x.1).min_by_key(|x| x.1 - x.0).map(|x| x.2);
            pts.push(Pt { what: 2, ev: i, parent: par, t });
        }
    }
    pts.sort_by_key(|x| x.t);
    // simultaneous points have no order
    if pts.windows(2).any(|w| w[0].t == w[1].t) { return Ok(None); }
    Ok(Some(pts))
}
fn desc(e: &Ev) -> String {
    let k = if e.kind == "Query" || e.kind == "GenericActivity" { String::new() } else { format!("{} ", e.kind) };
    format!("{k}`{}({})`", e.label, e.args.join(", "))
}
fn between(s: &Pt, e: &Pt, evs: &[Ev]) -> String {
    let d = |i: usize| desc(&evs[i]);
    match (s.what, e.what) {
        (0, 1) => d(s.ev),
        (0, _) => format!("in {}, before {}", d(s.ev), d(e.ev)),
        (_, 1) => format!("in {}, after {}", d(e.ev), d(s.ev)),
        _ => match s.parent { Some(q) => format!("in {},\n    between {}\n        and {}\n", d(q), d(s.ev), d(e.ev)), None => format!("between {} and {}", d(s.ev), d(e.ev)) },
    }
}
fn c17_agg(cx: &mut Cx, p: &Plan, r: &mut Rng) -> Check {
    let n = if r.chance(1, 8) { r.range(5, 9) } else { r.range(1, 4) } as usize;
    let differ = n > 1 && r.chance(1, 3);
    let odd = if differ { r.idx(n) } else { usize::MAX };
    let mut runs: Vec<(Rec, Option<Vec<Pt>>)> = vec![];
    for k in 0..n {
        let mut q = p.clone();
        if k > 0 { q.sim.seed = r.next(); if r.chance(2, 3) { mutate(&mut q, r, false); } }
        if k == odd { mutate(&mut q, r, true); if r.chance(1, 2) { extra_points(&mut q, r); } }
        let (x, o) = match record(cx, &q)? { Some(x) => x, None => return Ok(()) };
        let pts = points(&q, &o, &x.evs)?;
        runs.push((x, pts));
    }
    let mut t = Tool::new("summarize", &["aggregate"], 1);
    for (k, x) in runs.iter().enumerate() {
        t.args.push(format!("r{k}").into_bytes());
        t.files.push((format!("/sim/work/r{k}.mm_profdata"), x.0.d.clone()));
    }
    soft(r, &mut t);
    for (x, _) in &runs {
        let tids: BTreeSet<u32> = x.evs.iter().filter(|e| !matches!(e.pay, Pay::Integer(_))).map(|e| e.tid).collect();
        if tids.len() > 1 { return run_refused(cx, &t, "a run has several threads"); }
    }
    if runs.iter().any(|x| x.1.is_none()) { *cx.stat("skipped: simultaneous points in time") += 1; return Ok(()); }
    let seqs: Vec<Vec<(u8, String, Option<String>)>> = runs.iter().map(|(x, pts)| {
        // arguments are compared one by one
        let d = |i: usize| format!("{:?} {:?} {:?}", x.evs[i].kind, x.evs[i].label, x.evs[i].args);
        pts.as_ref().unwrap().iter().map(|q| (q.what, d(q.ev), q.parent.map(&d))).collect()
    }).collect();
    if seqs.iter().any(|s| s.len() < 2) { return Ok(()); }
    if seqs.iter().any(|s| *s != seqs[0]) { *cx.stat("refused aggregations") += 1; return run_refused(cx, &t, "the runs have different sequences of events"); }
    let o = run_ok(cx, &t)?;
    *cx.stat("aggregations") += 1;
    let pts: Vec<&Vec<Pt>> = runs.iter().map(|x| x.1.as_ref().unwrap()).collect();
    let count = pts[0].len() - 1;
    cx.checks += count as u64;
    let mut maps: [BTreeMap<u64, Vec<usize>>; 3] = Default::default();
    for i in 0..count {
        let ds: Vec<u64> = pts.iter().map(|v| v[i + 1].t - v[i].t).collect();
        let (lo, hi) = (*ds.iter().min().unwrap(), *ds.iter().max().unwrap());
        maps[0].entry(lo).or_default().push(i);
        maps[1].entry(hi).or_default().push(i);
        maps[2].entry(hi - lo).or_default().push(i);
    }
    let ev0 = &runs[0].0.evs;
    let line = |v: &Vec<usize>| if v.len() == 1 { between(&pts[0][v[0]], &pts[0][v[0] + 1], ev0) } else { format!("{} occurrences, or {:.2}%", v.len(), v.len() as f64 / count as f64 * 100.0) };
    let smallest = |m: &BTreeMap<u64, Vec<usize>>| m.iter().take(10).map(|(k, v)| (*k, line(v))).collect::<Vec<_>>();
    let largest = |m: &BTreeMap<u64, Vec<usize>>| m.iter().skip(m.len().saturating_sub(10)).map(|(k, v)| (*k, line(v))).collect::<Vec<_>>();
    let mut w = String::new();
    for (title, list, var) in [("Smallest", smallest(&maps[0]), false), ("Largest", largest(&maps[1]), false), ("Smallest", smallest(&maps[2]), true), ("Largest", largest(&maps[2]), true)] {
        if !w.is_empty() { w.push('\n'); }
        w.push_str(&format!("{title} {} {}:\n", list.len(), if var { "variances" } else { "durations" }));
        for (k, l) in list { if var { w.push_str(&format!("  ±{} ns: {l}\n", k as f64 / 2.0)); } else { w.push_str(&format!("  {k} ns: {l}\n")); } }
    }
    let got = String::from_utf8_lossy(&o.stdout).to_string();
    if got != w {
        let (a, b) = got.lines().zip(w.lines()).find(|x| x.0 != x.1).unwrap_or(("(end)", "(end)"));
        return fail("aggregate-wrong", format!("aggregating {n} runs prints {:?} instead of {:?}", short(a), short(b)));
    }
    Ok(())
}

// ---- C18: mmedit truncate ------------------------------------------------------------------------
pub fn gen_c18(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut p = if r.chance(1, 2) {
        let ops = *r.pick(&[(1, 8), (4, 40)]);
        nested_plan(prop, seed, r, &Nest { v8: true, newlines: true, ops, ..Default::default() })
    } else { gen_mixed(prop, seed, r, true) };
    plain_v8(&mut p);
    // fill the event page (24 bytes each), sometimes the string pages too
    if r.chance(1, 2) {
        let (k, e) = match p.pre.iter().position(|o| matches!(o, Op::Text { .. } | Op::Str { len: 1..=200, .. })) { Some(i) => (Id::Slot(opid(T_PRE, i)), Id::Slot(opid(T_PRE, i))), None => return p };
        p.pre.push(Op::FillInt { kind: k, eid: e, tid: 0xF111_0001, base: r.below(1 << 40), n: *r.pick(&[10_915, 10_921, 10_922, 10_930, 22_000]) });
    }
    if r.chance(1, 3) { for _ in 0..r.range(2, 9) { p.pre.push(Op::Str { len: *r.pick(&[1000, 60_000, 131_000]), kind: 0 }); } }
    p.extra = vec![r.next(), r.below(10)];
    p
}
pub fn c18(cx: &mut Cx, p: &Plan) -> Check {
    let x = match record(cx, p)? { Some((x, _)) => x, None => return Ok(()) };
    let mode = p.extra.get(1).copied().unwrap_or(0);
    let mut r = Rng::new(p.extra.first().copied().unwrap_or(7), 18);
    let mut d = x.d.clone();
    if mode == 8 {
        let v = *r.pick(&[0u32, 1, 6, 9, 10, 0xffff_ffff]);
        d[4..8].copy_from_slice(&v.to_le_bytes());
        let t = Tool::new("mmedit", &["truncate", "t.mm_profdata"], 1).file("/sim/work/t.mm_profdata", &d);
        return run_refused(cx, &t, &format!("the file has version {v}"));
    }
    if mode == 9 { d[4] = 7; }
    let (name, out) = *r.pick(&[("t.mm_profdata", "/sim/work/t.truncated.mm_profdata"), ("/sim/work/t.mm_profdata", "/sim/work/t.truncated.mm_profdata"), ("a.b.mm_profdata", "/sim/work/a.b.truncated.mm_profdata"), ("t.truncated.mm_profdata", "/sim/work/t.truncated.truncated.mm_profdata"), ("trace", "/sim/work/trace.truncated.mm_profdata"), ("s.d/t.mm_profdata", "/sim/work/s.d/t.truncated.mm_profdata"), ("./t.bak", "/sim/work/t.truncated.mm_profdata")]);
    let inp = if name.starts_with('/') { name.to_string() } else { format!("/sim/work/{}", name.trim_start_matches("./")) };
    let mut t = Tool::new("mmedit", &["truncate", name], 1).file(&inp, &d);
    leftover(&mut r, &mut t, out);
    soft(&mut r, &mut t);
    let o = run_ok(cx, &t)?;
    ensure!(!o.files.contains_key(&inp), "input-modified", "truncating writes to its input {inp}");
    let g = match o.file(out) { Some(f) => f, None => return fail("no-output", format!("`{}` wrote {:?} instead of {out}", t.text(), o.files.keys())) };
    let (a, b) = (parse_pages(&d, true), parse_pages(g, true));
    ensure!(b.bad.is_none() && b.header && b.tail == 0 && g[..8] == d[..8], "bad-page", "the truncated file is malformed: {:?}", b.bad);
    let first = a.pages.iter().find(|x| x.0 == 0).copied();
    let st = |d: &[u8], pg: &Pages, tag: u8| -> Vec<u8> { pg.pages.iter().filter(|x| x.0 == tag).flat_map(|x| d[x.1..x.1 + x.2].to_vec()).collect() };
    for tag in [1u8, 2] { ensure!(st(&d, &a, tag) == st(g, &b, tag), "strings-lost", "string stream {tag} has {} bytes in the truncated file instead of {}", st(g, &b, tag).len(), st(&d, &a, tag).len()); }
    let want = first.map(|f| d[f.1..f.1 + f.2].to_vec()).unwrap_or_default();
    ensure!(st(g, &b, 0) == want, "events-wrong", "the truncated file has {} bytes of events, the first page has {}", st(g, &b, 0).len(), want.len());
    if mode == 9 || v8_skip(cx, p, &d) { return Ok(()); }
    let n = (want.len() - 8) / 24;
    cx.checks += n as u64;
    if n < x.evs.len() { *cx.stat("traces with more than one page of events") += 1; }
    no_panic("reading the truncated file", || {
        let y = open(g)?;
        let z = collect(&y);
        ensure!(z.events.len() == n, "events-wrong", "the truncated file reads with {} events, the first page has {n}", z.events.len());
        let w = collect(&open(&d)?);
        if let Some(k) = (0..n).find(|k| z.events[*k] != w.events[*k]) { return fail("events-wrong", format!("event {k} of {n} of the truncated file is {} instead of {}", short(&format!("{:?}", z.events[k])), short(&format!("{:?}", w.events[k])))); }
        ensure!((z.pid, z.start, &z.cmd) == (w.pid, w.start, &w.cmd), "metadata-changed", "the truncated file has other metadata");
        Ok(())
    })
}

// ---- C20: failing outputs and inputs -------------------------------------------------------------
pub const NTOOLS: u64 = 10;
fn pick_tool(k: u64, d: &[u8], d2: &[u8], d8: bool) -> Tool {
    let (bin, args): (&'static str, &[&str]) = match k {
        0 => ("crox", &["tr"]),
        1 => ("crox", &["tr", "--collapse-threads", "--minimum-duration", "1"]),
        2 => ("crox", &["--dir", "."]),
        3 => ("stack_collapse", &["tr"]),
        4 => ("flamegraph", &["tr"]),
        5 => ("summarize", &["summarize", "--json", "tr"]),
        6 => ("summarize", &["summarize", "tr"]),
        7 => ("summarize", &["diff", "tr", "other"]),
        8 => ("summarize", &["diff", "--json", "tr", "other"]),
        9 if d8 => ("mmedit", &["truncate", "tr.mm_profdata"]),
        _ => ("mmview", &["tr"]),
    };
    Tool::new(bin, args, 1).file("/sim/work/tr.mm_profdata", d).file("/sim/work/other.mm_profdata", d2)
}
fn output_of(k: u64) -> Option<&'static str> {
    Some(match k { 0..=2 => "/sim/work/chrome_profiler.json", 3 => "/sim/work/out.stacks_folded", 4 => "/sim/work/rustc.svg", 5 => "/sim/work/tr.json", 8 => "/sim/work/other.json", 9 => "/sim/work/tr.truncated.mm_profdata", _ => return None })
}
pub fn gen_c20(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 5);
    let ops = *r.pick(&[(0, 3), (2, 20), (20, 120)]);
    let mut p = nested_plan(prop, seed, r, &Nest { v8, newlines: false, ops, fill: false, ..Default::default() });
    if v8 { plain_v8(&mut p); }
    p.extra = vec![if v8 && r.chance(1, 2) { 9 } else { r.below(NTOOLS) }, r.below(11), r.below(1_000_000), *r.pick(&[28, 28, 5, 122, 27, 0]), r.next()];
    p
}
pub fn c20(cx: &mut Cx, p: &Plan) -> Check {
    let g = |i: usize| p.extra.get(i).copied().unwrap_or(0);
    let x = match record(cx, p)? { Some((x, _)) => x, None => return Ok(()) };
    if v8_skip(cx, p, &x.d) { return Ok(()); }
    let v8 = p.session == Session::ProfilerV8;
    let mut q = p.clone();
    let mut r = Rng::new(g(4), 20);
    mutate(&mut q, &mut r, true);
    let y = match record(cx, &q)? { Some((y, _)) => y, None => return Ok(()) };
    if v8_skip(cx, &q, &y.d) { return Ok(()); }
    let mut t0 = pick_tool(g(0), &x.d, &y.d, v8);
    t0.sim.seed = r.next();
    let edit = t0.bin == "mmedit";
    let plain = cx.tool(&t0);
    if !plain.ok() {
        // no time at all cannot be drawn
        let empty = t0.bin == "flamegraph" && spans(&x.evs).values().all(|s| s.0 == s.1);
        ensure!(empty, "tool-failed", "`{}` fails on a valid trace ({:?}): {}", t0.text(), plain.exit, plain.err());
        return Ok(());
    }
    let frac = |n: u64| (g(2) as u128 * n as u128 / 1_000_000) as u64;
    let mut t = pick_tool(g(0), &x.d, &y.d, v8);
    t.sim.seed = t0.sim.seed;
    let what;
    let any = |cls: u32, idx: u64, arg: u64| FaultSpec { task: u32::MAX, cls, idx, kind: F_ERR, arg };
    match g(1) {
        // the disk fills up, for good or for a while
        0..=4 => {
            let cap = if g(1) == 4 { plain.written.saturating_sub(frac(200) + 1) } else { frac(plain.written) };
            let calls = if g(1) == 3 { 1 + g(4) % 3 } else { u64::MAX };
            t.sim.disk.push(DiskSpec { cap, err: g(3) as u32, calls, only: false });
            if r.chance(1, 4) { t.sim.p_short = 200; }
            what = format!("no space after byte {cap} of {} (error {}, {} failing calls)", plain.written, g(3), if calls == u64::MAX { "all".into() } else { calls.to_string() });
        }
        5 => { let k = frac(plain.io_calls[IO_WRITE as usize]); t.sim.faults.push(any(IO_WRITE, k, if g(4) % 4 == 0 { 0 } else { 5 })); what = format!("write number {k} failing"); }
        6 => { let k = frac(plain.io_calls[IO_OPEN as usize]); t.sim.faults.push(any(IO_OPEN, k, *r.pick(&[13, 28, 30, 24]))); what = format!("opening file number {k} failing"); }
        7 => { let k = frac(plain.io_calls[IO_READ as usize]); t.sim.faults.push(any(IO_READ, k, 5)); what = format!("read number {k} failing"); }
        10 => {
            let cls = *r.pick(&[IO_OTHER, IO_STAT]);
            let n = plain.io_calls[cls as usize];
            if n == 0 { return Ok(()); }
            let k = frac(n);
            t.sim.faults.push(any(cls, k, *r.pick(&[5, 13, 23, 116])));
            what = if cls == IO_OTHER { format!("listing entry or other call {k} failing") } else { format!("stat call {k} failing") };
        }
        8 => {
            if r.chance(1, 2) { t.files[0].1.truncate(frac(8) as usize); what = "a trace shorter than its header".into(); }
            else { let bit = r.idx(64); t.files[0].1[bit / 8] ^= 1 << (bit % 8); what = format!("bit {bit} of the header of the trace flipped"); if edit && t.files[0].1[..4] == *b"MMPD" && t.files[0].1[4..8] == [7, 0, 0, 0] { return Ok(()); } }
        }
        _ => {
            match r.below(if edit { 1 } else { 3 }) {
                0 => { t.files.remove(0); if g(0) == 2 { return Ok(()); } what = "no trace".into(); }
                1 => {
                    let st = match finished_streams(&x.d) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
                    let k = r.idx(3);
                    let bit = r.idx(64);
                    let mut st = st;
                    st[k][bit / 8] ^= 1 << (bit % 8);
                    t.files[0].1 = build_file(if v8 { 8 } else { 9 }, &st, MAX_PAGE);
                    what = format!("bit {bit} of the header of stream {k} flipped");
                }
                _ => {
                    let mut st = match finished_streams(&x.d) { Ok(s) => s, Err(e) => return fail("bad-page", e) };
                    match meta_record(&st, v8) { Some((a, e)) => { let n = e - a; let i = a + r.idx(3) * (n - 1) / 2; st[1][i] = if i == a { b'[' } else { b'\x01' }; } None => return Ok(()) }
                    t.files[0].1 = build_file(if v8 { 8 } else { 9 }, &st, MAX_PAGE);
                    what = "unreadable session metadata".into();
                }
            }
        }
    }
    if let Some(f) = output_of(g(0)) { leftover(&mut r, &mut t, f); }
    let o = cx.tool(&t);
    cx.checks += 1;
    ensure!(o.exit != Exit::Hang && !matches!(o.exit, Exit::Signal(_)), "tool-hangs", "`{}` with {what}: {:?}", t.text(), o.exit);
    if g(1) == 8 || g(1) == 9 { ensure!(!o.ok(), "bad-input-accepted", "`{}` with {what} ends successfully", t.text()); return Ok(()); }
    let fired = o.fired.iter().any(|f| f.kind == F_ERR || f.kind == F_DISK);
    if o.ok() {
        ensure!(o.stdout == plain.stdout && o.files == plain.files, "silent-loss", "`{}` with {what} ends successfully but its output differs from that of an undisturbed run ({:?} instead of {:?})", t.text(), sizes(&o), sizes(&plain));
        if fired { *cx.stat("disturbed runs that still wrote everything") += 1; }
    } else {
        ensure!(fired, "tool-failed", "`{}` fails without a fault having fired ({:?}): {}", t.text(), o.exit, o.err());
        *cx.stat("failures reported") += 1;
    }
    Ok(())
}
fn sizes(o: &ToolOut) -> Vec<(String, usize)> { std::iter::once(("standard output".to_string(), o.stdout.len())).chain(o.files.iter().map(|(k, v)| (k.clone(), v.len()))).collect() }

// ---- C24: nothing but the inputs decides the output ----------------------------------------------
pub fn gen_c24(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let v8 = r.chance(1, 6);
    let ops = *r.pick(&[(0, 3), (2, 20), (10, 60)]);
    let newlines = r.chance(1, 3);
    let mut p = nested_plan(prop, seed, r, &Nest { v8, newlines, ops, fill: false, ..Default::default() });
    if v8 { plain_v8(&mut p); }
    // few different sizes: many ties
    if r.chance(2, 3) { for o in p.threads.iter_mut().flatten().chain(p.post.iter_mut()) { if let Op::Integer { val, .. } = o { *val = *r.pick(&[0, 7, 7, 50]); } } }
    p.extra = vec![if v8 && r.chance(1, 4) { 9 } else { r.below(16) }, r.below(4), r.next()];
    p
}
/// a crox file with the order of its entries taken out
fn unordered(o: &mut ToolOut) {
    for d in o.files.values_mut() {
        let Ok(serde_json::Value::Array(mut v)) = serde_json::from_slice::<serde_json::Value>(d) else { continue };
        v.sort_by_cached_key(|x| x.to_string());
        *d = serde_json::Value::Array(v).to_string().into_bytes();
    }
}
pub fn c24(cx: &mut Cx, p: &Plan) -> Check {
    let g = |i: usize| p.extra.get(i).copied().unwrap_or(0);
    let x = match record(cx, p)? { Some((x, _)) => x, None => return Ok(()) };
    if v8_skip(cx, p, &x.d) { return Ok(()); }
    let mut r = Rng::new(g(2), 24);
    let mut q = p.clone();
    mutate(&mut q, &mut r, g(0) < 13);
    let y = match record(cx, &q)? { Some((y, _)) => y, None => return Ok(()) };
    if v8_skip(cx, &q, &y.d) { return Ok(()); }
    let v8 = p.session == Session::ProfilerV8;
    let tid = x.evs.first().map_or(1, |e| e.tid).to_string();
    let mut t = pick_tool(g(0), &x.d, &y.d, v8);
    let args: &[&str] = match g(0) {
        10 => { t.bin = "mmview"; &["tr"] }
        11 => { t.bin = "mmview"; &["tr", "-t", &tid] }
        12 => { t.bin = "summarize"; &["summarize", "tr", "-p", "30"] }
        13 | 14 => { t.bin = "summarize"; &["aggregate", "tr", "other"] }
        15 => { t.bin = "summarize"; &["diff", "other", "tr"] }
        _ => &[],
    };
    if !args.is_empty() { t.args = args.iter().map(|a| a.as_bytes().to_vec()).collect(); }
    if t.args[0] == b"diff" && r.chance(1, 2) {
        // two summaries made before
        for (name, data) in [("tr", &x.d), ("other", &y.d)] {
            let mut k = Tool::new("summarize", &["summarize", "--json", "t"], r.next()).file("/sim/work/t.mm_profdata", data);
            k.sim.pid = 5;
            let o = cx.tool(&k);
            let Some(j) = o.files.values().next() else { return fail("tool-failed", format!("`{}` fails on a valid trace ({:?}): {}", k.text(), o.exit, o.err())) };
            t = t.file(&format!("/sim/work/{name}.json"), j);
        }
        for a in t.args.iter_mut().skip(1) { if a == b"tr" || a == b"other" { a.extend(b".json"); } }
    }
    let dir = t.args.iter().any(|a| a == b"--dir");
    let mut runs: Vec<ToolOut> = vec![];
    let mut touched: BTreeSet<String> = Default::default();
    for k in 0..3 {
        // hash seeds, process id, clocks, listing order and the way transfers are split
        t.sim.seed = r.next();
        t.sim.pid = r.range(1, 1 << 22) as u32;
        t.sim.mono0 = r.range(0, 1 << 50) as i64;
        t.sim.wall0 = r.range(1_000_000_000, 4_000_000_000) as i64 * 1_000_000_000 + r.below(1_000_000_000) as i64;
        t.sim.tick_max = *r.pick(&[0, 1, 1000, 5_000_000]);
        t.sim.p_tick = *r.pick(&[0, 30, 800]);
        if k > 0 { t.sim.p_short = *r.pick(&[0, 0, 40, 200]); t.sim.p_eintr = *r.pick(&[0, 0, 20, 120]); }
        let n = t.files.len();
        if let Some(f) = output_of(g(0)) { if t.files.iter().all(|x| x.0 != f) { leftover(&mut r, &mut t, f); } }
        let mut o = cx.tool(&t);
        t.files.truncate(n);
        ensure!(o.exit != Exit::Hang && !matches!(o.exit, Exit::Signal(_)), "tool-hangs", "`{}`: {:?}", t.text(), o.exit);
        cx.checks += 1;
        touched.extend(t.files.iter().filter(|f| o.files.contains_key(&norm(&f.0))).map(|f| f.0.clone()));
        if dir { unordered(&mut o); }
        runs.push(o);
    }
    for o in &runs[1..] {
        ensure!(o.exit == runs[0].exit, "not-reproducible", "`{}` ends with {:?} once and with {:?} ({}) another time", t.text(), runs[0].exit, o.exit, o.err());
        ensure!(o.files.keys().eq(runs[0].files.keys()), "not-reproducible", "`{}` writes {:?} once and {:?} another time", t.text(), sizes(&runs[0]), sizes(o));
        let all = std::iter::once(("standard output", &runs[0].stdout, &o.stdout)).chain(runs[0].files.iter().map(|(n, v)| (&n[..], v, &o.files[n])));
        if !runs[0].ok() { continue; }
        for (n, a, b) in all {
            if a == b { continue; }
            let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let at = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(30).min(v.len())..(i + 40).min(v.len())]).to_string();
            return fail("not-reproducible", format!("`{}` run twice on the same input writes different things to {n}: at byte {i} {:?} once and {:?} another time", t.text(), at(a), at(b)));
        }
    }
    if !runs[0].ok() { *cx.stat("refused inputs") += 1; } else { *cx.stat("repeated runs compared") += 2; }
    match touched.first() { Some(n) => fail("input-modified", format!("`{}` changes its input {n}", t.text())), None => Ok(()) }
}
