//! Runs, workers, minimisation, replay and evidence.

use crate::core::{self, mix, Sim, Tape, Violation};
use crate::props::{Prop, PROPS};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- one run

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Violation>().is_some() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let side = blame(&loc);
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((side.into(), format!("{msg} at {loc}")));
            }
        });
    }));
}

/// Whose panic is it: the innermost frame that is the library's or the harness's.
fn blame(loc: &str) -> &'static str {
    let lib = |s: &str| s.contains("/repo/src/");
    let harness = |s: &str| s.contains("/verif/sim/src/");
    if lib(loc) {
        return "lib";
    }
    if loc.starts_with("src/") || harness(loc) {
        return "harness";
    }
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for line in bt.lines() {
        let l = line.trim();
        if let Some(at) = l.strip_prefix("at ") {
            if lib(at) {
                return "lib";
            }
            if at.starts_with("./src/") || at.starts_with("src/") || harness(at) {
                if at.contains("runner.rs") || at.contains("alloc.rs") {
                    continue;
                }
                return "harness";
            }
        }
    }
    "harness"
}

pub enum Outcome {
    Held,
    Violated(Violation),
    HarnessError(String),
}

pub fn run_one(prop: &Prop, tape: Tape, tracing: bool) -> (Outcome, Sim) {
    core::install(tape, tracing);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)()));
    let out = match r {
        Ok(()) => Outcome::Held,
        Err(payload) => match payload.downcast::<Violation>() {
            Ok(v) => Outcome::Violated(*v),
            Err(_) => {
                let (side, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("harness".into(), "?".into()));
                if side == "lib" {
                    Outcome::Violated(Violation { class: "panic".into(), msg: format!("the library panicked: {msg}") })
                } else {
                    Outcome::HarnessError(msg)
                }
            }
        },
    };
    crate::props::cleanup();
    (out, core::uninstall())
}

pub fn run_seed(seed: u64, prop: &Prop, idx: u64) -> u64 {
    let mut h = mix(0xA11C_E000, seed);
    for b in prop.id.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}

// ---------------------------------------------------------------- worker

pub fn worker(prop: &Prop, seed: u64, start: u64, stride: u64, runs: u64, cap_s: u64, log: bool) -> i32 {
    install_hook();
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let (mut n, mut polls, mut ios, mut time, mut decisions, mut switches) = (0u64, 0u64, 0u64, 0u128, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut found: Option<String> = None;
    let mut idx = start;
    while idx < runs && t0.elapsed().as_secs() < cap_s {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {idx}");
            let _ = o.flush();
        }
        let (res, sim) = run_one(prop, Tape::generate(run_seed(seed, prop, idx)), false);
        n += 1;
        polls += sim.polls;
        ios += sim.io_events;
        time += sim.now as u128;
        switches += sim.switches;
        decisions += sim.tape.rec.len() as u64;
        for (k, v) in &sim.faults {
            *faults.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &sim.probes {
            *probes.entry(k.to_string()).or_default() += v;
        }
        if sim.perturbed {
            hashes.insert(sim.hash);
        }
        if samples.len() < 2 {
            if let Some(s) = &sim.sample {
                samples.push(format!("run {idx}: {s}; {} decisions, {} I/O events, faults {:?}", sim.tape.rec.len(), sim.io_events, sim.faults));
            }
        }
        if log {
            let mut th = 0u64;
            for v in &sim.tape.rec {
                th = mix(th, *v as u64);
            }
            let _ = writeln!(out.lock(), "L {idx} {:016x} {:016x} {} {} {:?}", sim.hash, th, sim.now, sim.io_events, sim.faults);
        }
        match res {
            Outcome::Held => {}
            Outcome::Violated(v) => {
                found = Some(format!("V {}", json!({"index": idx, "class": v.class, "msg": v.msg, "tape": sim.tape.rec})));
                break;
            }
            Outcome::HarnessError(m) => {
                let _ = writeln!(out.lock(), "E run {idx}: {m}");
                return 2;
            }
        }
        idx += stride;
    }
    let doc = json!({
        "runs": n, "polls": polls, "ios": ios, "time": time as f64, "decisions": decisions, "switches": switches,
        "faults": faults, "probes": probes, "samples": samples,
        "hashes": hashes.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
        "capped": idx < runs,
    });
    let _ = writeln!(out.lock(), "S {doc}");
    if let Some(v) = found {
        let _ = writeln!(out.lock(), "{v}");
        return 1;
    }
    0
}

// ---------------------------------------------------------------- check (parent)

struct Found {
    index: u64,
    class: String,
    msg: String,
    tape: Option<Vec<u32>>,
}

enum Msg {
    Line(usize, String),
    End(usize),
}

pub fn check(prop: &Prop, seed: u64, tier: &str, out_dir: &str) -> i32 {
    let t0 = Instant::now();
    let runs = match std::env::var("ZIPSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => if tier == "thorough" { prop.thorough } else { prop.quick },
    };
    let cap_s: u64 = if tier == "thorough" { 3600 } else { 240 };
    let hang_s: u64 = 150;
    let workers = std::env::var("ZIPSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    for k in crate::props::known_findings(prop.id) {
        println!("KNOWN-FINDING: property={} {k}", prop.id);
    }
    let exe = std::env::current_exe().expect("exe");
    let (tx, rx) = mpsc::channel();
    let mut kids = Vec::new();
    for w in 0..workers {
        let mut c = Command::new(&exe)
            .args(["worker", prop.id, &seed.to_string(), &w.to_string(), &workers.to_string(), &runs.to_string(), &cap_s.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let se = c.stderr.take().unwrap();
        let tx2 = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx2.send(Msg::Line(w, l)).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx2.send(Msg::End(w));
        });
        std::thread::spawn(move || for _ in BufReader::new(se).lines() {});
        kids.push(c);
    }
    drop(tx);
    let mut cur: Vec<u64> = (0..workers as u64).collect();
    let mut last = vec![Instant::now(); workers];
    let mut done = vec![false; workers];
    let mut summaries: Vec<Value> = Vec::new();
    let mut found: Vec<Found> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut stop_at: Option<Instant> = None;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                last[w] = Instant::now();
                if let Some(i) = l.strip_prefix("B ") {
                    cur[w] = i.parse().unwrap_or(cur[w]);
                } else if let Some(v) = l.strip_prefix("V ") {
                    let v: Value = serde_json::from_str(v).expect("worker json");
                    found.push(Found {
                        index: v["index"].as_u64().unwrap(),
                        class: v["class"].as_str().unwrap().into(),
                        msg: v["msg"].as_str().unwrap().into(),
                        tape: Some(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()),
                    });
                } else if let Some(e) = l.strip_prefix("E ") {
                    errors.push(e.to_string());
                } else if let Some(s) = l.strip_prefix("S ") {
                    summaries.push(serde_json::from_str(s).expect("worker json"));
                }
            }
            Ok(Msg::End(w)) => {
                done[w] = true;
                let st = kids[w].wait().expect("wait");
                match st.code() {
                    Some(0) | Some(1) | Some(2) => {}
                    other => {
                        use std::os::unix::process::ExitStatusExt;
                        if stop_at.is_none() && st.signal() == Some(9) {
                            errors.push(format!("worker killed at run {} (out of memory?)", cur[w]));
                        } else if stop_at.is_none() {
                            found.push(Found {
                                index: cur[w],
                                class: "abort".into(),
                                msg: format!("the process was aborted (code {other:?}, signal {:?}): allocation failure, stack overflow or double panic", st.signal()),
                                tape: None,
                            });
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        for w in 0..workers {
            if !done[w] && stop_at.is_none() && last[w].elapsed().as_secs() > hang_s {
                found.push(Found {
                    index: cur[w],
                    class: "hang".into(),
                    msg: format!("run {} did not finish within {hang_s} s of real time", cur[w]),
                    tape: None,
                });
            }
        }
        if stop_at.is_none() {
            if !errors.is_empty() {
                stop_at = Some(Instant::now());
            } else if let Some(first) = found.iter().map(|f| f.index).min() {
                let passed = (0..workers).all(|w| done[w] || cur[w] >= first);
                if passed || t0.elapsed().as_secs() > 200 {
                    stop_at = Some(Instant::now());
                }
            }
            if stop_at.is_some() {
                for k in kids.iter_mut() {
                    let _ = k.kill();
                }
            }
        }
        if done.iter().all(|d| *d) {
            break;
        }
    }
    let total_runs: u64 = summaries.iter().map(|s| s["runs"].as_u64().unwrap_or(0)).sum();
    let code = if let Some(f) = found.into_iter().min_by_key(|f| f.index) {
        let path = report(prop, seed, f, out_dir);
        println!("VIOLATION property={} replay={}", prop.id, path);
        1
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("harness error: {e}");
        }
        2
    } else {
        println!("{}: held on {total_runs} simulated runs (seed {seed}, {tier}, {:.1} s)", prop.id, t0.elapsed().as_secs_f64());
        0
    };
    evidence(prop, seed, tier, &summaries, t0.elapsed().as_secs_f64(), (code == 1) as u64, out_dir);
    code
}

fn report(prop: &Prop, seed: u64, f: Found, out_dir: &str) -> String {
    let dir = format!("{out_dir}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-run{}.json", prop.id, seed, f.index);
    let orig_len = f.tape.as_ref().map(|t| t.len());
    let doc = json!({
        "property": prop.id, "seed": seed, "index": f.index, "class": f.class, "msg": f.msg,
        "tape": f.tape, "original_decisions": orig_len,
        "how_to_replay": format!("/verif/check.sh replay {path}"),
    });
    std::fs::write(&path, doc.to_string()).expect("write replay");
    eprintln!("{}: run {} of seed {}: [{}] {}", prop.id, f.index, seed, f.class, f.msg);
    if f.tape.is_some() {
        let exe = std::env::current_exe().unwrap();
        if let Ok(mut c) = Command::new(exe).args(["minimise", &path]).stdout(Stdio::null()).spawn() {
            let t = Instant::now();
            loop {
                match c.try_wait() {
                    Ok(Some(_)) | Err(_) => break,
                    Ok(None) if t.elapsed().as_secs() > 100 => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    _ => std::thread::sleep(Duration::from_millis(50)),
                }
            }
        }
    }
    path
}

// ---------------------------------------------------------------- minimise & replay

fn load(path: &str) -> (&'static Prop, Value) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().expect("property");
    (PROPS.iter().find(|p| p.id == id).expect("known property"), v)
}

fn tape_of(v: &Value) -> Option<Vec<u32>> {
    v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect())
}

pub fn minimise(path: &str) -> i32 {
    install_hook();
    let (prop, mut doc) = load(path);
    let class = doc["class"].as_str().unwrap().to_string();
    let mut best = tape_of(&doc).expect("tape");
    let t0 = Instant::now();
    let mut tries = 0u32;
    let save = |best: &Vec<u32>, doc: &mut Value, tries: u32| {
        // Re-run with tracing so that the file explains itself.
        let (o, sim) = run_one(prop, Tape::replay(best.clone()), true);
        if let Outcome::Violated(v) = o {
            doc["msg"] = json!(v.msg);
            doc["tape"] = json!(best);
            doc["minimised_decisions"] = json!(best.len());
            doc["nonzero_decisions"] = json!(best.iter().filter(|x| **x != 0).count());
            doc["minimiser_runs"] = json!(tries);
            doc["faults"] = json!(sim.faults);
            let tr = &sim.trace;
            doc["trace"] = if tr.len() > 400 { json!([&tr[..200], &tr[tr.len() - 200..]].concat()) } else { json!(tr) };
            let tmp = format!("{path}.tmp");
            std::fs::write(&tmp, doc.to_string()).unwrap();
            std::fs::rename(&tmp, path).unwrap();
        }
    };
    let attempt = |cand: &[u32], tries: &mut u32| -> Option<Vec<u32>> {
        *tries += 1;
        let (o, sim) = run_one(prop, Tape::replay(cand.to_vec()), false);
        match o {
            Outcome::Violated(v) if v.class == class => {
                let mut rec = sim.tape.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    let weight = |t: &[u32]| (t.len(), t.iter().map(|x| *x as u64).sum::<u64>());
    save(&best, &mut doc, 0);
    let budget = Duration::from_secs(60);
    let mut last_save = Instant::now();
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // Delete, then zero, shrinking chunks.
        for zero in [false, true] {
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i < best.len() && t0.elapsed() < budget {
                    let end = (i + size).min(best.len());
                    let mut cand = best.clone();
                    if zero {
                        if cand[i..end].iter().all(|x| *x == 0) {
                            i = end;
                            continue;
                        }
                        cand[i..end].fill(0);
                    } else {
                        cand.drain(i..end);
                    }
                    match attempt(&cand, &mut tries) {
                        Some(r) if weight(&r) < weight(&best) => {
                            best = r;
                            improved = true;
                        }
                        _ => i = end,
                    }
                    if last_save.elapsed().as_secs() > 5 {
                        save(&best, &mut doc, tries);
                        last_save = Instant::now();
                    }
                }
                if size == 1 || (best.len() > 4000 && size < best.len() / 2000) {
                    break;
                }
                size /= 2;
            }
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            for c in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && c < best[i] {
                    let mut cand = best.clone();
                    cand[i] = c;
                    if let Some(r) = attempt(&cand, &mut tries) {
                        if weight(&r) < weight(&best) {
                            best = r;
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    save(&best, &mut doc, tries);
    0
}

/// Exit 1 when the recorded violation reproduces, 0 when it does not.
pub fn replay(path: &str) -> i32 {
    let (prop, doc) = load(path);
    let class = doc["class"].as_str().unwrap();
    if class == "hang" || class == "abort" {
        // Run it in a child: it takes the process with it.
        let exe = std::env::current_exe().unwrap();
        let idx = doc["index"].as_u64().unwrap();
        let mut c = Command::new(exe)
            .args(["worker", prop.id, &doc["seed"].to_string(), &idx.to_string(), "1", &(idx + 1).to_string(), "100000"])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let t = Instant::now();
        let end = loop {
            match c.try_wait().expect("wait") {
                Some(st) => break Some(st),
                None if t.elapsed().as_secs() > 150 => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(50)),
            }
        };
        let again = match end {
            None => class == "hang",
            Some(st) => class == "abort" && !matches!(st.code(), Some(0..=2)),
        };
        println!("{}: [{}] {}", if again { "REPRODUCED" } else { "not reproduced" }, class, doc["msg"]);
        return again as i32;
    }
    install_hook();
    let (o, sim) = run_one(prop, Tape::replay(tape_of(&doc).expect("tape")), true);
    for l in &sim.trace {
        println!("{l}");
    }
    match o {
        Outcome::Violated(v) => {
            println!("REPRODUCED property={} [{}] {}", prop.id, v.class, v.msg);
            println!("same as recorded: {}", v.class == class && doc["msg"] == json!(v.msg));
            1
        }
        Outcome::Held => {
            println!("not reproduced");
            0
        }
        Outcome::HarnessError(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

// ---------------------------------------------------------------- evidence

fn evidence(prop: &Prop, seed: u64, tier: &str, sums: &[Value], wall: f64, violations: u64, out_dir: &str) {
    let mut hashes: BTreeSet<String> = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let (mut runs, mut polls, mut ios, mut dec, mut sw) = (0, 0, 0, 0, 0);
    let mut time = 0.0;
    let mut capped = false;
    for s in sums {
        runs += s["runs"].as_u64().unwrap_or(0);
        polls += s["polls"].as_u64().unwrap_or(0);
        ios += s["ios"].as_u64().unwrap_or(0);
        dec += s["decisions"].as_u64().unwrap_or(0);
        sw += s["switches"].as_u64().unwrap_or(0);
        time += s["time"].as_f64().unwrap_or(0.0);
        capped |= s["capped"].as_bool().unwrap_or(false);
        for (m, k) in [(&mut faults, "faults"), (&mut probes, "probes")] {
            if let Some(o) = s[k].as_object() {
                for (n, v) in o {
                    *m.entry(n.clone()).or_default() += v.as_u64().unwrap_or(0);
                }
            }
        }
        for h in s["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h.as_str().unwrap_or("").to_string());
        }
        if samples.len() < 6 {
            samples.extend(s["samples"].as_array().into_iter().flatten().cloned().take(1));
        }
    }
    let per_hour = if wall > 0.0 { runs as f64 / wall * 3600.0 } else { 0.0 };
    let doc = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("{} One evaluation is one simulated run: one seeded decision tape that generates the case and decides every chunk size, delay, task switch and fault. Distinct = different hash over the ordered I/O events (object, operation, outcome) and task switches; non-trivial = at least one fault, delay, short transfer or out-of-order task switch actually happened.", prop.rule),
            "samples": samples,
            "runs_per_hour": per_hour.round(),
            "seeds_per_hour": per_hour.round(),
            "seeds_note": "each run has its own seed derived from VERIF_SEED, the property and the run index",
            "simulated_time_units": time,
            "task_polls": polls,
            "io_events": ios,
            "task_switch_decisions": sw,
            "decisions": dec,
            "faults_injected": faults,
            "probes": probes,
            "stopped_by_time_cap": capped,
            "real_components": prop.real,
            "simulated_components": prop.stub,
        },
        "assumptions": [
            "sampling: a clean batch is evidence, not proof",
            "one process, one scheduler thread; data races inside a single poll cannot exist in safe single-threaded futures",
        ],
    });
    let dir = format!("{out_dir}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", prop.id), serde_json::to_string_pretty(&doc).unwrap()).expect("evidence");
}
