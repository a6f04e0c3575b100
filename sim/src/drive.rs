//! Search over seeds with worker processes, confirmation, shrinking, replay, evidence.

use crate::cx::*;
use crate::plan::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn opt<'a>(args: &'a [String], k: &str) -> Option<&'a str> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn num(args: &[String], k: &str, d: u64) -> u64 {
    opt(args, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn prop_of(args: &[String]) -> u8 {
    opt(args, "--prop").and_then(|x| x.trim_start_matches('C').parse().ok()).unwrap_or(0)
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(args),
        Some("exec") => exec(args),
        Some("known") => known_probe(args),
        Some("check") => check(args),
        Some("replay") => replay(args),
        Some("digests") => digests(args),
        Some("gen") => {
            print!("{}", generate(prop_of(args), run_seed(num(args, "--seed", 1), prop_of(args), num(args, "--idx", 0)), num(args, "--long", 0) != 0).text());
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|worker|exec|digests");
            2
        }
    }
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(res: i32, r: *const RLimit) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn dup(a: i32) -> i32;
    fn personality(p: u64) -> i32;
}

/// Whether the processes started from this thread get random addresses (where the system lets us say).
fn random_addresses(on: bool) {
    unsafe {
        personality(if on { 0 } else { 0x0040000 });
    }
}

/// Memory is bounded, no core files, and the process ends with its parent.
fn contain(gb: u64) {
    unsafe {
        let r = RLimit { cur: gb << 30, max: gb << 30 };
        setrlimit(9, &r);
        let r = RLimit { cur: 0, max: 0 };
        setrlimit(4, &r);
        prctl(1, 9, 0, 0, 0);
    }
}

/// The library may print (display_goban): what it prints must not mix with the protocol.
fn private_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let out = dup(1);
        let null = open(b"/dev/null\0".as_ptr() as *const i8, 1);
        if null >= 0 {
            dup2(null, 1);
        }
        std::fs::File::from_raw_fd(out)
    }
}

/// One printable line.
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if c.is_control() || c == '\u{fffd}' || c == '\u{feff}' || c == '\u{2028}' => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

// ---------------------------------------------------------------- worker

fn worker(args: &[String]) -> i32 {
    contain(num(args, "--gb", 3));
    let mut out = private_stdout();
    let prop = prop_of(args);
    let (seed, from, to) = (num(args, "--seed", 1), num(args, "--from", 0), num(args, "--to", 1));
    let long = num(args, "--long", 0) != 0;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut sim_ms = 0u64;
    let mut steps = 0u64;
    let mut kinds = [0u64; 64];
    for idx in from..to {
        let _ = out.write_all(format!("S {}\n", idx).as_bytes());
        let plan = generate(prop, run_seed(seed, prop, idx), long);
        match execute_fresh(&plan, false) {
            Err(e) => {
                let _ = out.write_all(format!("X {} {}\n", idx, esc(&e)).as_bytes());
                return 2;
            }
            Ok(o) => {
                for (k, v) in &o.cx.stats {
                    *stats.entry(k.to_string()).or_insert(0) += v;
                }
                for (k, v) in &o.cx.known {
                    *stats.entry(format!("known_{}", k)).or_insert(0) += v;
                }
                states.extend(&o.cx.states);
                sim_ms += o.cx.now_ms;
                steps += o.cx.step as u64;
                for e in &plan.evs {
                    kinds[e.k as usize & 63] += 1;
                }
                let _ = out.write_all(format!("D {} {:x} {:x} {}\n", idx, o.cx.digest, o.cx.shape, o.cx.hot).as_bytes());
                if let Some(v) = o.viol {
                    let _ = out.write_all(format!("V {} {}\n", idx, esc(&v)).as_bytes());
                    break;
                }
            }
        }
    }
    let mut s = String::new();
    for (k, v) in &stats {
        let _ = writeln!(s, "T {} {}", k, v);
    }
    for (k, v) in kinds.iter().enumerate() {
        if *v > 0 {
            let _ = writeln!(s, "T step_{} {}", kind_name(k as u8), v);
        }
    }
    let _ = writeln!(s, "T sim_ms {}\nT steps {}\nT blocks_covered_max {}\nT blocks_instrumented_max {}", sim_ms, steps, crate::conc::covered(), crate::conc::instrumented_blocks());
    let _ = out.write_all(s.as_bytes());
    let mut b = Vec::with_capacity(states.len() * 8);
    for x in &states {
        b.extend(x.to_le_bytes());
    }
    let _ = out.write_all(format!("B {}\n", states.len()).as_bytes());
    let _ = out.write_all(&b);
    let _ = out.write_all(b"\nE\n");
    0
}

/// Runs one plan file, possibly after the runs that came before it in its process.
fn exec(args: &[String]) -> i32 {
    contain(num(args, "--gb", 3));
    let mut out = private_stdout();
    let text = match std::fs::read_to_string(opt(args, "--plan").unwrap_or("")) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    if let Some(l) = text.lines().find(|l| l.starts_with("prelude ")) {
        let v: Vec<u64> = l.split_whitespace().skip(1).filter_map(|x| x.parse().ok()).collect();
        if v.len() == 4 {
            for i in v[1]..v[2] {
                let p = generate(plan.prop, run_seed(v[0], plan.prop, i), v[3] != 0);
                let _ = execute_fresh(&p, false);
            }
        }
    }
    let trace = args.iter().any(|a| a == "--trace");
    match execute_fresh(&plan, trace) {
        Err(e) => {
            let _ = writeln!(out, "X 0 {}", esc(&e));
            2
        }
        Ok(o) => {
            if let Some(t) = &o.cx.trace {
                for l in t {
                    let _ = writeln!(out, "# {}", esc(l));
                }
            }
            let _ = writeln!(out, "D 0 {:x} {:x} {}", o.cx.digest, o.cx.shape, o.cx.hot);
            match o.viol {
                Some(v) => {
                    let _ = writeln!(out, "V 0 {}", esc(&v));
                    1
                }
                None => 0,
            }
        }
    }
}

/// Prints the digest of each run, for the self-test of determinism.
fn digests(args: &[String]) -> i32 {
    contain(8);
    let mut out = private_stdout();
    let prop = prop_of(args);
    for idx in num(args, "--from", 0)..num(args, "--to", 10) {
        let plan = generate(prop, run_seed(num(args, "--seed", 1), prop, idx), num(args, "--long", 0) != 0);
        let t0 = Instant::now();
        match execute_fresh(&plan, false) {
            Ok(o) => {
                let t = if args.iter().any(|a| a == "--time") { format!(" {}us {}x{} ev={}", t0.elapsed().as_micros(), plan.cfg.h, plan.cfg.w, plan.evs.len()) } else { String::new() };
                let _ = writeln!(out, "{} {:x} {:x} {} {:?}{}", idx, o.cx.digest, o.cx.shape, o.cx.hot, o.viol.map(|v| esc(&v)), t);
            }
            Err(e) => {
                let _ = writeln!(out, "{} ERROR {}", idx, e);
            }
        }
    }
    0
}

fn known_probe(args: &[String]) -> i32 {
    contain(3);
    let mut out = private_stdout();
    let which = opt(args, "--site").unwrap_or("");
    for (id, text, msg) in crate::records::KNOWN_PANICS {
        if id == which {
            return match crate::sut::guard(|| goban::rules::game::Game::from_sgf(text).is_ok()) {
                Err(p) if p.msg.contains(msg) => {
                    let _ = writeln!(out, "import of {} : {}", text, p);
                    1
                }
                _ => 0,
            };
        }
    }
    2
}

// ---------------------------------------------------------------- running children

enum Run {
    Ok(String),
    Viol(String, String),
    Error(String),
    Hang,
    Died(String),
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > d {
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

fn run_plan(bin: &str, text: &str, dir: &str, tag: &str, limit: Duration, trace: bool) -> (Run, Vec<String>) {
    let f = format!("{}/plan-{}-{}.txt", dir, std::process::id(), tag);
    if let Err(e) = std::fs::write(&f, text) {
        return (Run::Error(format!("cannot write {}: {}", f, e)), vec![]);
    }
    let mut cmd = Command::new(bin);
    cmd.args(["exec", "--plan", &f]);
    if trace {
        cmd.arg("--trace");
    }
    let r = run_child(cmd, limit);
    let _ = std::fs::remove_file(&f);
    r
}

fn run_child(mut cmd: Command, limit: Duration) -> (Run, Vec<String>) {
    let mut c = match cmd.stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (Run::Error(e.to_string()), vec![]),
    };
    let mut so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let st = wait_timeout(&mut c, limit);
    if st.is_none() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let text = h.join().unwrap_or_default();
    let mut trace = vec![];
    let mut dig = String::new();
    let mut v = None;
    let mut x = None;
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("# ") {
            trace.push(t.to_string());
        } else if let Some(d) = l.strip_prefix("D ") {
            dig = d.to_string();
        } else if let Some(d) = l.strip_prefix("V 0 ") {
            v = Some(d.to_string());
        } else if let Some(d) = l.strip_prefix("X 0 ") {
            x = Some(d.to_string());
        }
    }
    let r = match (st, v, x) {
        (None, _, _) => Run::Hang,
        (_, Some(v), _) => Run::Viol(v, dig),
        (_, _, Some(x)) => Run::Error(x),
        (Some(s), _, _) if s.code() == Some(0) => Run::Ok(dig),
        (Some(s), _, _) => {
            use std::os::unix::process::ExitStatusExt;
            match s.signal() {
                Some(n) => Run::Died(format!("signal {}", n)),
                None if s.code() == Some(crate::conc::DEADLOCK) => Run::Died("every task waits for a lock".into()),
                None => Run::Error(format!("exit {:?}", s.code())),
            }
        }
    };
    (r, trace)
}

// ---------------------------------------------------------------- the check

#[derive(Default)]
struct Total {
    runs: u64,
    stats: BTreeMap<String, u64>,
    states: HashSet<u64>,
    shapes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    hot_runs: u64,
    viol: Vec<Found>,
    errors: Vec<String>,
    digests: BTreeMap<u64, u64>,
    samples: Vec<u64>,
}

#[derive(Clone)]
struct Found {
    idx: u64,
    from: u64,
    bin: usize,
    what: String,
    kind: u8, // 0 violation, 1 hang, 2 died
}

/// (runs, chunk) per property for the quick tier; thorough multiplies.
fn size(prop: u8) -> (u64, u64) {
    match prop {
        1 => (120000, 100),
        2 => (320000, 250),
        3 => (27000, 100),
        4 => (60000, 100),
        5 => (36000, 100),
        6 => (50000, 100),
        7 => (45000, 100),
        8 => (48000, 20),
        9 => (42000, 50),
        10 => (210000, 250),
        11 => (80000, 150),
        12 => (22000, 50),
        13 => (120000, 100),
        14 => (48000, 100),
        15 => (48000, 25),
        16 => (5000, 2),
        17 => (110000, 100),
        18 => (56000, 50),
        _ => (1000, 50),
    }
}

fn hang_limit(prop: u8) -> Duration {
    Duration::from_secs(if prop == 16 { 90 } else { 40 })
}

fn check(args: &[String]) -> i32 {
    random_addresses(false);
    let t0 = Instant::now();
    let prop = prop_of(args);
    let id = format!("C{:02}", prop);
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let long = tier == "thorough";
    let seed = num(args, "--seed", 1);
    let verif = opt(args, "--verif").unwrap_or("/verif").to_string();
    let bins: Vec<String> = opt(args, "--bins").unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let names: Vec<String> = opt(args, "--names").unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    if bins.is_empty() || names.len() != bins.len() {
        eprintln!("no binaries");
        return 2;
    }
    let jobs = num(args, "--jobs", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)) as usize;
    let (mut runs, chunk) = size(prop);
    if long {
        runs *= 25;
    }
    runs = num(args, "--runs", runs);
    let cap = Duration::from_secs(num(args, "--cap", if long { 900 } else { 150 }));
    let scratch = format!("{}/sim/target/scratch", verif);
    let _ = std::fs::create_dir_all(&scratch);

    // listed findings
    let known = read_known(&verif, &id);
    let mut known_lines = vec![];
    let mut sites = vec![];
    for (site, text) in &known {
        sites.push(site.clone());
        for b in &bins {
            let mut c = Command::new(b);
            c.args(["known", "--site", site]);
            c.stdout(Stdio::null()).stderr(Stdio::null());
            if let Ok(s) = c.status() {
                if s.code() == Some(1) {
                    known_lines.push(format!("KNOWN-FINDING: property={} {} ({})", id, text, site));
                    break;
                }
            }
        }
    }
    std::env::set_var("SIM_KNOWN", sites.join(","));
    for l in &known_lines {
        println!("{}", l);
    }

    let total = Arc::new(Mutex::new(Total::default()));
    let next = Arc::new(Mutex::new(0u64));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let limit = hang_limit(prop);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let (total, next, stop) = (total.clone(), next.clone(), stop.clone());
            let bins = &bins;
            let verif = &verif;
            s.spawn(move || loop {
                if stop.load(std::sync::atomic::Ordering::SeqCst) || t0.elapsed() > cap {
                    return;
                }
                let from = {
                    let mut n = next.lock().unwrap();
                    if *n >= runs {
                        return;
                    }
                    let f = *n;
                    *n += chunk;
                    f
                };
                let to = (from + chunk).min(runs);
                let k = (from / chunk) as usize % bins.len();
                let _ = verif;
                one_chunk(&bins[k], k, prop, seed, from, to, long, limit, &total, &stop);
            });
        }
    });
    let mut total = std::mem::take(&mut *total.lock().unwrap());
    let search_s = t0.elapsed().as_secs_f64();

    // repeatability: a sample again, in other processes with other surroundings
    let mut rechecked = 0u64;
    let mut mismatched = 0u64;
    let mut different: Vec<u64> = vec![];
    if total.viol.is_empty() && total.errors.is_empty() {
        let want = if prop == 9 { 240 } else { 24 };
        let sample: Vec<(u64, u64)> = total.digests.iter().map(|(a, b)| (*a, *b)).step_by((total.digests.len() / want).max(1)).collect();
        let todo = Mutex::new(sample.into_iter().enumerate());
        let done = Mutex::new((0u64, vec![]));
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let Some((n, (idx, d))) = todo.lock().unwrap().next() else { return };
                    if t0.elapsed() > cap + Duration::from_secs(60) {
                        return;
                    }
                    let k = (idx / chunk) as usize % bins.len();
                    let f = format!("{}/plan-{}-re{}.txt", scratch, std::process::id(), idx);
                    let p = generate(prop, run_seed(seed, prop, idx), long);
                    if std::fs::write(&f, p.text()).is_err() {
                        continue;
                    }
                    let mut c = Command::new(&bins[k]);
                    c.args(["exec", "--plan", &f]);
                    surroundings(&mut c, n);
                    let (r, _) = run_child(c, limit);
                    let _ = std::fs::remove_file(&f);
                    if let Run::Ok(g) = r {
                        let x = u64::from_str_radix(g.split_whitespace().nth(1).unwrap_or(""), 16).unwrap_or(0);
                        let mut o = done.lock().unwrap();
                        o.0 += 1;
                        if x != d && x != 0 && d != 0 {
                            o.1.push(idx);
                            eprintln!("run {} is not repeatable: digest {:x} then {:x}", idx, d, x);
                        }
                    }
                });
            }
        });
        let d = done.into_inner().unwrap();
        rechecked = d.0;
        mismatched = d.1.len() as u64;
        different = d.1;
        different.sort();
    }
    total.stats.insert("repeatability_rechecked".into(), rechecked);
    total.stats.insert("repeatability_mismatches".into(), mismatched);

    total.viol.sort_by_key(|f| f.idx);
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = total.viol.first().cloned() {
        match confirm(&bins, &names, &scratch, &verif, prop, seed, long, &f, limit) {
            Ok((file, what)) => {
                println!("{} broken: {}", id, what);
                println!("VIOLATION property={} replay={}", id, file);
                code = 1;
                violations = total.viol.len();
            }
            Err(e) => total.errors.push(e),
        }
    }
    if prop == 9 && code == 0 && total.errors.is_empty() {
        // the same log in different processes
        for idx in different.into_iter().take(6) {
            let k = (idx / chunk) as usize % bins.len();
            let body = format!("prelude {} {} {} {}\n{}", seed, idx / chunk * chunk, idx, long as u8, generate(prop, run_seed(seed, prop, idx), long).text());
            if let Some(what) = processes(&bins[k], &body, &scratch, limit) {
                let _ = std::fs::create_dir_all(format!("{}/replays", verif));
                let file = format!("{}/replays/{}-seed{}-run{}-{}.txt", verif, id, seed, idx, names[k]);
                let text = format!("sim-replay 1\nprofile {}\nprocesses\nviolation {}\n{}", names[k], what, body);
                if let Err(e) = std::fs::write(&file, text) {
                    total.errors.push(e.to_string());
                    break;
                }
                println!("{} broken: {}", id, what);
                println!("VIOLATION property={} replay={}", id, file);
                code = 1;
                violations = 1;
                break;
            }
        }
    }
    if code == 0 && !total.errors.is_empty() {
        for e in &total.errors {
            eprintln!("simulator error: {}", e);
        }
        code = 2;
    }
    if code == 0 && total.runs == 0 {
        eprintln!("simulator error: nothing was run");
        code = 2;
    }
    if let Err(e) = evidence(&verif, &id, prop, &tier, seed, long, &total, runs, search_s, t0.elapsed().as_secs_f64(), violations, &known_lines, &names) {
        eprintln!("cannot write evidence: {}", e);
        code = code.max(2);
    }
    if code == 0 {
        println!("{}: held in {} simulated runs ({} distinct non-trivial), {:.1} s", id, total.runs, total.nontrivial.len(), t0.elapsed().as_secs_f64());
    }
    code
}

/// "known: property=C07 site=<place> <text>"
fn read_known(verif: &str, id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (p, r) = r.split_once(' ')?;
            if p != id {
                return None;
            }
            let (s, text) = r.strip_prefix("site=")?.split_once(' ')?;
            Some((s.to_string(), text.to_string()))
        })
        .collect()
}

fn one_chunk(bin: &str, k: usize, prop: u8, seed: u64, from: u64, to: u64, long: bool, limit: Duration, total: &Mutex<Total>, stop: &std::sync::atomic::AtomicBool) {
    use std::sync::atomic::Ordering::SeqCst;
    let mut c = match Command::new(bin)
        .args(["worker", "--prop", &format!("C{:02}", prop), "--seed", &seed.to_string(), "--from", &from.to_string(), "--to", &to.to_string(), "--long", if long { "1" } else { "0" }])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            total.lock().unwrap().errors.push(format!("cannot start worker: {}", e));
            stop.store(true, SeqCst);
            return;
        }
    };
    let so = c.stdout.take().unwrap();
    let beat = Arc::new(Mutex::new((Instant::now(), from)));
    let beat2 = beat.clone();
    struct Got {
        runs: u64,
        stats: Vec<(String, u64)>,
        states: Vec<u64>,
        digs: Vec<(u64, u64, u64, u64)>,
        viol: Option<(u64, String)>,
        err: Option<String>,
        ended: bool,
    }
    let reader = std::thread::spawn(move || {
        let mut r = BufReader::new(so);
        let mut g = Got { runs: 0, stats: vec![], states: vec![], digs: vec![], viol: None, err: None, ended: false };
        let mut line = vec![];
        loop {
            line.clear();
            match r.read_until(b'\n', &mut line) {
                Ok(0) | Err(_) => break,
                _ => {}
            }
            let l = String::from_utf8_lossy(&line).trim_end().to_string();
            let mut f = l.splitn(3, ' ');
            match (f.next(), f.next(), f.next()) {
                (Some("S"), Some(i), _) => *beat2.lock().unwrap() = (Instant::now(), i.parse().unwrap_or(0)),
                (Some("D"), Some(i), Some(rest)) => {
                    let v: Vec<&str> = rest.split(' ').collect();
                    if v.len() == 3 {
                        g.runs += 1;
                        g.digs.push((i.parse().unwrap_or(0), u64::from_str_radix(v[0], 16).unwrap_or(0), u64::from_str_radix(v[1], 16).unwrap_or(0), v[2].parse().unwrap_or(0)));
                    }
                }
                (Some("V"), Some(i), Some(d)) => g.viol = Some((i.parse().unwrap_or(0), d.to_string())),
                (Some("X"), Some(i), Some(d)) => g.err = Some(format!("run {}: {}", i, d)),
                (Some("T"), Some(k), Some(v)) => g.stats.push((k.to_string(), v.parse().unwrap_or(0))),
                (Some("B"), Some(n), _) => {
                    let n: usize = n.parse().unwrap_or(0);
                    let mut b = vec![0u8; n * 8];
                    if r.read_exact(&mut b).is_ok() {
                        g.states = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                    }
                }
                (Some("E"), _, _) => g.ended = true,
                _ => {}
            }
        }
        g
    });
    let mut hang = None;
    let status = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break Some(s);
        }
        if stop.load(SeqCst) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        let (t, i) = *beat.lock().unwrap();
        if t.elapsed() > limit {
            hang = Some(i);
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(4));
    };
    let g = reader.join().unwrap();
    let stopped = stop.load(SeqCst) && hang.is_none() && status.is_none();
    let mut t = total.lock().unwrap();
    t.runs += g.runs;
    for (k, v) in g.stats {
        let e = t.stats.entry(k.clone()).or_insert(0);
        if k.ends_with("_max") {
            *e = (*e).max(v);
        } else {
            *e += v;
        }
    }
    if t.states.len() < 30_000_000 {
        t.states.extend(g.states);
    }
    for (i, d, sh, hot) in g.digs {
        t.shapes.insert(sh);
        if hot > 0 {
            t.hot_runs += 1;
            if t.nontrivial.insert(d) && t.samples.len() < 3 {
                t.samples.push(i);
            }
        }
        t.digests.insert(i, d);
    }
    if stopped {
        return;
    }
    if let Some(e) = g.err {
        t.errors.push(e);
        stop.store(true, SeqCst);
    } else if let Some((i, d)) = g.viol {
        t.viol.push(Found { idx: i, from, bin: k, what: d, kind: 0 });
        stop.store(true, SeqCst);
    } else if let Some(i) = hang {
        t.viol.push(Found { idx: i, from, bin: k, what: format!("no progress within {} s", limit.as_secs()), kind: 1 });
        stop.store(true, SeqCst);
    } else if !g.ended {
        let (_, i) = *beat.lock().unwrap();
        t.viol.push(Found { idx: i, from, bin: k, what: format!("the process died ({:?})", status), kind: 2 });
        stop.store(true, SeqCst);
    }
}

fn bad(r: &Run) -> Option<String> {
    match r {
        Run::Viol(v, _) => Some(v.clone()),
        Run::Hang => Some("no progress: the run does not end".into()),
        Run::Died(s) => Some(format!("the process died: {}", s)),
        _ => None,
    }
}

/// Re-executes the run in a fresh process, shrinks it, writes the replay file and replays it.
fn confirm(bins: &[String], names: &[String], scratch: &str, verif: &str, prop: u8, seed: u64, long: bool, f: &Found, limit: Duration) -> Result<(String, String), String> {
    let bin = &bins[f.bin];
    let plan = generate(prop, run_seed(seed, prop, f.idx), long);
    let t0 = Instant::now();
    let mut prelude = String::new();
    let mut best = plan.clone();
    let mut what = None;
    for _ in 0..if f.kind == 0 { 3 } else { 1 } {
        let (r, _) = run_plan(bin, &plan.text(), scratch, "c", limit, false);
        what = bad(&r);
        if what.is_some() {
            break;
        }
    }
    if what.is_none() && f.idx > f.from {
        // only after what this process did before
        let mut k = 1;
        loop {
            let from = f.idx.saturating_sub(k).max(f.from);
            let p = format!("prelude {} {} {} {}\n", seed, from, f.idx, long as u8);
            let (r, _) = run_plan(bin, &(p.clone() + &plan.text()), scratch, "c", limit * 4, false);
            what = bad(&r);
            if what.is_some() {
                prelude = p;
                break;
            }
            if from == f.from {
                break;
            }
            k *= 2;
        }
    }
    if what.is_none() {
        return Err(format!("run {} of property C{:02} failed once ({}) but the failure cannot be repeated", f.idx, prop, f.what));
    }
    // shrink
    let budget = Duration::from_secs(if f.kind == 1 { 0 } else { 60 });
    let single = Duration::from_secs(15);
    let mut tries = 0;
    let mut attempt = |p: &Plan, tries: &mut u32| -> Option<String> {
        if t0.elapsed() > budget || *tries > 1500 {
            return None;
        }
        *tries += 1;
        let (r, _) = run_plan(bin, &(prelude.clone() + &p.text()), scratch, "s", single, false);
        match r {
            Run::Viol(v, _) => Some(v),
            Run::Died(s) => Some(format!("the process died: {}", s)),
            _ => None,
        }
    };
    let mut n = best.evs.len() / 2;
    while n >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < best.evs.len() {
            let mut c = best.clone();
            let e = (i + n).min(c.evs.len());
            c.evs.drain(i..e);
            if let Some(v) = attempt(&c, &mut tries) {
                best = c;
                what = Some(v);
                any = true;
            } else {
                i += n;
            }
            if t0.elapsed() > budget {
                break;
            }
        }
        if t0.elapsed() > budget {
            break;
        }
        if n == 1 && !any {
            break;
        }
        n = if n == 1 { 1 } else { n / 2 };
    }
    // simpler numbers and configuration
    if prop == 16 || prop == 2 {
        for i in 0..best.evs.len() {
            while best.evs[i].b > 1 {
                let mut c = best.clone();
                c.evs[i].b -= (c.evs[i].b / 4).max(1);
                match attempt(&c, &mut tries) {
                    Some(v) => {
                        best = c;
                        what = Some(v);
                    }
                    None => break,
                }
            }
        }
    }
    let mut simpler: Vec<Plan> = vec![];
    {
        let mut c = best.clone();
        c.cfg.handicap.clear();
        simpler.push(c);
        let mut c = best.clone();
        c.cfg.setup.clear();
        simpler.push(c);
        let mut c = best.clone();
        c.cfg.outcome = 0;
        simpler.push(c);
    }
    for c in simpler {
        if c.cfg != best.cfg {
            if let Some(v) = attempt(&c, &mut tries) {
                best = c;
                what = Some(v);
            }
        }
    }
    let mut k = 0;
    while k < best.cfg.setup.len() {
        let mut c = best.clone();
        c.cfg.setup.remove(k);
        match attempt(&c, &mut tries) {
            Some(v) => {
                best = c;
                what = Some(v);
            }
            None => k += 1,
        }
        if t0.elapsed() > budget {
            break;
        }
    }
    // the replay file, with what happens in it; should the library depend on something that no seam
    // covers, the shortest version that fails again is kept
    let mut body = prelude.clone() + &best.text();
    let mut again = None;
    let mut trace = vec![];
    for n in 0..if f.kind == 0 { 14 } else { 2 } {
        if n == 7 {
            best = plan.clone();
            body = prelude.clone() + &best.text();
        }
        let (r, t) = run_plan(bin, &body, scratch, "r", limit, true);
        again = bad(&r);
        if again.is_some() {
            trace = t;
            break;
        }
    }
    if again.is_none() {
        return Err(format!("run {} of property C{:02}: the failure does not repeat", f.idx, prop));
    }
    let what = again.or(what).unwrap();
    let _ = std::fs::create_dir_all(format!("{}/replays", verif));
    let file = format!("{}/replays/C{:02}-seed{}-run{}-{}.txt", verif, prop, seed, f.idx, names[f.bin]);
    let mut s = String::from("sim-replay 1\n");
    let _ = writeln!(s, "profile {}", names[f.bin]);
    let _ = writeln!(s, "seed {} run {} steps {} of {} kept", seed, f.idx, best.evs.len(), plan.evs.len());
    let _ = writeln!(s, "violation {}", what);
    s += &body;
    for l in trace {
        let _ = writeln!(s, "# {}", l);
    }
    std::fs::write(&file, s).map_err(|e| e.to_string())?;
    Ok((file, what))
}

/// The environment of the n-th process that computes the same.
fn surroundings(c: &mut Command, n: usize) {
    random_addresses(n % 2 == 1);
    if n % 3 == 1 {
        c.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("RUST_BACKTRACE", "full");
        c.env("FILLER", "x".repeat(3001)).current_dir("/");
    }
    if n % 3 == 2 {
        let keep = std::env::var("SIM_KNOWN").unwrap_or_default();
        c.env_clear().env("SIM_KNOWN", keep).current_dir("/usr");
    }
}

/// Runs the same plan in several processes: what they compute has to be the same. The plan may say
/// what one half of them did before ("prelude").
fn processes(bin: &str, body: &str, scratch: &str, limit: Duration) -> Option<String> {
    let alone: String = body.lines().filter(|l| !l.starts_with("prelude ")).map(|l| format!("{}\n", l)).collect();
    let mut first: Option<String> = None;
    for n in 0..8 {
        let text = if n < 6 { &alone } else { body };
        let f = format!("{}/plan-{}-p{}.txt", scratch, std::process::id(), n);
        std::fs::write(&f, text).ok()?;
        let mut c = Command::new(bin);
        c.args(["exec", "--plan", &f]);
        surroundings(&mut c, n);
        let (r, _) = run_child(c, limit * 2);
        let _ = std::fs::remove_file(&f);
        random_addresses(false);
        let d = match r {
            Run::Ok(d) if d.split_whitespace().nth(1) == Some("0") => return None, // curtailed
            Run::Ok(d) => d,
            Run::Viol(v, _) => return Some(v),
            _ => return None,
        };
        match &first {
            None => first = Some(d),
            Some(x) if *x != d => {
                return Some("the same log gives different answers in another process".into());
            }
            _ => {}
        }
    }
    None
}

/// Replays a file: exit 1 and the same violation if it happens again.
fn replay(args: &[String]) -> i32 {
    random_addresses(false);
    let file = args.get(1).cloned().unwrap_or_default();
    let text = match std::fs::read_to_string(&file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let profile = field("profile ");
    let bins: Vec<String> = opt(args, "--bins").unwrap_or("").split(',').map(|s| s.to_string()).collect();
    let names: Vec<String> = opt(args, "--names").unwrap_or("").split(',').map(|s| s.to_string()).collect();
    let Some(k) = names.iter().position(|n| *n == profile) else {
        eprintln!("no binary for profile {}", profile);
        return 2;
    };
    let id = field("property ");
    let verif = opt(args, "--verif").unwrap_or("/verif");
    std::env::set_var("SIM_KNOWN", read_known(verif, &id).iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","));
    let mut c = Command::new(&bins[k]);
    c.args(["exec", "--trace", "--plan", &file]);
    let prop: u8 = id.trim_start_matches('C').parse().unwrap_or(0);
    let r = if text.lines().any(|l| l == "processes") {
        let _ = std::fs::create_dir_all(format!("{}/sim/target/scratch", verif));
        let body: String = text.lines().filter(|l| *l != "processes").map(|l| format!("{}\n", l)).collect();
        match processes(&bins[k], &body, &format!("{}/sim/target/scratch", verif), hang_limit(prop)) {
            Some(w) => (Run::Viol(w, String::new()), vec![]),
            None => (Run::Ok(String::new()), vec![]),
        }
    } else {
        run_child(c, hang_limit(prop) * 2)
    };
    let (r, trace) = r;
    for l in trace {
        println!("# {}", l);
    }
    match bad(&r) {
        Some(w) => {
            println!("{} broken: {}", id, w);
            println!("{}", if w == field("violation ") { "identical to the recorded violation" } else { "differs from the recorded violation" });
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        None => match r {
            Run::Error(e) => {
                eprintln!("simulator error: {}", e);
                2
            }
            _ => {
                println!("{}: the recorded schedule does not break the property", id);
                0
            }
        },
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rule(prop: u8) -> (&'static str, &'static str) {
    // (what makes a run non-trivial, what a state is)
    match prop {
        1 => ("at least one compared legal-move list in which the rule removed an empty point", "board, turn, passes, last play"),
        2 => ("at least one capture or suicide was played and compared", "board, turn, passes, last play"),
        3 => ("at least one request was refused and the game compared before and after", "board, turn, passes, last play"),
        4 => ("at least one play was forbidden or to be forbidden as a repetition", "board, turn, passes, last play"),
        5 => ("at least one game rebuilt from a non-empty log was compared with the lost one", "board, turn, passes, last play"),
        6 => ("at least one record with moves was restored and compared", "board, turn, passes, last play"),
        7 => ("at least one damaged record was imported and judged", "board, turn, passes, last play"),
        8 => ("at least one switch between tasks happened inside a library call", "board of the shared game"),
        9 => ("at least one replica with the same non-empty log, or pair of equal boards with different histories, was compared", "board, turn, passes, last play"),
        10 => ("at least one pause was reached and probed", "board, turn, passes, last play"),
        11 => ("at least one scored position had territory of both colours", "board, turn, passes, last play"),
        12 => ("at least one compared position had a group of three or more stones", "board, turn, passes, last play"),
        13 => ("at least one compared position had stones of both colours", "board, turn, passes, last play"),
        14 => ("at least one request outside the board was judged", "board, turn, passes, last play"),
        15 => ("at least one analysis of an unfinished game with floating groups", "board, turn, passes, last play"),
        16 => ("at least one long series of operations was compared with a fresh board or game", "board at each comparison"),
        17 => ("at least one compared history contained a repeated position", "board, turn, passes, last play"),
        18 => ("at least one list under rules other than the game's own excluded an empty point", "board, turn, passes, last play"),
        _ => ("", ""),
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(verif: &str, id: &str, prop: u8, tier: &str, seed: u64, long: bool, t: &Total, planned: u64, search_s: f64, wall: f64, violations: usize, known: &[String], names: &[String]) -> Result<(), String> {
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let mut samples = vec![];
    let mut ids = t.samples.clone();
    if ids.is_empty() {
        ids.push(0);
    }
    for i in ids {
        let p = generate(prop, run_seed(seed, prop, i), long);
        let mut s = String::new();
        let _ = write!(s, "run {} seed {:#x}: {}", i, run_seed(seed, prop, i), p.text().lines().nth(1).unwrap_or(""));
        let mut kinds: BTreeMap<&str, u32> = BTreeMap::new();
        for e in &p.evs {
            *kinds.entry(kind_name(e.k)).or_insert(0) += 1;
        }
        let _ = write!(s, "; setup stones {}; {} steps {:?}", p.cfg.setup.len(), p.evs.len(), kinds);
        if t.viol.is_empty() && !matches!(prop, 8 | 15 | 16) {
            if let Ok(o) = execute_fresh(&p, true) {
                let tr = o.cx.trace.unwrap_or_default();
                let _ = write!(s, "; trace: {}", tr.iter().take(14).cloned().collect::<Vec<_>>().join(" | "));
            }
        } else {
            let _ = write!(s, "; schedule: {}", p.evs.iter().take(14).map(|e| format!("{}({},{},{})", kind_name(e.k), e.a, e.b, e.c)).collect::<Vec<_>>().join(" "));
        }
        samples.push(js(&s));
    }
    let g = |k: &str| t.stats.get(k).copied().unwrap_or(0);
    let map = |pre: &dyn Fn(&str) -> bool| {
        t.stats.iter().filter(|(k, _)| pre(k)).map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    };
    let faults = map(&|k| k.starts_with("fault_") || k.starts_with("crash_") || k == "retries" || k == "timeout_passes");
    let steps = map(&|k| k.starts_with("step_"));
    let probes = map(&|k| !(k.starts_with("fault_") || k.starts_with("crash_") || k.starts_with("step_") || k.starts_with("blocks_") || k.starts_with("known_") || ["retries", "timeout_passes", "sim_ms", "steps", "repeatability_rechecked", "repeatability_mismatches"].contains(&k)));
    let knowns = map(&|k| k.starts_with("known_"));
    let (nt, st) = rule(prop);
    let h = search_s / 3600.0;
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n",
        js(id), js(tier), seed
    );
    let _ = write!(s, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.runs, t.nontrivial.len());
    let _ = write!(
        s,
        "  \"rule\": {},\n",
        js(&format!("One evaluation is one simulated run: configuration, schedule, faults and entropy all drawn from one 64-bit seed (seed of run i = mix(VERIF_SEED, property, i)). A run is non-trivial if {}; distinct means distinct digests of its sequence of states and answers. States are counted by {}.", nt, st))
    );
    let _ = write!(s, "  \"samples\": [{}],\n", samples.join(",\n   "));
    let _ = write!(s, "  \"runs_planned\": {},\n  \"runs_nontrivial\": {},\n  \"runs_per_hour_one_seed_each\": {},\n  \"search_seconds\": {:.1},\n", planned, t.hot_runs, (t.runs as f64 / h) as u64, search_s);
    let _ = write!(s, "  \"simulated_seconds\": {:.1},\n  \"scheduled_steps\": {},\n", g("sim_ms") as f64 / 1000.0, g("steps"));
    let _ = write!(s, "  \"distinct_interleavings\": {},\n  \"distinct_states\": {},\n", t.shapes.len(), t.states.len());
    let _ = write!(s, "  \"faults_injected\": {{{}}},\n  \"steps_by_kind\": {{{}}},\n  \"oracle_probes\": {{{}}},\n", faults, steps, probes);
    let _ = write!(s, "  \"known_findings_met\": {{{}}},\n  \"known_findings_reported\": [{}],\n", knowns, known.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"repeatability\": {{\"runs_executed_again_in_another_process\": {}, \"different\": {}}},\n", g("repeatability_rechecked"), g("repeatability_mismatches"));
    if prop == 8 {
        let _ = write!(s, "  \"preemption_points\": {{\"basic_blocks_of_the_library\": {}, \"reached_by_tasks\": {}}},\n", g("blocks_instrumented_max"), g("blocks_covered_max"));
    }
    let _ = write!(
        s,
        "  \"builds\": [{}],\n  \"real_components\": \"the whole goban library (features history and deadstones), sgf-parser, oxymcts, rand, std threads for C08\",\n  \"simulated_components\": \"host process, clients, network, disk and log, clock, system entropy (getrandom), task scheduler\"\n }},\n",
        names.iter().map(|n| js(n)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(s, " \"assumptions\": [\"seeded search: only the runs counted here were explored\", \"the reference model (sim/src/model.rs) states the rules correctly\"],\n");
    let _ = write!(s, " \"wall_s\": {:.1}, \"violations\": {}\n}}\n", wall, violations);
    std::fs::write(format!("{}/evidence/{}.json", verif, id), s).map_err(|e| e.to_string())
}
