mod fw;
use fw::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

mod alloc;
mod dict;
mod model;
mod any;
#[macro_use]
mod auto;
mod foreign;
mod dynty;
mod props;
mod render;
mod raw;
mod resolve;
mod texts;

const VERIF: &str = env!("CARGO_MANIFEST_DIR");
fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| format!("{VERIF}/.."))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// Signatures of recorded findings for one property.
fn known_sigs(id: &str) -> Vec<(String, String)> {
    let path = format!("{}/known-findings.txt", verif_dir());
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // finding: property=C01 sig=<sig> :: description
            if let Some(rest) = l.strip_prefix("finding: property=") {
                let mut it = rest.splitn(2, " sig=");
                let pid = it.next().unwrap_or("");
                let rest = it.next().unwrap_or("");
                let mut it = rest.splitn(2, " :: ");
                let sig = it.next().unwrap_or("").to_string();
                let what = it.next().unwrap_or("").to_string();
                if pid == id {
                    out.push((sig, what));
                }
            }
        }
    }
    out
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn worker(id: &str, thorough: bool, slot: &str) -> i32 {
    let prop = match props::get(id) {
        Some(p) => p,
        None => return 2,
    };
    let seed = seed_env();
    let known = known_sigs(id);
    let sink = Mutex::new(BTreeMap::new());
    let mut budget = if thorough { prop.thorough_secs } else { prop.quick_secs };
    if let Some(b) = std::env::var("HARNESS_SECS").ok().and_then(|s| s.parse().ok()) {
        budget = b;
    }
    let threads = std::env::var("HARNESS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = run(&prop, thorough, seed, slot, &|s| known.iter().any(|(k, _)| k == s), &sink, budget, threads);
    for (k, v) in sink.lock().unwrap().iter() {
        println!("@KNOWN\t{}\t{}", esc(k), esc(v));
    }
    for f in &out.found {
        println!("@FOUND\t{}\t{}\t{}\t{}\t{}", f.sub, f.idx, f.seed, esc(&f.sig), esc(&f.msg));
    }
    println!("@EVALS\t{}", out.stats.evals);
    println!("@DISTINCT\t{}", out.stats.nontrivial);
    for (k, v) in &out.stats.counters {
        println!("@CTR\t{k}\t{v}");
    }
    for (k, v) in &out.per_sub {
        println!("@SUB\t{k}\t{v}");
    }
    for s in &out.stats.samples {
        println!("@SAMPLE\t{}", esc(s));
    }
    println!("@DONE");
    0
}

#[derive(Default)]
struct Collected {
    evals: u64,
    distinct: u64,
    counters: BTreeMap<String, u64>,
    subs: BTreeMap<String, u64>,
    samples: Vec<String>,
    found: Vec<Found>,
    known: BTreeMap<String, String>,
    done: bool,
    hang: bool,
    notes: Vec<String>,
}
impl Collected {
    fn merge(&mut self, o: Collected) {
        self.evals += o.evals;
        self.distinct += o.distinct;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.subs {
            *self.subs.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples.into_iter().take(2));
        self.found.extend(o.found);
        self.known.extend(o.known);
        self.notes.extend(o.notes);
    }
}

/// Run one worker process and collect what it observed.
fn run_worker(label: &str, exe: &[String], id: &str, tier: &str, envs: &[(String, String)], col: &mut Collected) -> Result<(), String> {
    let slot = format!("{}/target/slot-{}-{}-{}", verif_dir(), id, label, std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/target", verif_dir()));
    let mut cmd = Command::new(&exe[0]);
    cmd.args(&exe[1..]).args(["--worker", id, tier, &slot]).stdout(Stdio::piped());
    for (k, v) in envs {
        cmd.env(k, v);
    }
    let errpath = format!("{slot}.stderr");
    cmd.stderr(std::fs::File::create(&errpath).map_err(|e| e.to_string())?);
    let mut ch = cmd.spawn().map_err(|e| format!("spawn {}: {e}", exe[0]))?;
    let out = BufReader::new(ch.stdout.take().unwrap());
    col.done = false;
    let pre = match label {
        "main" => String::new(),
        l => format!("{}:", l.trim_end_matches(|c: char| c.is_ascii_digit())),
    };
    for line in out.split(b'\n') {
        let line = match line {
            Ok(l) => String::from_utf8_lossy(&l).into_owned(),
            Err(_) => break,
        };
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "@KNOWN" => {
                col.known.insert(unesc(f[1]), unesc(f[2]));
            }
            "@FOUND" => col.found.push(Found {
                sub: f[1].into(),
                idx: f[2].parse().unwrap_or(0),
                seed: f[3].parse().unwrap_or(0),
                sig: unesc(f[4]),
                msg: format!("{pre}{}", unesc(f[5])),
            }),
            "@EVALS" => col.evals += f[1].parse::<u64>().unwrap_or(0),
            "@DISTINCT" => col.distinct += f[1].parse::<u64>().unwrap_or(0),
            "@CTR" => *col.counters.entry(format!("{pre}{}", f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "@SUB" => *col.subs.entry(format!("{pre}{}", f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
            "@SAMPLE" => col.samples.push(format!("{pre}{}", unesc(f[1]))),
            "@DONE" => col.done = true,
            l if l.starts_with("@HANG ") => {
                let p: Vec<&str> = l.split(' ').collect();
                col.hang = true;
                col.found.push(Found {
                    sub: p[1].into(),
                    seed: p[2].parse().unwrap_or(0),
                    idx: p[3].parse().unwrap_or(0),
                    sig: "hang".into(),
                    msg: format!("{pre}one call used more than {HANG_CPU_SECS} s of CPU time without returning"),
                });
            }
            _ => println!("{line}"),
        }
    }
    let st = ch.wait().map_err(|e| e.to_string())?;
    let interpreted = label.starts_with("miri");
    let stderr = String::from_utf8_lossy(&std::fs::read(&errpath).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&errpath);
    if !col.done && !col.hang {
        // The process died: find the case that kills it.
        let slots = std::fs::read_to_string(&slot).unwrap_or_default();
        let tail: String = {
            let lines: Vec<&str> = stderr.lines().collect();
            let start = lines.iter().position(|l| l.contains("ERROR: AddressSanitizer") || l.contains("error: Undefined Behavior")).unwrap_or(lines.len().saturating_sub(30));
            lines[start..(start + 40).min(lines.len())].join("\n")
        };
        let asan = stderr.contains("AddressSanitizer") && !stderr.contains("failed to allocate");
        let ub = interpreted && stderr.contains("error: Undefined Behavior");
        if interpreted && !ub {
            // ended by its time limit or at something the interpreter cannot run
            let _ = std::fs::remove_file(&slot);
            col.notes.push(format!("{label} worker ended early ({st}): {}", stderr.lines().filter(|l| l.contains("error")).next().unwrap_or("time limit")));
            return Ok(());
        }
        let mut hit = None;
        if ub {
            // one thread: its slot names the case
            if let Some(w) = slots.lines().next().map(|l| l.split_whitespace().collect::<Vec<_>>()).filter(|w| w.len() >= 4) {
                let _ = std::fs::remove_file(&slot);
                col.found.push(Found { sub: w[3].into(), idx: w[2].parse().unwrap_or(0), seed: w[1].parse().unwrap_or(0), sig: "undefined behavior".into(), msg: format!("{pre}the interpreter reports\n{tail}") });
                return Ok(());
            }
        }
        for l in slots.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 4 {
                continue;
            }
            let mut cmd = Command::new(&exe[0]);
            cmd.args(&exe[1..]).args(["--one", id, tier, w[3], w[2], w[1]]).stdout(Stdio::null()).stderr(Stdio::null());
            for (k, v) in envs {
                cmd.env(k, v);
            }
            if let Ok(s) = cmd.status() {
                let code = s.code();
                if code.is_none() || !matches!(code, Some(0) | Some(1)) {
                    hit = Some((w[3].to_string(), w[2].parse().unwrap_or(0), w[1].parse().unwrap_or(0), format!("{s}")));
                    break;
                }
            }
        }
        let _ = std::fs::remove_file(&slot);
        if let Some((sub, idx, seed, s)) = hit {
            col.found.push(Found { sub, idx, seed, sig: format!("abort {label}"), msg: format!("{pre}process died ({s}) running this case; first: {st}\n{tail}") });
            return Ok(());
        }
        if asan {
            col.found.push(Found { sub: "?".into(), idx: 0, seed: 0, sig: format!("abort {label}"), msg: format!("{pre}sanitizer report\n{tail}") });
            return Ok(());
        }
        return Err(format!("{label} worker ended with {st} and no single case reproduces it:\n{tail}"));
    }
    let _ = std::fs::remove_file(&slot);
    Ok(())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("--worker") => std::process::exit(worker(a[2], a[3] == "thorough", a[4])),
        Some("--op") => props::c21::main_op(a[2].parse().unwrap()),
        Some("--one") => {
            // --one ID tier sub idx seed
            let prop = props::get(a[2]).expect("property");
            let idx = a[5].parse().unwrap();
            let seed = a[6].parse().unwrap();
            let thorough = a[3] == "thorough";
            let stack = prop.stack_mb;
            let sub = a[4].to_string();
            let r = std::thread::Builder::new()
                .stack_size(stack << 20)
                .spawn(move || replay(&prop, &sub, idx, seed, thorough))
                .unwrap()
                .join()
                .unwrap();
            match r {
                Some(Ok(())) => {
                    println!("replay: property held on this case");
                    std::process::exit(0)
                }
                Some(Err(f)) => {
                    println!("replay: sig={}\n{}", f.sig, f.msg);
                    std::process::exit(1)
                }
                None => std::process::exit(2),
            }
        }
        Some("--replay") => {
            let s = std::fs::read_to_string(a[2]).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            // a case found by an instrumented build is repeated in it
            let exe: Vec<String> = match get("via").as_str() {
                "asan" => std::env::var("HARNESS_ASAN").unwrap_or_default(),
                "miri" => std::env::var("HARNESS_MIRI").unwrap_or_default(),
                _ => String::new(),
            }
            .split(' ')
            .filter(|w| !w.is_empty())
            .map(|w| w.to_string())
            .collect();
            let exe = if exe.is_empty() { vec![args[0].clone()] } else { exe };
            let mut cmd = Command::new(&exe[0]);
            if get("via") == "miri" {
                cmd.env("HARNESS_SMALL", "1");
            }
            let st = cmd.args(&exe[1..]).args(["--one", &get("property"), &get("tier"), &get("sub"), &get("idx"), &get("seed")]).status().unwrap();
            if st.code() == Some(0) {
                std::process::exit(0);
            }
            println!("VIOLATION property={} replay={}", get("property"), a[2]);
            std::process::exit(1);
        }
        Some(id) if a.len() >= 3 => {
            let tier = if a[2] == "thorough" { "thorough" } else { "quick" };
            std::process::exit(supervise(id, tier));
        }
        _ => {
            eprintln!("usage: harness ID quick|thorough | --replay FILE");
            std::process::exit(2)
        }
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let prop = match props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut col = Collected::default();
    let mut errors = Vec::new();
    if let Err(e) = run_worker("main", &[me], id, tier, &[], &mut col) {
        errors.push(e);
    }
    // Additional instrumented builds of this same harness (sanitizer, interpreter).
    for (label, var) in [("asan", "HARNESS_ASAN"), ("miri", "HARNESS_MIRI")] {
        if !col.found.is_empty() {
            break;
        }
        if let Ok(cmd) = std::env::var(var) {
            if cmd.is_empty() {
                continue;
            }
            let exe: Vec<String> = cmd.split(' ').map(|s| s.to_string()).collect();
            let secs = |v: &str| std::env::var(v).ok();
            if label == "asan" {
                let mut envs = vec![("ASAN_OPTIONS".to_string(), "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0".to_string())];
                if let Some(s) = secs("HARNESS_ASAN_SECS") {
                    envs.push(("HARNESS_SECS".into(), s));
                }
                if let Err(e) = run_worker(label, &exe, id, tier, &envs, &mut col) {
                    errors.push(e);
                }
            } else {
                // one interpreter per core, each with its own seed
                let parts: Vec<(Collected, Option<String>)> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..8u64)
                        .map(|i| {
                            let exe = &exe;
                            let s = secs("HARNESS_MIRI_SECS");
                            sc.spawn(move || {
                                let seed = (seed_env().wrapping_mul(64) + i).to_string();
                                let mut envs = vec![("HARNESS_SMALL".to_string(), "1".to_string()), ("HARNESS_THREADS".into(), "1".into()), ("VERIF_SEED".into(), seed.clone()), ("HARNESS_MIRI_SEED".into(), seed), ("HARNESS_PART".into(), format!("{}/4", i % 4))];
                                if let Some(s) = s {
                                    envs.push(("HARNESS_SECS".into(), s));
                                }
                                let mut col = Collected::default();
                                let e = run_worker(&format!("miri{i}"), exe, id, tier, &envs, &mut col).err();
                                (col, e)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (p, e) in parts {
                    col.merge(p);
                    errors.extend(e);
                }
            }
        }
    }
    for (k, what) in known_sigs(id) {
        if let Some(_msg) = col.known.get(&k) {
            println!("KNOWN-FINDING: property={id} {what}");
        } else {
            // A listed finding is announced on every run; say when this run did not meet it.
            println!("KNOWN-FINDING: property={id} {what} (listed; not met by this run's workload)");
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", json_str(id), json_str(tier), seed_env(), json_str(prop.level)));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", col.evals, col.distinct, json_str(prop.rule)));
    o.push_str(&format!("  \"samples\": [{}],\n", col.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("  \"cases_per_workload\": {{{}}},\n", col.subs.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("  \"observed_events\": {{{}}}\n", col.counters.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ")));
    o.push_str(" },\n");
    if let Ok(n) = std::env::var("HARNESS_NOTES") {
        col.notes.extend(n.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()));
    }
    if !col.notes.is_empty() {
        o.push_str(&format!(" \"notes\": [{}],\n", col.notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    }
    o.push_str(&format!(" \"assumptions\": [{}],\n", prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, col.found.len()));
    let evdir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(format!("{evdir}/{id}.json"), o) {
        errors.push(format!("evidence: {e}"));
    }
    println!("{id} {tier}: {} executions, {} distinct non-trivial, {:.1} s", col.evals, col.distinct, wall);
    if let Some(f) = col.found.first() {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{}-{}.txt", f.sub, f.seed);
        let mut file = std::fs::File::create(&path).unwrap();
        let via = ["asan", "miri"].into_iter().find(|v| f.msg.starts_with(&format!("{v}:"))).unwrap_or("main");
        let _ = writeln!(file, "property={id}\ntier={tier}\nvia={via}\nsub={}\nidx={}\nseed={}\nsig={}\n\n{}", f.sub, f.idx, f.seed, f.sig, f.msg);
        println!("--- {}", f.sub);
        println!("{}", f.msg);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("check error: {e}");
        }
        return 3;
    }
    if col.evals == 0 || col.distinct == 0 {
        eprintln!("check error: nothing observed");
        return 3;
    }
    0
}
