//! Runs a check: shards cases over worker processes, gathers evidence, reports violations.
use crate::checks::{self, Check};
use crate::engine::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(id) ^ i.wrapping_mul(0xD1B54A32D192ED03);
    splitmix(&mut s)
}

fn big_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().name("case".into()).stack_size(1 << 30).spawn(f).unwrap().join()
}

pub fn main() -> i32 {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| &**s) {
        Some("check") => check(&args[2]),
        Some("worker") => worker(&args[2..]),
        Some("replay") => replay(&args[2], &args[3]),
        Some("probe") => probe_cmd(&args[2]),
        Some("one") => one(&args[2], args[3].parse().unwrap()),
        Some("serve") => { crate::checks::config::serve(); 0 }
        Some("table") => { print!("{}", checks::listing::table()); 0 }
        Some("list") => { for c in checks::all() { println!("{}", c.id); } 0 }
        _ => { eprintln!("usage: verif check|replay|one|list ..."); 2 }
    }
}

fn find(id: &str) -> Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => { eprintln!("no such check {}", id); std::process::exit(2) }
    }
}

fn cfg(scratch: &Path) -> Cfg { Cfg { thorough: thorough(), scratch: scratch.to_path_buf() } }

/// Prints one generated case (for looking at generators).
fn one(id: &str, i: u64) -> i32 {
    let c = find(id);
    let dir = std::env::temp_dir().join(format!("dyonverif-one-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    let s = case_seed(seed(), c.id, i);
    let r = big_thread(move || {
        let mut src = Src::random(s);
        let o = (c.case)(&mut src, &cfg(&d2));
        println!("{}\n--- nontrivial={} discard={} labels={:?} violation={:?}", o.desc, o.nontrivial, o.discard, o.labels, o.violation);
    });
    let _ = std::fs::remove_dir_all(&dir);
    if r.is_err() { 70 } else { 0 }
}

struct WorkerOut { evals: u64, discards: u64, labels: BTreeMap<String, u64>, samples: Vec<String>, violation: Option<(u64, String)> }

fn worker(a: &[String]) -> i32 {
    let id = a[0].clone();
    let shard: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let cases: u64 = a[3].parse().unwrap();
    let out = PathBuf::from(&a[4]);
    let c = find(&id);
    let scratch = out.join(format!("scratch{}", shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let o2 = out.clone();
    let r = big_thread(move || {
        let mut prog = std::fs::File::create(o2.join(format!("prog{}", shard))).unwrap();
        let cfg = cfg(&scratch);
        let sd = seed();
        let mut st = Stats::default();
        let mut violation: Option<(Vec<u64>, Outcome, u64)> = None;
        let mut i = shard;
        use std::io::Seek;
        // A slow machine explores fewer cases instead of running into the caller's time limit.
        let wall = std::env::var("VERIF_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.thorough { 5400u64 } else { 240 });
        let t0 = Instant::now();
        while i < cases && t0.elapsed().as_secs() < wall {
            prog.seek(std::io::SeekFrom::Start(0)).unwrap();
            prog.write_all(&i.to_le_bytes()).unwrap();
            let mut src = Src::random(case_seed(sd, c.id, i));
            let o = (c.case)(&mut src, &cfg);
            st.evals += 1;
            if o.discard { st.discards += 1; }
            for l in &o.labels { *st.labels.entry(l.to_string()).or_insert(0) += 1; }
            if let Some(_) = o.violation {
                // Kept in case shrinking takes the process down.
                let _ = std::fs::write(o2.join(format!("viol{}", shard)), replay_text(c.id, i, sd, &src.rec, &o));
                let dl = Instant::now() + Duration::from_secs(90);
                let (ch, so) = shrink(c.case, &cfg, src.rec.clone(), 6000, dl);
                // A shrink that does not reproduce still reports the original.
                if so.violation.as_deref() == Some("not reproduced on replay") {
                    violation = Some((src.rec.clone(), o, i));
                } else {
                    violation = Some((ch, so, i));
                }
                break;
            }
            if o.nontrivial && !o.discard {
                if st.keys.insert(o.key) && st.samples.len() < 3 && (st.keys.len() as u64) % 7 == 1 {
                    st.samples.push(o.desc.chars().take(1500).collect());
                }
            }
            i += n;
        }
        // Results.
        let mut f = std::fs::File::create(o2.join(format!("keys{}", shard))).unwrap();
        let mut buf = Vec::with_capacity(st.keys.len() * 8);
        for k in &st.keys { buf.extend_from_slice(&k.to_le_bytes()); }
        f.write_all(&buf).unwrap();
        let mut s = String::new();
        s.push_str(&format!("evals {}\ndiscards {}\n", st.evals, st.discards));
        for (k, v) in &st.labels { s.push_str(&format!("label {} {}\n", v, k)); }
        for x in &st.samples { s.push_str(&format!("sample {}\n", hex(x))); }
        if let Some((ch, o, i)) = violation {
            let text = replay_text(c.id, i, sd, &ch, &o);
            s.push_str(&format!("violation {} {}\n", i, hex(&text)));
        }
        std::fs::write(o2.join(format!("out{}.tmp", shard)), s).unwrap();
        std::fs::rename(o2.join(format!("out{}.tmp", shard)), o2.join(format!("out{}", shard))).unwrap();
    });
    if r.is_err() { 70 } else { 0 }
}

fn replay_text(id: &str, i: u64, sd: u64, ch: &[u64], o: &Outcome) -> String {
    format!("{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"choices\": [{}],\n \"violation\": {},\n \"input\": {}\n}}\n",
        jstr(id), i, sd, ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), jstr(o.violation.as_deref().unwrap_or("")), jstr(&o.desc))
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}

fn parse_out(s: &str) -> WorkerOut {
    let mut w = WorkerOut { evals: 0, discards: 0, labels: BTreeMap::new(), samples: vec![], violation: None };
    for l in s.lines() {
        let mut it = l.splitn(2, ' ');
        let k = it.next().unwrap();
        let rest = it.next().unwrap_or("");
        match k {
            "evals" => w.evals = rest.parse().unwrap(),
            "discards" => w.discards = rest.parse().unwrap(),
            "label" => { let mut p = rest.splitn(2, ' '); let n: u64 = p.next().unwrap().parse().unwrap(); w.labels.insert(p.next().unwrap().into(), n); }
            "sample" => w.samples.push(unhex(rest)),
            "violation" => { let mut p = rest.splitn(2, ' '); let n: u64 = p.next().unwrap().parse().unwrap(); w.violation = Some((n, unhex(p.next().unwrap()))); }
            _ => {}
        }
    }
    w
}

fn probe_cmd(id: &str) -> i32 {
    let c = find(id);
    let dir = std::env::temp_dir().join(format!("dyonverif-probe-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    let r = big_thread(move || {
        for p in (c.probes)(&cfg(&d2)) {
            println!("probe {} {} {}", if p.fails { "FAIL" } else { "ok" }, p.name, p.desc.replace('\n', " "));
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    if r.is_err() { 70 } else { 0 }
}

fn save_replay(id: &str, text: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}-{:016x}.json", id, hash_str(text)));
    std::fs::write(&p, text).unwrap();
    p
}

fn known(id: &str) -> Vec<String> {
    // Lines `known: property=<id> key=<probe name> <text>`.
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    t.lines().filter(|l| l.starts_with("known: ")).filter_map(|l| {
        let mut w = l.split_whitespace().skip(1);
        if w.next() != Some(&format!("property={}", id)) { return None; }
        w.next().and_then(|k| k.strip_prefix("key=").map(|s| s.to_string()))
    }).collect()
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let c = find(id);
    let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { c.thorough } else { c.quick });
    let out = std::env::temp_dir().join(format!("dyonverif-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    let code = run_check(&c, cases, &out, t0);
    let _ = std::fs::remove_dir_all(&out);
    code
}

fn run_check(c: &Check, cases: u64, out: &Path, t0: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let id = c.id;
    // Probes: exact inputs of recorded findings and of repaired defects.
    let po = Command::new(&exe).args(&["probe", id]).stdin(Stdio::null()).output().unwrap();
    let ptxt = String::from_utf8_lossy(&po.stdout).into_owned();
    let listed = known(id);
    let mut probes = 0u64;
    let mut known_lines = vec![];
    for l in ptxt.lines().filter(|l| l.starts_with("probe ")) {
        probes += 1;
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        if w[1] == "FAIL" {
            if listed.iter().any(|k| k == w[2]) {
                let s = format!("KNOWN-FINDING: property={} {} {}", id, w[2], w[3]);
                println!("{}", s);
                known_lines.push(s);
            } else {
                let p = save_replay(id, &format!("{{\n \"property\": {},\n \"probe\": {},\n \"violation\": {}\n}}\n", jstr(id), jstr(w[2]), jstr(w[3])));
                println!("{}", w[3]);
                println!("VIOLATION property={} replay={}", id, p.display());
                evidence(c, cases, probes, &[], 0, t0, 1, &known_lines);
                return 1;
            }
        }
    }
    if !po.status.success() {
        use std::os::unix::process::ExitStatusExt;
        if po.status.signal().is_some() {
            let p = save_replay(id, &format!("{{\n \"property\": {},\n \"violation\": \"probe process died: {:?}\"\n}}\n", jstr(id), po.status));
            println!("VIOLATION property={} replay={}", id, p.display());
            evidence(c, cases, probes, &[], 0, t0, 1, &known_lines);
            return 1;
        }
        eprintln!("probe run failed: {:?}\n{}", po.status, String::from_utf8_lossy(&po.stderr));
        return 2;
    }
    let n: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).min(cases.max(1));
    let mut kids: Vec<Option<std::process::Child>> = vec![];
    for s in 0..n {
        let errf = std::fs::File::create(out.join(format!("err{}", s))).unwrap();
        // A runaway allocation ends in an abort instead of taking the machine down.
        let k = Command::new("sh").args(&["-c", "ulimit -v 8000000; exec \"$@\"", "sh"]).arg(&exe)
            .args(&["worker", id, &s.to_string(), &n.to_string(), &cases.to_string(), out.to_str().unwrap()])
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(errf)
            .spawn().unwrap();
        kids.push(Some(k));
    }
    let mut outs: Vec<WorkerOut> = vec![];
    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (u64::MAX, Instant::now())).collect();
    let mut err: Option<String> = None;
    let mut viol: Option<String> = None;
    let read_prog = |s: u64| -> u64 {
        std::fs::read(out.join(format!("prog{}", s))).ok().and_then(|b| if b.len() >= 8 { Some(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])) } else { None }).unwrap_or(u64::MAX)
    };
    while kids.iter().any(|k| k.is_some()) && err.is_none() && viol.is_none() {
        std::thread::sleep(Duration::from_millis(30));
        for s in 0..n {
            let done = match kids[s as usize] { Some(ref mut k) => k.try_wait().unwrap(), None => continue };
            if let Some(st) = done {
                kids[s as usize] = None;
                use std::os::unix::process::ExitStatusExt;
                let errtxt = std::fs::read_to_string(out.join(format!("err{}", s))).unwrap_or_default();
                if st.success() {
                    let w = parse_out(&std::fs::read_to_string(out.join(format!("out{}", s))).unwrap());
                    if let Some((_, ref t)) = w.violation { viol = Some(t.clone()); }
                    outs.push(w);
                } else if let Ok(t) = std::fs::read_to_string(out.join(format!("viol{}", s))) {
                    viol = Some(t);
                } else if st.signal() == Some(9) {
                    err = Some(format!("worker {} ended by signal 9 or out of memory at case {}", s, read_prog(s)));
                } else if st.signal().is_some() {
                    // The code under test took the process down: confirm in a fresh process.
                    let i = read_prog(s);
                    let r = one_limited(&exe, id, i);
                    if (r.status.signal().is_some() && r.status.signal() != Some(9)) || r.status.code().map(|c| c > 128 && c != 137).unwrap_or(false) {
                        viol = Some(format!("{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"choices\": null,\n \"violation\": {}\n}}\n", jstr(id), i, seed(),
                            jstr(&format!("process died with signal {:?}: {}", r.status.signal(), errtxt.chars().take(400).collect::<String>()))));
                    } else {
                        err = Some(format!("worker {} died ({:?}) at case {}, not reproduced: {}", s, st, i, errtxt));
                    }
                } else {
                    err = Some(format!("worker {} failed ({:?}) at case {}: {}", s, st, read_prog(s), errtxt));
                }
            } else {
                let p = read_prog(s);
                let l = &mut last[s as usize];
                if p != l.0 { *l = (p, Instant::now()); }
                else if l.1.elapsed() > Duration::from_secs(150) {
                    // Every case is bounded and takes well under a second: confirm in a fresh process.
                    if let Ok(t) = std::fs::read_to_string(out.join(format!("viol{}", s))) { viol = Some(t); break; }
                    let r = one_limited(&exe, id, p);
                    if r.status.code() == Some(124) || r.status.code() == Some(137) {
                        viol = Some(format!("{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"choices\": null,\n \"violation\": \"a bounded case does not terminate\",\n \"input\": {}\n}}\n", jstr(id), p, seed(), jstr(&String::from_utf8_lossy(&r.stdout))));
                    } else {
                        err = Some(format!("worker {} made no progress for 150 s at case {} (not reproduced)", s, p));
                    }
                }
            }
        }
    }
    for k in kids.iter_mut() { if let Some(k) = k { let _ = k.kill(); let _ = k.wait(); } }
    let mut keys = std::collections::HashSet::new();
    for s in 0..n {
        if let Ok(b) = std::fs::read(out.join(format!("keys{}", s))) {
            for ch in b.chunks_exact(8) { keys.insert(u64::from_le_bytes([ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7]])); }
        }
    }
    if let Some(t) = viol {
        let p = save_replay(id, &t);
        println!("{}", t);
        println!("VIOLATION property={} replay={}", id, p.display());
        evidence(c, cases, probes, &outs, keys.len(), t0, 1, &known_lines);
        return 1;
    }
    if let Some(e) = err { eprintln!("ERROR {}: {}", id, e); return 2; }
    evidence(c, cases, probes, &outs, keys.len(), t0, 0, &known_lines);
    let ev: u64 = outs.iter().map(|o| o.evals).sum();
    println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", id, ev, keys.len(), t0.elapsed().as_secs_f64());
    0
}

fn one_limited(exe: &Path, id: &str, i: u64) -> std::process::Output {
    Command::new("sh").args(&["-c", "ulimit -v 8000000; exec timeout -k 5 90 \"$@\"", "sh"]).arg(exe).args(&["one", id, &i.to_string()]).stdin(Stdio::null()).output().unwrap()
}

fn evidence(c: &Check, cases: u64, probes: u64, outs: &[WorkerOut], distinct: usize, t0: Instant, violations: u32, known: &[String]) {
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut ev = 0; let mut disc = 0;
    let mut samples = vec![];
    for o in outs {
        ev += o.evals; disc += o.discards;
        for (k, v) in &o.labels { *labels.entry(k.clone()).or_insert(0) += v; }
        for s in &o.samples { if samples.len() < 6 { samples.push(s.clone()); } }
    }
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(c.id), if thorough() { "thorough" } else { "quick" }, seed()));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"planned_cases\": {},\n  \"discarded\": {},\n  \"probes_run\": {},\n", ev, distinct, jstr(c.rule), cases, disc, probes));
    s.push_str(&format!("  \"classes\": {{{}}},\n", labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"known_findings\": [{}],\n", known.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n   ")));
    s.push_str(&format!(" \"assumptions\": [{}],\n", c.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations));
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", c.id)), s).unwrap();
}

fn replay(id: &str, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let c = find(id);
    let choices: Option<Vec<u64>> = t.find("\"choices\": [").map(|p| {
        let r = &t[p + 12..];
        let e = r.find(']').unwrap();
        r[..e].split(',').filter_map(|x| x.trim().parse().ok()).collect()
    });
    let choices = match choices { Some(x) => x, None => { eprintln!("no choices in replay; run `verif one {} <case>`", id); return 2; } };
    let dir = std::env::temp_dir().join(format!("dyonverif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    let file = file.to_string();
    let cid = c.id;
    let r = big_thread(move || {
        let mut src = Src::replay(&choices);
        let o = (c.case)(&mut src, &cfg(&d2));
        println!("{}", o.desc);
        match o.violation {
            Some(v) => { println!("{}", v); println!("VIOLATION property={} replay={}", cid, file); 1 }
            None => { println!("held"); 0 }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    r.unwrap_or(70)
}
