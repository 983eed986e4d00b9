//! gbcheck run <ID> <quick|thorough>      check a property (supervisor)
//! gbcheck replay <file>                  re-run a saved failing case
//! gbcheck list
//! Environment: VERIF_SEED (default 1), VERIF_DIR (default /verif), GB_SCALE (number of cases),
//! GB_NO_PLAIN=1 (development: without the release-configuration phase).
//!
//! Every check has two phases, one per build of the harness and of the code under test:
//! - `plain`: the configuration users ship - no debug assertions, wrapping arithmetic - with
//!   AddressSanitizer and the standard library's checks of unsafe preconditions;
//! - `debug`: with debug assertions and overflow checks (the bulk of the cases).
//! Exit: 0 held, 1 violation, 2 the check itself failed.

use gbcheck::engine::*;
use gbcheck::props::PROPS;
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, ExitStatus};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const STACK: usize = 128 << 20;
const SHRINK_BUDGET: usize = 4000;
/// Is this binary the `plain` build?
const PLAIN: bool = !cfg!(debug_assertions);
/// Part of the cases that is (additionally) run in the plain build.
const PLAIN_SHARE: f64 = 0.12;
/// Properties that are about the plain build only.
const PLAIN_ONLY: &[&str] = &["C35"];
const ASAN: &str = "detect_leaks=0:abort_on_error=1:symbolize=0:malloc_context_size=0:quarantine_size_mb=32:detect_stack_use_after_return=0";

fn plain_exe() -> PathBuf {
    let exe = std::env::current_exe().expect("exe");
    if PLAIN {
        return exe;
    }
    exe.parent().and_then(|p| p.parent()).expect("target").join("x86_64-unknown-linux-gnu/plain/gbcheck")
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

struct Known {
    property: String,
    sig: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let mut r = vec![];
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for line in s.lines() {
            // known: property=C06 sig=xyz | description
            if let Some(rest) = line.strip_prefix("known: ") {
                let (head, what) = rest.split_once('|').unwrap_or((rest, ""));
                let get = |k: &str| head.split_whitespace().find_map(|t| t.strip_prefix(k)).unwrap_or("").to_string();
                r.push(Known { property: get("property="), sig: get("sig="), what: what.trim().to_string() });
            }
        }
    }
    r
}

fn known_sigs(id: &str) -> HashSet<String> {
    known_findings().into_iter().filter(|k| k.property == id).map(|k| k.sig).collect()
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn write_replay(p: &Prop, plain: bool, tier: u8, seed: u64, index: u64, choices: &[u64], case: &str, failure: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}seed{}-{}.txt", p.id, if plain { "plain-" } else { "" }, seed, index));
    let mut s = String::new();
    s.push_str(&format!("property: {}\ntier: {}\nseed: {}\nindex: {}\nbuild: {}\n", p.id, tier, seed, index, if plain { "plain" } else { "debug" }));
    s.push_str("choices:");
    for c in choices {
        s.push_str(&format!(" {c}"));
    }
    s.push_str(&format!("\nfailure: {}\ncase: {}\n", failure.replace('\n', " "), case.replace('\n', " ")));
    s.push_str(&format!("replay: bash /verif/check.sh replay {}\n", path.display()));
    if let Err(e) = fs::write(&path, s) {
        eprintln!("cannot write replay file: {e}");
        exit(2);
    }
    path
}

fn read_choices(path: &str) -> (String, u8, u64, Vec<u64>, bool) {
    let s = fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        exit(2)
    });
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let choices = get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    (get("property:"), get("tier:").parse().unwrap_or(0), get("seed:").parse().unwrap_or(1), choices, get("build:") == "plain")
}

fn describe(cx: &Cx, known: &HashSet<String>) -> String {
    cx.failures.iter().filter(|f| !known.contains(&f.sig)).map(|f| format!("[{}] {}", f.sig, f.msg)).collect::<Vec<_>>().join(" ;; ")
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

// ---------------------------------------------------------------- child

fn child(p: &'static Prop, tier: u8, seed: u64, scratch: &Path) -> i32 {
    install_panic_hook();
    let _ = SCRATCH_BASE.set(scratch.to_path_buf());
    let known = known_sigs(p.id);
    let total = if tier == 0 { p.quick } else { p.thorough };
    let scale: f64 = std::env::var("GB_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let share = if PLAIN && !PLAIN_ONLY.contains(&p.id) { PLAIN_SHARE } else { 1.0 };
    let total = ((total as f64) * scale * share) as u64;
    // report cases that take longer than this many seconds (for tuning the generators)
    let slow: f64 = std::env::var("GB_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let failing: Mutex<Option<(u64, Vec<u64>)>> = Mutex::new(None);
    let all = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        for w in 0..THREADS {
            let (next, worst, failing, all, known) = (&next, &worst, &failing, &all, &known);
            let journal = fs::File::create(scratch.join(format!("w{w}"))).expect("journal");
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > worst.load(Ordering::SeqCst) {
                            break;
                        }
                        let _ = journal.write_at(&(i + 1).to_le_bytes(), 0);
                        let t = Instant::now();
                        let o = run_case(p, Gen::random(case_seed(seed, p.id, i), tier));
                        if slow > 0.0 && t.elapsed().as_secs_f64() > slow {
                            eprintln!("slow: case {i} {:.2}s {:.150}", t.elapsed().as_secs_f64(), o.cx.input.replace('\n', " "));
                        }
                        st.add(&o.cx, known);
                        if is_violation(&o.cx, known) {
                            worst.fetch_min(i, Ordering::SeqCst);
                            let mut f = failing.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                *f = Some((i, o.choices));
                            }
                        }
                    }
                    let _ = journal.write_at(&0u64.to_le_bytes(), 0);
                    all.lock().unwrap().merge(st);
                })
                .expect("spawn");
        }
    });
    let stats = all.into_inner().unwrap();
    let mut violations = 0;
    let mut code = 0;
    if let Some((i, choices)) = failing.into_inner().unwrap() {
        violations = 1;
        code = 1;
        let deadline = Instant::now() + Duration::from_secs(90);
        let (best, cx) = on_big_stack(|| {
            let best = shrink(choices, SHRINK_BUDGET, |c| {
                if Instant::now() > deadline {
                    return None;
                }
                let o = run_case(p, Gen::replay(c, tier));
                is_violation(&o.cx, &known).then_some(o.choices)
            });
            let o = run_case(p, Gen::replay(&best, tier));
            (best, o.cx)
        });
        let msg = describe(&cx, &known);
        let path = write_replay(p, PLAIN, tier, seed, i, &best, &cx.input, &msg);
        println!("case {i} (shrunk to {} choices): {}", best.len(), cx.input.trim());
        println!("failure: {msg}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let last = !PLAIN || PLAIN_ONLY.contains(&p.id);
    for k in known_findings().iter().filter(|k| last && k.property == p.id) {
        let hits = stats.known_hits.get(&k.sig).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (sig={}, {} cases in this run)", p.id, k.what, k.sig, hits);
    }
    if last || violations > 0 {
        let plain = fs::read_to_string(scratch.join("plain")).unwrap_or_default();
        write_evidence(p, tier, seed, &stats, violations, t0.elapsed().as_secs_f64(), &plain);
    } else {
        let s = format!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"comparisons\": {}, \"wall_s\": {:.2}}}",
            stats.evaluations,
            stats.distinct.len(),
            stats.subchecks,
            t0.elapsed().as_secs_f64()
        );
        fs::write(scratch.join("plain"), s).expect("scratch");
    }
    println!(
        "{}{}: {} cases, {} non-trivial, {} distinct, {} comparisons, {:.1}s",
        p.id,
        if PLAIN { " (release configuration)" } else { "" },
        stats.evaluations,
        stats.nontrivial,
        stats.distinct.len(),
        stats.subchecks,
        t0.elapsed().as_secs_f64()
    );
    for (l, c) in stats.labels.iter().filter(|_| last) {
        println!("   {:>7.3}% {l}", 100.0 * *c as f64 / stats.evaluations.max(1) as f64);
    }
    code
}

fn write_evidence(p: &Prop, tier: u8, seed: u64, st: &Stats, violations: u32, wall: f64, plain: &str) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", esc(p.id)));
    s.push_str(&format!(" \"tier\": {},\n", esc(if tier == 0 { "quick" } else { "thorough" })));
    s.push_str(&format!(" \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n"));
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evaluations, st.distinct.len()));
    s.push_str(&format!("  \"comparisons\": {},\n", st.subchecks));
    if !plain.is_empty() {
        s.push_str(&format!("  \"in_release_configuration\": {plain},\n"));
    }
    s.push_str(&format!("  \"rule\": {},\n", esc(p.rule)));
    s.push_str("  \"classes\": {");
    s.push_str(&st.labels.iter().map(|(l, c)| format!("{}: {}", esc(l), c)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"known_finding_hits\": {");
    s.push_str(&st.known_hits.iter().map(|(l, c)| format!("{}: {}", esc(l), c.0)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"samples\": [\n");
    s.push_str(&st.samples.values().map(|x| format!("   {}", esc(x))).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n  ]\n },\n");
    s.push_str(" \"assumptions\": [\"the reference model in harness/src/refgraph.rs and the oracles in harness/src/props are correct\", \"only the generated cases were explored\"],\n");
    s.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n"));
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", p.id)), s) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
}

// ---------------------------------------------------------------- supervisor

/// Runs a command under a deadline. None = killed by the deadline.
fn wait_deadline(cmd: &mut Command, limit: Duration) -> Option<ExitStatus> {
    let mut c = cmd.spawn().unwrap_or_else(|e| {
        eprintln!("spawn: {e}");
        exit(2)
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            return Some(st);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn crashed(st: &ExitStatus) -> bool {
    // SIGKILL is how the kernel ends a process when memory runs out: not a verdict
    matches!(st.signal(), Some(s) if s != 9 && s != 15)
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("gbcheck-{}", std::process::id()));
        fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn supervise(p: &'static Prop, tier: u8, seed: u64) -> i32 {
    let scratch = Scratch::new();
    let t0 = Instant::now();
    if std::env::var("GB_NO_PLAIN").map_or(true, |x| x != "1") {
        let exe = plain_exe();
        if !exe.is_file() {
            eprintln!("ERROR: {} is missing", exe.display());
            return 2;
        }
        let code = phase(p, true, &exe, tier, seed, &scratch, t0);
        if code != 0 {
            return code;
        }
    }
    if PLAIN_ONLY.contains(&p.id) {
        return 0;
    }
    phase(p, PLAIN, &std::env::current_exe().expect("exe"), tier, seed, &scratch, t0)
}

fn phase(p: &'static Prop, plain: bool, exe: &Path, tier: u8, seed: u64, scratch: &Scratch, t0: Instant) -> i32 {
    let limit = Duration::from_secs(if tier == 0 { 780 } else { 6 * 3600 }).saturating_sub(t0.elapsed());
    // other cases than in the debug build
    let cases = if plain && !PLAIN_ONLY.contains(&p.id) { seed.wrapping_add(1 << 32) } else { seed };
    let st = wait_deadline(
        Command::new(exe).args(["child", p.id, &tier.to_string(), &cases.to_string()]).arg(&scratch.0).env("ASAN_OPTIONS", ASAN),
        limit,
    );
    let Some(st) = st else {
        eprintln!("ERROR: time limit reached, no verdict");
        return 2;
    };
    if let Some(c) = st.code() {
        return c;
    }
    if !crashed(&st) {
        eprintln!("ERROR: child ended by {st}, no verdict");
        return 2;
    }
    // The code under test brought the process down. Re-run the cases that were in flight, each in
    // a process of its own.
    eprintln!("child ended by {st}; isolating the case");
    let mut cands: Vec<u64> = vec![];
    for w in 0..THREADS {
        if let Ok(b) = fs::read(scratch.0.join(format!("w{w}"))) {
            if b.len() == 8 {
                let i = u64::from_le_bytes(b.try_into().unwrap());
                if i > 0 {
                    cands.push(i - 1);
                }
            }
        }
    }
    cands.sort_unstable();
    let cfile = scratch.0.join("choices");
    let try_choices = |c: &[u64]| -> Option<Option<i32>> {
        // Some(None) = crashed, Some(Some(code)) = ended
        let mut s = format!("property: {}\ntier: {}\nseed: {}\nchoices:", p.id, tier, seed);
        for x in c {
            s.push_str(&format!(" {x}"));
        }
        s.push('\n');
        fs::write(&cfile, s).ok()?;
        let st = wait_deadline(
            Command::new(exe).arg("replay").arg(&cfile).env("ASAN_OPTIONS", ASAN).env("GB_HERE", "1").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()),
            Duration::from_secs(60),
        )?;
        Some(if crashed(&st) { None } else { st.code() })
    };
    for i in cands {
        // obtain the recorded choices without running the code under test to the end: the child
        // streams them
        let rec = scratch.0.join("rec");
        let _ = fs::remove_file(&rec);
        let st = wait_deadline(
            Command::new(exe)
                .env("ASAN_OPTIONS", ASAN)
                .args(["one", p.id, &tier.to_string(), &cases.to_string(), &i.to_string()])
                .arg(&rec)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null()),
            Duration::from_secs(120),
        );
        let Some(st) = st else { continue };
        if !crashed(&st) {
            continue;
        }
        let sig = st.to_string();
        let raw = fs::read(&rec).unwrap_or_default();
        let choices: Vec<u64> = raw.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
        let deadline = Instant::now() + Duration::from_secs(60);
        let mut best = choices.clone();
        if matches!(try_choices(&choices), Some(None)) {
            best = shrink(choices, 600, |c| {
                if Instant::now() > deadline {
                    return None;
                }
                matches!(try_choices(c), Some(None)).then(|| c.to_vec())
            });
        }
        let msg = format!("the process was brought down ({sig})");
        let path = write_replay(p, plain, tier, seed, i, &best, "(see choices)", &msg);
        let mut stats = Stats::default();
        stats.evaluations = i + 1;
        write_evidence(p, tier, seed, &stats, 1, t0.elapsed().as_secs_f64(), "");
        println!("case {i}: {msg}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    eprintln!("ERROR: the crash did not reproduce, no verdict");
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for p in PROPS {
                println!("{} quick={} thorough={} {}", p.id, p.quick, p.thorough, p.rule);
            }
            0
        }
        Some("run") => {
            let tier = (a[3] == "thorough") as u8;
            supervise(prop(&a[2]), tier, seed)
        }
        Some("child") => child(prop(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5])),
        Some("one") => {
            install_panic_hook();
            let (p, tier, seed, i): (_, u8, u64, u64) = (prop(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let f = fs::File::create(&a[6]).expect("rec");
            on_big_stack(move || {
                let mut g = Gen::random(case_seed(seed, p.id, i), tier);
                g.stream = Some(std::io::BufWriter::with_capacity(8, f));
                run_case(p, g);
            });
            0
        }
        Some("replay") => {
            install_panic_hook();
            let (id, tier, _seed, choices, plain) = read_choices(&a[2]);
            if plain && !PLAIN && std::env::var_os("GB_HERE").is_none() {
                let st = Command::new(plain_exe()).arg("replay").arg(&a[2]).env("ASAN_OPTIONS", ASAN).status().expect("plain build");
                if crashed(&st) {
                    println!("the process was brought down ({st})");
                    println!("VIOLATION property={id} replay={}", a[2]);
                }
                exit(st.code().unwrap_or(1));
            }
            let p = prop(&id);
            let known = known_sigs(p.id);
            let cx = on_big_stack(|| run_case(p, Gen::replay(&choices, tier)).cx);
            println!("case: {}", cx.input.trim());
            if is_violation(&cx, &known) {
                println!("failure: {}", describe(&cx, &known));
                println!("VIOLATION property={} replay={}", p.id, a[2]);
                1
            } else {
                println!("held");
                0
            }
        }
        _ => {
            eprintln!("usage: gbcheck run <ID> <quick|thorough> | replay <file> | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    exit(code)
}
