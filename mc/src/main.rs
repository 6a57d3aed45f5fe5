mod common;
mod explore;
mod gen;
mod model;
mod obs;
mod props;
mod strings;
mod tok;

use explore::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    /// How cases are made and judged.
    pub rule: &'static str,
}

static SLOTS: [Slot; THREADS] = [const { Slot { since_ms: std::sync::atomic::AtomicU64::new(0), case: std::sync::Mutex::new(None) } }; THREADS];

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("VMC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(prop: &str, tier: &str, space: &str, choices: &[u16], what: &str, input: &str) -> String {
    let dir = format!("{}/replay", root());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{prop}-{tier}.txt");
    let mut f = std::fs::File::create(&path).expect("replay file");
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    // (the second build explores smaller spaces)
    let tier = if std::env::var_os("VMC_SECOND").is_some() { "second" } else { tier };
    writeln!(f, "property {prop}\ntier {tier}\nspace {space}\nchoices {}", ch.join(" ")).unwrap();
    writeln!(f, "what {}\ninput {}", what.replace('\n', " "), input.replace('\n', " ")).unwrap();
    path
}

fn read_replay(path: &str) -> (String, String, String, Vec<u16>) {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).or(if l == k { Some("") } else { None })).unwrap_or("").to_string()
    };
    let choices = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
    (get("property"), get("tier"), get("space"), choices)
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).map(|x| x.parse::<u64>().unwrap_or(0)))
        .unwrap_or(0)
        * 4
}

/// The case that has been running for at least `ms`.
fn stuck(ms: u64) -> Option<(String, Vec<u16>)> {
    let now = now_ms();
    let mut best: Option<(u64, &Slot)> = None;
    for s in SLOTS.iter() {
        let t = s.since_ms.load(std::sync::atomic::Ordering::SeqCst);
        if t != 0 && now > t + ms && best.map_or(true, |b| now - t > b.0) {
            best = Some((now - t, s));
        }
    }
    best.and_then(|b| b.1.case.lock().unwrap().clone())
}

/// Runs one case in a child; true if it hangs, runs out of memory or crashes.
fn confirm(path: &str) -> bool {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return st.code() == Some(77) || st.signal().is_some() || st.code().map_or(false, |c| c > 2);
        }
        if t0.elapsed() > Duration::from_secs(40) {
            c.kill().ok();
            c.wait().ok();
            return true;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn report_hang(prop: &str, tier: &str, space: &str, choices: &[u16], t0: Instant) -> ! {
    let what = "the implementation does not return (hang, unbounded memory or crash) on this case";
    let path = write_replay(prop, tier, space, choices, what, "see choices");
    if confirm(&path) {
        println!("{what}: space {space}, choices {choices:?}");
        println!("VIOLATION property={prop} replay={path}");
        let j = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"samples\":[{}],\"exhaustive\":false}},\"violations\":1,\"wall_s\":{:.2}}}",
            esc(prop), esc(tier), seed(), esc(&format!("{space} {choices:?}")), t0.elapsed().as_secs_f64()
        );
        write_evidence(prop, &j);
        std::process::exit(1)
    }
    eprintln!("a case seemed stuck but its replay returned; giving no verdict");
    std::process::exit(2)
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn write_evidence(prop: &str, j: &str) {
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{prop}.json"), j).expect("evidence");
}

pub fn journal_case(cx: &Ctx, sp: &Space, pre: &[u16]) {
    let i = SLOTS.iter().position(|s| std::ptr::eq(s, cx.cur.unwrap())).unwrap();
    let ch: Vec<String> = pre.iter().map(|c| c.to_string()).collect();
    std::fs::write(format!("{}/replay/journal-{i}", root()), format!("{}\n{}", sp.name, ch.join(" "))).ok();
}

fn worker(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    now_ms();
    set_hook();
    let prop = props::get(id, tier == "thorough");
    let journal = std::env::var("VMC_JOURNAL").is_ok();
    if journal {
        std::fs::create_dir_all(format!("{}/replay", root())).ok();
    }
    {
        let (id, tier) = (id.to_string(), tier.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let hit = stuck(20_000).or_else(|| if rss_kb() > 14_000_000 { stuck(700) } else { None });
            if let Some((sp, ch)) = hit {
                report_hang(&id, &tier, &sp, &ch, t0);
            }
        });
    }
    let cap = if tier == "thorough" { 3000 } else { 420 };
    let cap = std::env::var("VMC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let r = explore(&prop.spaces, t0 + Duration::from_secs(cap), &SLOTS, journal);
    // the second build explores the same spaces again
    let second = std::env::var("VMC_SECOND").is_ok();
    if !second {
        for k in &r.known {
            println!("KNOWN-FINDING: property={id} {k}");
        }
    }
    let spaces: Vec<String> = r
        .per_space
        .iter()
        .map(|(n, e, k, s)| format!("{{\"space\":{},\"executions\":{e},\"deviation_bound\":{k},\"wall_s\":{s:.2}}}", esc(n)))
        .collect();
    let samples: Vec<String> = r.samples.iter().map(|s| esc(s)).collect();
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"executions\":{},\"rejected_inputs\":{},\"skipped\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"rule\":{},\"spaces\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.2}}}",
        esc(id),
        esc(tier),
        seed(),
        r.states,
        r.choices,
        r.impl_runs,
        r.execs,
        r.rejected,
        r.skipped,
        r.outcomes,
        r.complete && r.viols.is_empty(),
        esc(prop.rule),
        spaces.join(","),
        samples.join(","),
        [
            "the proc_macro2 fallback token streams behave like the compiler's",
            "states counts distinct inputs or operation histories; transitions counts generator choices; the claim is bounded by the alphabets and deviation bounds of each listed space",
        ]
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(","),
        r.viols.len(),
        t0.elapsed().as_secs_f64()
    );
    if second && r.viols.is_empty() {
        let f = format!("{}/evidence/{id}.json", root());
        let add = format!(
            "\"coverage\":{{\"without_debug_assertions\":{{\"tier\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"exhaustive\":{},\"wall_s\":{:.2}}},",
            esc(tier),
            r.execs,
            r.states,
            r.choices,
            r.complete,
            t0.elapsed().as_secs_f64()
        );
        let e = std::fs::read_to_string(&f).expect("evidence of the first build");
        std::fs::write(&f, e.replacen("\"coverage\":{", &add, 1)).expect("evidence");
    } else {
        write_evidence(id, &j);
    }
    println!(
        "{id} {tier}{}: {} executions, {} distinct inputs, {} choices, {} implementation runs, {} distinct outcomes, {:.1}s{}",
        if second { " (no debug assertions)" } else { "" },
        r.execs,
        r.states,
        r.choices,
        r.impl_runs,
        r.outcomes,
        t0.elapsed().as_secs_f64(),
        if r.complete { "" } else { " (time cap hit: not exhaustive)" }
    );
    if std::env::var("VMC_VERBOSE").is_ok() {
        for (n, e, k, s) in &r.per_space {
            println!("  {n} k={k}: {e} executions, {s:.1}s");
        }
    }
    if let Some(v) = r.viols.first() {
        for v in r.viols.iter().take(if std::env::var("VMC_VERBOSE").is_ok() { 60 } else { 5 }) {
            println!("  [{}] {}\n    input: {}", v.space, v.what, v.input);
        }
        let path = write_replay(id, tier, &v.space, &v.choices, &v.what, &v.input);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    0
}

fn replay(path: &str) -> i32 {
    now_ms();
    let (id, tier, sp, choices) = read_replay(path);
    if tier == "second" {
        std::env::set_var("VMC_SECOND", "1");
    } else {
        std::env::remove_var("VMC_SECOND");
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(50));
        if rss_kb() > 6_000_000 || now_ms() > 35_000 {
            std::process::exit(77);
        }
    });
    set_hook();
    let prop = props::get(&id, tier == "thorough");
    let sp = prop.spaces.into_iter().find(|s| s.name == sp).expect("no such space");
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut cx = Ctx::default();
            run_one(&sp, choices, &mut cx);
            match cx.viol {
                Some((w, i)) => {
                    println!("{w}\n  input: {i}");
                    println!("VIOLATION property={id} replay=reproduced");
                    1
                }
                None => {
                    println!("no violation; inputs: {:?}", cx.samples);
                    0
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(2)
}

fn supervise(id: &str, tier: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let st = Command::new(&exe).args(["worker", id, tier]).status().unwrap();
    match st.code() {
        Some(c) if c <= 2 => return c,
        Some(101) => return 2,
        _ => {}
    }
    eprintln!("worker ended with {st}; looking for the case");
    for i in 0..THREADS {
        std::fs::remove_file(format!("{}/replay/journal-{i}", root())).ok();
    }
    let st = Command::new(&exe).args(["worker", id, tier]).env("VMC_JOURNAL", "1").status().unwrap();
    match st.code() {
        Some(c) if c <= 2 => return c,
        Some(101) => return 2,
        _ => {}
    }
    for i in 0..THREADS {
        if let Ok(s) = std::fs::read_to_string(format!("{}/replay/journal-{i}", root())) {
            let mut l = s.lines();
            let sp = l.next().unwrap_or("").to_string();
            let ch: Vec<u16> = l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
            let path = write_replay(id, tier, &sp, &ch, "crash", "see choices");
            if confirm(&path) {
                report_hang(id, tier, &sp, &ch, t0);
            }
        }
    }
    2
}

/// Explores the quick spaces again with the build that has no debug assertions.
fn second(id: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = exe.parent().unwrap();
    let other = dir.with_file_name("plain").join("vmc");
    if dir.ends_with("plain") || !other.exists() {
        return 0;
    }
    let c = Command::new(other).args(["check", id, "quick"]).env("VMC_SECOND", "1").status().unwrap().code();
    c.unwrap_or(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => match supervise(&a[2], &a[3]) {
            0 => second(&a[2]),
            c => c,
        },
        Some("worker") => worker(&a[2], &a[3]),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for i in props::IDS {
                println!("{i}");
            }
            0
        }
        _ => {
            eprintln!("usage: vmc check|replay|list");
            2
        }
    };
    std::process::exit(code)
}
