//! The frame of every monitor program: arguments, the case loop, the watchdog and the report.

use crate::engine::{Stats, Viol, V};
use crate::rng::mix;
use crate::tree::{self, CURRENT, SEQ};
use std::fmt::Write as _;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub thorough: bool,
    /// Stop starting new cases after so many seconds.
    pub seconds: f64,
    /// At most so many cases in this shard.
    pub cases: u64,
    pub out: String,
    /// Run only this case.
    pub case: Option<u64>,
    pub extra: Vec<String>,
}

pub fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: 1,
        shard: 0,
        shards: 1,
        thorough: false,
        seconds: 1e9,
        cases: u64::MAX,
        out: String::new(),
        case: None,
        extra: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("argument needs a value");
        match x.as_str() {
            "--seed" => a.seed = val().parse().unwrap(),
            "--shard" => {
                let v = val();
                let (i, n) = v.split_once('/').unwrap();
                a.shard = i.parse().unwrap();
                a.shards = n.parse().unwrap();
            }
            "--tier" => a.thorough = val() == "thorough",
            "--seconds" => a.seconds = val().parse().unwrap(),
            "--cases" => a.cases = val().parse().unwrap(),
            "--out" => a.out = val(),
            "--state" => tree::set_state_file(&val()),
            "--case" => a.case = Some(val().parse().unwrap()),
            _ if a.prop.is_empty() => a.prop = x,
            _ => a.extra.push(x),
        }
    }
    a
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// CPU seconds used by this process.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (get(11) + get(12)) / 100.0
}

/// Ends the process with a verdict when one call into the library uses too much CPU time.
fn watchdog(limit: f64, prop: String, out: String) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = cpu();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = SEQ.load(Ordering::SeqCst);
            if now != last || now % 2 == 0 {
                last = now;
                since = cpu();
            } else if cpu() - since > limit {
                let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                let text = format!("one call into the library used more than {limit} CPU seconds and has not returned; {cur}");
                emit(&out, &prop, &Stats::default(), Some((&cur, &text)));
                std::process::exit(1);
            }
        }
    });
}

pub fn emit(out: &str, prop: &str, st: &Stats, viol: Option<(&str, &str)>) {
    let mut o = String::from("{");
    let _ = write!(o, "\"property\":{}", json_str(prop));
    let _ = write!(o, ",\"evaluations\":{}", st.evaluations);
    let _ = write!(o, ",\"lib_calls\":{}", tree::lib_calls());
    let list = |s: &std::collections::HashSet<u64>| {
        let mut v: Vec<u64> = s.iter().copied().collect();
        v.sort_unstable();
        v.truncate(400_000);
        v.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(",")
    };
    let _ = write!(o, ",\"cases\":[{}],\"shapes\":[{}]", list(&st.cases), list(&st.shapes));
    let _ = write!(
        o,
        ",\"counts\":{{{}}}",
        st.n.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        ",\"samples\":[{}]",
        st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        ",\"transcripts\":[{}]",
        st.transcripts.iter().map(|(c, d)| format!("[{c},\"{d:x}\"]")).collect::<Vec<_>>().join(",")
    );
    if let Some((case, text)) = viol {
        let _ = write!(o, ",\"violation\":{{\"case\":{},\"text\":{}}}", json_str(case), json_str(text));
    }
    o.push_str("}\n");
    if out.is_empty() {
        if let Some((case, text)) = viol {
            println!("VIOLATION in {case}\n{text}");
        }
        println!("{} evaluations, {} distinct non-trivial, {} shapes, {} library calls", st.evaluations, st.cases.len(), st.shapes.len(), tree::lib_calls());
        for (k, v) in &st.n {
            println!("  {k}: {v}");
        }
    } else {
        std::fs::write(out, o).expect("write report");
    }
}

/// Runs cases until the time or the number is used up.  Returns the exit status.
pub fn run(a: &Args, one: impl Fn(u64, bool, &mut Stats) -> V<()> + Send + 'static) -> i32 {
    let a = a.clone();
    tree::install_hook();
    watchdog(100.0, a.prop.clone(), a.out.clone());
    // A stack of the usual size for a main thread
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let start = Instant::now();
            let mut st = Stats::default();
            let mut i = 0_u64;
            loop {
                if a.case.is_some() && i > 0 {
                    break;
                }
                if a.case.is_none() && (i >= a.cases || start.elapsed().as_secs_f64() > a.seconds) {
                    break;
                }
                let prop_id = a.prop.bytes().fold(0_u64, |h, b| h * 131 + u64::from(b));
                let case = a.case.unwrap_or_else(|| mix(&[a.seed, prop_id, i * a.shards + a.shard]) & 0xffff_ffff_ffff);
                let name = format!("--case {case}");
                tree::set_current(&name);
                if let Err(Viol(text)) = one(case, a.thorough, &mut st) {
                    emit(&a.out, &a.prop, &st, Some((&name, &text)));
                    return 1;
                }
                i += 1;
            }
            emit(&a.out, &a.prop, &st, None);
            0
        })
        .expect("thread");
    match t.join() {
        Ok(c) => c,
        Err(_) => 3,
    }
}
