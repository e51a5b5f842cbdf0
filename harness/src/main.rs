//! vh: seeded, bounded runs of the real banyan code; used to look for a concrete failing input when
//! a proof obligation fails, to replay it, and as labelled bounded stand-in.
//!
//! vh run PROP --seed N --seconds S --cases MAX --out FILE     search; exit 1 and FILE on a failure
//! vh replay FILE                                              run the recorded case again
mod base;
mod other_props;
mod tree_props;
use std::{
    collections::BTreeMap,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};
use tree_props::Stat;

type Case = fn(u64, u64, &mut Vec<String>) -> anyhow::Result<Stat>;
/// (property, name of the case family, weight, function)
fn families() -> Vec<(&'static str, &'static str, Case)> {
    vec![
        ("C01", "content", tree_props::c01),
        ("C01", "large", tree_props::c01_large),
        ("C01", "large_keys", other_props::c01_keys),
        ("C02", "access", tree_props::c02),
        ("C03", "filter", tree_props::c03),
        ("C04", "query", other_props::c04),
        ("C05", "structure", tree_props::c05),
        ("C06", "retain", tree_props::c06),
        ("C07", "repair", tree_props::c07),
        ("C08", "keystream", tree_props::c08),
        ("C09", "codec", other_props::c09),
        ("C10", "stores", other_props::c10_stores),
        ("C10", "branch_cache", tree_props::c10_branch),
        ("C11", "tags", other_props::c11),
        ("C12", "tag_query", other_props::c12),
        ("C12", "tag_query_untagged", |a, b, c| other_props::c12_with(a, b, c, true)),
        ("C13", "rollback", tree_props::c13),
        ("C14", "roots", tree_props::c14),
        ("C15", "faults", tree_props::c15),
        ("C15", "malformed", |a, _, c| tree_props::c15_crafted(a, c)),
        ("C16", "persistence", tree_props::c16),
        ("C17", "streams", tree_props::c17),
    ]
}
fn run_case(f: Case, seed: u64, size: u64) -> (Result<Stat, String>, Vec<String>) {
    let mut h = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| f(seed, size, &mut h)));
    let r = match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("{:#}", e)),
        Err(p) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
        )),
    };
    (r, h)
}
type Current = Arc<Mutex<Option<(String, u64, u64, Instant)>>>;
fn replay_text(p: &str, name: &str, s: u64, size: u64, e: &str, h: &[String]) -> String {
    format!(
        "property={}\nfamily={}\nseed={}\nsize={}\nreplay: python3 /verif/check.py --replay <this file>\nwhat failed: {}\nhistory:\n{}\n",
        p,
        name,
        s,
        size,
        e,
        h.iter().map(|x| format!("  {}", x)).collect::<Vec<_>>().join("\n")
    )
}
/// ends the process when one case runs for too long: an operation that does not terminate
fn watchdog(prop: String, cur: Current, out: Option<String>, limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((name, s, size, at)) = cur.lock().unwrap().clone() {
            if at.elapsed().as_secs() >= limit {
                let text = replay_text(&prop, &name, s, size, &format!("does not end within {} s", limit), &[]);
                if let Some(o) = &out {
                    let _ = std::fs::write(o, &text);
                }
                println!("{}", text);
                std::process::exit(1);
            }
        }
    });
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|x| x == n).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|x| x.as_str()) {
        Some("run") => {
            let prop = args[2].clone();
            let seed: u64 = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let secs: f64 = opt("--seconds").and_then(|x| x.parse().ok()).unwrap_or(10.0);
            let max: u64 = opt("--cases").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
            let only = opt("--family");
            let skip = opt("--skip");
            let fams: Vec<_> = families()
                .into_iter()
                .filter(|f| f.0 == prop && only.as_ref().map(|o| o == f.1).unwrap_or(true) && skip.as_ref().map(|o| o != f.1).unwrap_or(true))
                .collect();
            let cur: Current = Default::default();
            watchdog(prop.clone(), cur.clone(), opt("--out"), 100);
            let mut progress = opt("--progress").map(|f| std::fs::File::create(f).unwrap());
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let (mut cases, mut evals, mut nontrivial) = (0u64, 0u64, 0u64);
            let mut sample = BTreeMap::new();
            'l: for i in 0.. {
                for (p, name, f) in &fams {
                    if cases >= max || Instant::now() >= end {
                        break 'l;
                    }
                    let size = 1 + (i % 24);
                    let s = seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(i);
                    *cur.lock().unwrap() = Some((name.to_string(), s, size, Instant::now()));
                    if let Some(f) = &mut progress {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(format!("{:<200}", format!("{} {} {}", name, s, size)).as_bytes(), 0);
                    }
                    let (r, h) = run_case(*f, s, size);
                    cases += 1;
                    match r {
                        Ok(st) => {
                            evals += st.evals;
                            nontrivial += st.nontrivial as u64;
                            if st.nontrivial {
                                sample.insert(*name, st.sample.chars().take(600).collect::<String>());
                            }
                        }
                        Err(e) => {
                            let text = replay_text(p, name, s, size, &e, &h);
                            if let Some(o) = opt("--out") {
                                std::fs::File::create(&o).unwrap().write_all(text.as_bytes()).unwrap();
                            }
                            println!("{}", text);
                            std::process::exit(1);
                        }
                    }
                }
            }
            let samples: Vec<String> = sample.iter().map(|(k, v)| format!("\"{}: {}\"", k, esc(v))).collect();
            println!(
                "{{\"cases\":{},\"evaluations\":{},\"nontrivial\":{},\"families\":[{}],\"samples\":[{}]}}",
                cases,
                evals,
                nontrivial,
                fams.iter().map(|f| format!("\"{}\"", f.1)).collect::<Vec<_>>().join(","),
                samples.join(",")
            );
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|x| x.to_string()));
            let fam = get("family=").expect("not a replay file of vh");
            let seed: u64 = get("seed=").unwrap().parse().unwrap();
            let size: u64 = get("size=").unwrap().parse().unwrap();
            let cur: Current = Arc::new(Mutex::new(Some((fam.clone(), seed, size, Instant::now()))));
            watchdog(get("property=").unwrap_or_default(), cur, None, 100);
            let f = families().into_iter().find(|f| f.1 == fam).expect("unknown family").2;
            let (r, h) = run_case(f, seed, size);
            for x in &h {
                println!("  {}", x);
            }
            match r {
                Ok(_) => println!("passes"),
                Err(e) => {
                    println!("what failed: {}", e);
                    std::process::exit(1)
                }
            }
        }
        // events missed in the known finding of C12
        Some("known") => println!("{:?}", other_props::c12_known()),
        _ => {
            eprintln!("usage: vh run PROP ... | vh replay FILE");
            std::process::exit(2)
        }
    }
}
