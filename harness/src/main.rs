//! `vh check ID quick|thorough` runs a check, `vh replay ID FILE` one input.
//!
//! The checks run in a child process. When it is stopped by its watchdog or
//! crashes, the cases it was at are run again, each alone in a fresh process,
//! and only a case that does it again is reported.

use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{exit, Command};
use std::time::Instant;
use vh::engine::{install_panic_hook, Entry, Opts, Outcome, Tier, STOPPED};

#[global_allocator]
static GLOBAL: vh::alloc::Counting = vh::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let entries = vh::props::all();
    let usage = || -> ! {
        eprintln!("usage: vh check ID quick|thorough | vh replay ID FILE | vh list");
        exit(2)
    };
    if args.first().map(|s| s.as_str()) == Some("list") {
        for e in &entries {
            println!("{}", e.id);
        }
        return;
    }
    if args.first().map(|s| s.as_str()) == Some("literals") {
        print!("{}", vh::dict::literals());
        return;
    }
    if args.len() < 3 {
        usage();
    }
    let Some(e) = entries.iter().find(|e| e.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        exit(2)
    };
    let verif = PathBuf::from(std::env::var("VERIF").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.trim().parse::<f64>().ok()).unwrap_or(1.0);
    let state = std::env::var("VH_STATE").ok().map(PathBuf::from);
    let tier = match args[2].as_str() {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let o = Opts { seed, tier, verif, state, scale };
    match args[0].as_str() {
        "check" => exit(supervise(e, &o, &args)),
        "guide" => exit(supervise(e, &o, &args)),
        "guided" => {
            install_panic_hook();
            exit(code((e.guided)(&o)))
        }
        "isolate-choices" => {
            install_panic_hook();
            let phase = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            let text = args.get(4).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
            let choices: Vec<u64> = text.split(' ').filter_map(|c| c.trim().parse().ok()).collect();
            exit(code((e.isolate_choices)(&o, phase, &choices)))
        }
        "aged" => {
            install_panic_hook();
            exit(vh::props::aged())
        }
        "work" => {
            install_panic_hook();
            exit(code((e.run)(&o)))
        }
        "isolate" => {
            install_panic_hook();
            let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            exit(code((e.isolate)(&o, n(3) as usize, n(4), n(5))))
        }
        "replay" => {
            install_panic_hook();
            match (e.replay)(&o, &PathBuf::from(&args[2])) {
                Some(true) => println!("{}: the property held on {}", e.id, args[2]),
                Some(false) => {
                    println!("VIOLATION property={} replay={}", e.id, args[2]);
                    exit(1)
                }
                None => {
                    eprintln!("cannot use {}", args[2]);
                    exit(2)
                }
            }
        }
        _ => usage(),
    }
}

fn code(o: Outcome) -> i32 {
    match o {
        Outcome::Held => 0,
        Outcome::Violated => 1,
        Outcome::HarnessError => 2,
    }
}

fn spawn(o: &Opts, args: &[String], state: &PathBuf) -> std::io::Result<std::process::ExitStatus> {
    let _ = std::fs::remove_file(state);
    Command::new(std::env::current_exe()?).args(args).env("VERIF_SEED", o.seed.to_string()).env("VH_STATE", state).status()
}

/// What became of a stopped worker: the reason and the cases it was at.
fn stopped_at(state: &PathBuf) -> (String, Vec<(u64, u64, Vec<u64>)>) {
    let text = std::fs::read_to_string(state).unwrap_or_default();
    let mut lines = text.lines();
    let why = lines.next().unwrap_or("").to_string();
    let at = lines
        .filter_map(|l| {
            let mut p = l.split(' ');
            Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.filter_map(|c| c.parse().ok()).collect()))
        })
        .collect();
    (why, at)
}

fn supervise(e: &Entry, o: &Opts, args: &[String]) -> i32 {
    let start = Instant::now();
    let state = std::env::temp_dir().join(format!("vh-{}-{}", e.id, std::process::id()));
    let mut work = args.to_vec();
    work[0] = if args[0] == "guide" { "guided" } else { "work" }.into();
    let mut result = 2;
    for attempt in 0..2 {
        let st = match spawn(o, &work, &state) {
            Ok(st) => st,
            Err(err) => {
                eprintln!("cannot start the worker: {}", err);
                break;
            }
        };
        match st.code() {
            Some(STOPPED) => {
                let (why, at) = stopped_at(&state);
                eprintln!("{}: worker stopped ({}) at {:?}", e.id, why, at.iter().map(|a| (a.0, a.1)).collect::<Vec<_>>());
                if let Some((phase, idx, choices, what)) = confirm(o, args, &state, &at) {
                    (e.runaway)(o, phase as usize, idx, &choices, &what, start.elapsed().as_secs_f64());
                    result = 1;
                    break;
                }
            }
            Some(c) => {
                result = c;
                break;
            }
            None => eprintln!("{}: worker ended by signal {:?}, attempt {}", e.id, st.signal(), attempt),
        }
    }
    let _ = std::fs::remove_file(&state);
    result
}

/// Runs each suspect case alone; returns the first that fails to return again.
fn confirm(o: &Opts, args: &[String], state: &PathBuf, at: &[(u64, u64, Vec<u64>)]) -> Option<(u64, u64, Vec<u64>, String)> {
    let mut at = at.to_vec();
    at.sort();
    let list = state.with_extension("choices");
    let mut result = None;
    for (phase, idx, choices) in at {
        let mut a = vec!["isolate".to_string(), args[1].clone(), args[2].clone(), phase.to_string(), idx.to_string(), idx.wrapping_add(1).to_string()];
        if idx == u64::MAX {
            let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
            if std::fs::write(&list, text.join(" ")).is_err() {
                continue;
            }
            a[0] = "isolate-choices".into();
            a[4] = list.to_string_lossy().into_owned();
        }
        let Ok(st) = spawn(o, &a, state) else { continue };
        if st.code() == Some(STOPPED) {
            let (why, _) = stopped_at(state);
            let what = match why.as_str() {
                "time" => format!("a call does not return (stopped after {} s of CPU time, alone in its process)", vh::engine::CASE_CPU),
                "memory" => format!("a call keeps allocating (stopped at {} MiB)", vh::alloc::CAP >> 20),
                _ => "a call aborts the process".to_string(),
            };
            result = Some((phase, idx, choices, what));
            break;
        } else if st.code() == Some(1) {
            result = Some((phase, idx, choices, "fails when run alone".into()));
            break;
        }
    }
    let _ = std::fs::remove_file(&list);
    result
}
