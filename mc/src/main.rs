//! mc run <ID> | mc replay <file> | mc list
mod fw;
mod geo;
mod props;
mod sched;
mod schedvec;

use fw::*;
use std::os::unix::process::ExitStatusExt;

#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

fn opts(id: &str) -> Opts {
    let root = env("MC_ROOT", "/verif");
    let tier = if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    Opts {
        tier,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        evidence: format!("{root}/evidence/{id}.json"),
        replay_dir: format!("{root}/replays"),
        known: format!("{root}/known_findings.txt"),
        slots: env("MC_SLOTS", ""),
        only: std::env::var("MC_ONLY").ok(),
        threads: env("MC_THREADS", "8").parse().unwrap_or(8),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => parent(&args[2]),
        Some("child") => {
            let p = find(&args[2]);
            run_prop(&p, &opts(p.id))
        }
        Some("one") => {
            let p = find(&args[2]);
            run_one(&p, &opts(p.id), args[3].parse().unwrap(), args[4].parse().unwrap())
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                txt.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k}=")))
                    .unwrap_or_else(|| panic!("no {k} in the replay file"))
                    .to_string()
            };
            std::env::set_var("VERIF_TIER", get("tier"));
            let p = find(&get("property"));
            let mut o = opts(p.id);
            o.slots = format!("{}/mc-slots-{}", std::env::temp_dir().display(), std::process::id());
            let c = run_one(&p, &o, get("family").parse().unwrap(), get("case").parse().unwrap());
            let _ = std::fs::remove_file(&o.slots);
            c
        }
        _ => {
            eprintln!("usage: mc run <ID> | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

/// Runs the exploration in a child, so that a crash of the code under test (stack overflow, abort)
/// is attributed to the case that caused it.
fn parent(id: &str) -> i32 {
    let p = find(id);
    let t0 = std::time::Instant::now();
    let mut o = opts(id);
    o.slots = format!("{}/mc-slots-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe)
        .args(["child", id])
        .env("MC_SLOTS", &o.slots)
        .status()
        .expect("child");
    let code = match st.code() {
        Some(c) => c,
        None => {
            let sig = st.signal().unwrap_or(0);
            let mut code = 3;
            if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT {
                for (f, c) in active_cases(&o.slots) {
                    let one = std::process::Command::new(&exe)
                        .args(["one", id, &f.to_string(), &c.to_string()])
                        .env("MC_SLOTS", format!("{}-one", o.slots))
                        .stdout(std::process::Stdio::null())
                        .status()
                        .expect("child");
                    if let Some(s1) = one.signal() {
                        if s1 != libc::SIGKILL && s1 != libc::SIGTERM {
                            report_crash(&p, &o, f, c, &format!("signal {s1}"), t0.elapsed().as_secs_f64());
                            code = 1;
                            break;
                        }
                    }
                }
                let _ = std::fs::remove_file(format!("{}-one", o.slots));
            }
            if code == 3 {
                eprintln!("the exploration was ended by signal {sig}");
            }
            code
        }
    };
    let _ = std::fs::remove_file(&o.slots);
    code
}
