use rezip_verif::engine::{Opts, Prop, Src, main_for};
use rezip_verif::watch;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};

#[global_allocator]
static ALLOC: watch::Counted = watch::Counted;

fn main() {
    let mut args = std::env::args().skip(1);
    let Some(id) = args.next() else {
        eprintln!("usage: rezip-verif <ID> [--replay FILE] [--thorough]");
        std::process::exit(2);
    };
    if id == "--job" {
        rezip_verif::props::indep::job_main();
        return;
    }
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        root: PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())),
        replay: None,
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let (mut seeds, mut raw) = (None, false);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => o.replay = args.next().map(PathBuf::from),
            "--thorough" => o.thorough = true,
            "--seeds" => seeds = args.next().map(PathBuf::from),
            "--raw" => raw = true,
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
    }
    let Some(p) = rezip_verif::props::by_id(&id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if let Some(dir) = seeds {
        write_seeds(p.as_ref(), &dir, raw, o.seed);
        return;
    }
    if watch::inflight_dir().is_some() {
        watch::start(o.root.clone(), id, o.seed, o.thorough, p.rule().into(), o.replay.clone());
        let code = main_for(p.as_ref(), &o);
        watch::ended();
        std::process::exit(code);
    }
    std::process::exit(parent(&id, &o, p.rule()));
}

fn child(dir: &Path, args: &[&str], quiet: bool) -> std::io::Result<ExitStatus> {
    let mut c = Command::new(std::env::current_exe()?);
    c.args(args).env("REZIP_VERIF_CHILD", dir);
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    c.status()
}

/// Runs the check in a child process; one that dies (stack overflow, abort) leaves behind the cases it was in.
fn parent(id: &str, o: &Opts, rule: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("rezip-verif-run-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("scratch directory: {e}");
        return 2;
    }
    let r = supervise(id, o, rule, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn supervise(id: &str, o: &Opts, rule: &str, dir: &Path) -> std::io::Result<i32> {
    let replay = o.replay.as_ref().map(|p| p.display().to_string());
    let mut args = vec![id];
    if let Some(r) = &replay {
        args.extend(["--replay", r]);
    }
    if o.thorough {
        args.push("--thorough");
    }
    let st = child(dir, &args, false)?;
    // code under test may end the process as well
    match st.code() {
        Some(c @ (0 | 1 | 2)) if dir.join("ended").exists() => return Ok(c),
        _ => {}
    }
    if let Some(r) = &replay {
        println!("failure: the process died: {st}");
        println!("VIOLATION property={id} replay={r}");
        return Ok(1);
    }
    eprintln!("the check process died ({st}); looking for the case");
    let probe = dir.join("probe.json");
    let dies = |c: &watch::Case| -> std::io::Result<bool> {
        std::fs::write(&probe, c.json(id, "").to_string())?;
        let d2 = dir.join("probe");
        std::fs::create_dir_all(&d2)?;
        let _ = std::fs::remove_file(d2.join("ended"));
        let st = child(&d2, &[id, "--replay", &probe.display().to_string()], true)?;
        Ok(!matches!(st.code(), Some(0..=2)) || !d2.join("ended").exists())
    };
    for s in 0..watch::SLOTS {
        let Ok(b) = std::fs::read(dir.join(s.to_string())) else { continue };
        let Some(mut case) = watch::Case::from_bytes(&b) else { continue };
        if !dies(&case)? {
            continue;
        }
        // shorten
        if let watch::Case::Choices(c) = &mut case {
            let mut step = c.len() / 2;
            let mut tries = 0;
            while step > 0 && tries < 200 {
                let mut at = 0;
                while at < c.len() && tries < 200 {
                    let mut t = c.clone();
                    t.drain(at..(at + step).min(t.len()));
                    tries += 1;
                    if dies(&watch::Case::Choices(t.clone()))? {
                        *c = t;
                    } else {
                        at += step;
                    }
                }
                step /= 2;
            }
        }
        let msg = format!("the process died: {st}");
        watch::write_short_evidence(&o.root, id, o.seed, o.thorough, rule, &msg);
        let path = watch::write_replay(&o.root, id, o.seed, &case.json(id, &msg));
        println!("failure: {msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        return Ok(1);
    }
    eprintln!("no case reproduces it");
    Ok(2)
}

/// Starting points for coverage-guided search.
fn write_seeds(p: &dyn Prop, dir: &Path, raw: bool, seed: u64) {
    let mut r = Src::Prng(seed);
    for i in 0..if raw { 200 } else { 64 } {
        let n = p.max_choices() / [1, 2, 4, 16][i % 4];
        let c: Vec<u32> = (0..n).map(|_| r.u32()).collect();
        let b = if raw { p.raw_seed(&mut Src::new(&c)) } else { c.iter().flat_map(|x| x.to_le_bytes()).collect() };
        std::fs::write(dir.join(format!("seed{i}")), b).expect("seed file");
    }
}
