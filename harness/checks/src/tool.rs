//! Running builds and other programs with limits.
use std::io::Read;
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum Ended {
    Ok(String),
    Exit(i32),
    Signal(i32),
    Timeout,
    NotStarted(String),
}

/// Standard output of a program that ends by itself, with memory capped at 12 GB.
pub fn run(c: &mut Command, limit: Duration) -> Ended {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    // SAFETY: setrlimit is async-signal-safe
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit {
                rlim_cur: 12 << 30,
                rlim_max: 12 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return Ended::NotStarted(e.to_string()),
    };
    let mut out = child.stdout.take().expect("piped");
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = out.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 5 })),
        }
    };
    let text = String::from_utf8_lossy(&reader.join().unwrap_or_default()).into_owned();
    match status {
        None => Ended::Timeout,
        Some(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Ended::Ok(text),
            (Some(c), _) => Ended::Exit(c),
            (_, s) => Ended::Signal(s.unwrap_or(0)),
        },
    }
}

/// Held until dropped.
pub fn lock(dir: &Path) -> Option<std::fs::File> {
    std::fs::create_dir_all(dir).ok()?;
    let f = std::fs::File::create(dir.join(".lock")).ok()?;
    // SAFETY: plain system call on an open descriptor
    unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
    Some(f)
}

/// cargo build in `dir` into `target`; the library is rebuilt whenever its content (BNF_SUM, from
/// check.sh) is not what this target was built from. Err: the end of the log.
pub fn cargo_build(dir: &Path, target: &Path, release: bool, args: &[String]) -> Result<(), String> {
    let _ = std::fs::create_dir_all(target);
    let sum = std::env::var("BNF_SUM").unwrap_or_default();
    let stamp = target.join(".bnf.sum");
    if sum.is_empty() || std::fs::read_to_string(&stamp).ok().as_deref() != Some(&sum) {
        let _ = std::fs::remove_file(&stamp);
        let mut c = Command::new("cargo");
        c.current_dir(dir).args(["clean", "--offline", "-p", "bnf", "--target-dir"]).arg(target);
        if release {
            c.arg("--release");
        }
        let _ = c.stdin(Stdio::null()).output();
    }
    let o = Command::new("cargo")
        .current_dir(dir)
        .args(["build", "--offline", "--target-dir"])
        .arg(target)
        .args(args)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() {
        let _ = std::fs::write(&stamp, sum);
        return Ok(());
    }
    let log = String::from_utf8_lossy(&o.stderr).into_owned();
    let keep = log.len().saturating_sub(6000);
    let keep = (keep..log.len()).find(|i| log.is_char_boundary(*i)).unwrap_or(0);
    Err(log[keep..].to_string())
}
