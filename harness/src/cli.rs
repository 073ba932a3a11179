//! Running the `stuart` binary on whole projects.

use crate::engine::Ctx;
use crate::site::*;
use std::ffi::OsString;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }

    /// A clean failure: status 1 and a message.
    pub fn clean_error(&self) -> bool {
        self.code == Some(1) && self.stderr.contains("error:")
    }

    /// Neither success nor a clean failure.
    pub fn crashed(&self) -> bool {
        !self.ok() && !self.clean_error()
    }

    pub fn describe(&self) -> String {
        format!(
            "{}\n--- stdout\n{}\n--- stderr\n{}",
            match (self.code, self.signal) {
                (Some(c), _) => format!("exit status {}", c),
                (_, Some(s)) => format!("killed by signal {}", s),
                _ => "?".into(),
            },
            clip(&self.stdout, 1500),
            clip(&self.stderr, 1500)
        )
    }
}

/// Removes terminal colours.
pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

#[derive(Default, Clone)]
pub struct Env {
    pub set: Vec<(OsString, OsString)>,
    pub path: Option<String>,
    pub home: Option<std::path::PathBuf>,
    /// The address space it may use, in bytes.
    pub memory: Option<u64>,
}

impl Env {
    pub fn with(mut self, k: &str, v: &str) -> Env {
        self.set.push((k.into(), v.into()));
        self
    }
}

/// A command with a small fixed environment.
pub fn command(ctx: &Ctx, cwd: &Path, args: &[&str], env: &Env) -> Command {
    let mut c = Command::new(ctx.stuart.as_ref().expect("--stuart"));
    c.current_dir(cwd).args(args).env_clear();
    c.env("PATH", env.path.clone().unwrap_or_else(|| "/usr/local/bin:/usr/bin:/bin".into()));
    c.env("HOME", env.home.clone().unwrap_or_else(|| ctx.work.clone()));
    c.env("LANG", "C.UTF-8").env("TZ", "UTC").env("GIT_CONFIG_NOSYSTEM", "1");
    for (k, v) in &env.set {
        c.env(k, v);
    }
    if let Some(n) = env.memory {
        let limit = [n, n];
        // Only the system call is made in the new process.
        unsafe {
            c.pre_exec(move || match setrlimit(9, limit.as_ptr()) {
                0 => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            });
        }
    }
    c
}

/// Reads a pipe to its end in the background.
fn drain(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut v = vec![];
        r.read_to_end(&mut v).ok();
        v
    })
}

pub fn stuart(ctx: &Ctx, cwd: &Path, args: &[&str], env: &Env) -> Ran {
    finish(command(ctx, cwd, args, env))
}

pub fn finish(mut c: Command) -> Ran {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let mut child = c.spawn().expect("cannot start stuart");
    let out = drain(child.stdout.take().unwrap());
    let err = drain(child.stderr.take().unwrap());
    // A command takes milliseconds; one which takes a minute has no end.
    let status = wait(&mut child, Duration::from_secs(60));
    if status.is_none() {
        kill_group(&mut child);
    }
    let out = plain(&String::from_utf8_lossy(&out.join().unwrap()));
    let err = plain(&String::from_utf8_lossy(&err.join().unwrap()));
    match status {
        Some(s) => Ran { code: s.code(), signal: s.signal(), stdout: out, stderr: err },
        None => Ran { code: None, signal: Some(9), stdout: out, stderr: format!("{}\n(stopped: it did not finish in 60 s)", err) },
    }
}

pub fn wait(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    let mut pause = 300u64;
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            return None;
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause + pause / 4).min(5000);
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(resource: i32, limit: *const u64) -> i32;
}

/// Ends a child which was started in a process group of its own, with its descendants.
pub fn kill_group(child: &mut Child) {
    unsafe {
        kill(-(child.id() as i32), 9);
    }
    child.wait().ok();
}

/// A minimal manifest.
pub fn manifest(name: &str, extra: &str) -> Vec<u8> {
    format!("[site]\nname = \"{}\"\nauthor = \"an author\"\n\n[settings]\n{}", name, extra).into_bytes()
}

/// The files of a site as the content of a project.
pub fn project(content: &Files, settings: &str) -> Files {
    let mut p = Files::new();
    p.insert("stuart.toml".into(), manifest("site", settings));
    for (k, v) in content {
        p.insert(format!("content/{}", k), v.clone());
    }
    p
}
