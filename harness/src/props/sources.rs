//! C24: each plugin comes from the first of its sources which works.

use crate::cli::{self, Env};
use crate::engine::*;
use crate::gen;
use crate::netns;
use crate::site::*;
use serde_json::json;
use std::collections::HashMap;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- a web server

#[derive(Default)]
struct Web {
    there: bool,
    files: Mutex<HashMap<String, (u16, Vec<u8>)>>,
    log: Mutex<Vec<String>>,
}

fn answer(w: &Web, s: TcpStream) {
    s.set_read_timeout(Some(Duration::from_secs(10))).ok();
    let mut r = BufReader::new(s.try_clone().unwrap());
    let mut line = String::new();
    if r.read_line(&mut line).is_err() {
        return;
    }
    let path = line.split(' ').nth(1).unwrap_or("").to_string();
    loop {
        let mut h = String::new();
        match r.read_line(&mut h) {
            Ok(n) if n > 0 && !h.trim().is_empty() => (),
            _ => break,
        }
    }
    w.log.lock().unwrap().push(path.clone());
    let (status, body) = w.files.lock().unwrap().get(&path).cloned().unwrap_or((404, b"Not Found".to_vec()));
    let mut s = s;
    let head = match status {
        // The body is the place.
        301 | 302 => format!("HTTP/1.1 {} Moved\r\nLocation: {}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", status, text(&body)),
        _ => format!("HTTP/1.1 {} Status\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, body.len()),
    };
    s.write_all(head.as_bytes()).ok();
    if status < 300 || status >= 400 {
        s.write_all(&body).ok();
    }
    s.shutdown(std::net::Shutdown::Write).ok();
    let mut rest = vec![];
    s.read_to_end(&mut rest).ok();
}

fn web() -> &'static Arc<Web> {
    static WEB: OnceLock<Arc<Web>> = OnceLock::new();
    WEB.get_or_init(|| {
        let mut w = Web::default();
        let l = netns::http();
        w.there = l.is_some();
        let w = Arc::new(w);
        if let Some(l) = l {
            let w = w.clone();
            std::thread::spawn(move || {
                for s in l.incoming().flatten() {
                    let w = w.clone();
                    std::thread::spawn(move || answer(&w, s));
                }
            });
        }
        w
    })
}

// ---------------------------------------------------------------- sources

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Lib,
    Js,
    Cargo,
    Git,
    Http,
    Dll,
    Junk,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Missing,
    Garbage,
    /// A directory instead of a file.
    Dir,
    /// A library without a plugin.
    NoInit,
    Cut,
    Syntax,
    NoDefault,
    Throws,
    BadFn,
    BuildFails,
    NoLib,
    /// A Cargo workspace without a package.
    NoPackage,
    NoProject,
    Refused,
    /// A response which says that it failed, with what looks like a plugin.
    Status,
}
use Fault::*;

const WORKSPACE: &str = "[workspace]\nmembers = [\"*\", \"crates/*\", \"z/y/*\"]\n";

#[derive(Clone, Debug)]
struct Source {
    kind: Kind,
    fault: Option<Fault>,
    /// Who it says it is.
    id: String,
    plugin: String,
    /// Where it is: a path below the project, below another directory, or in the network.
    path: String,
    abs: bool,
    /// For projects within a repository.
    nested: String,
    package: String,
    mjs: bool,
    redirect: bool,
    slash: bool,
    /// For repositories: whether the history is rewritten, and whether it holds the file which Cargo writes.
    amend: bool,
    lock: bool,
    /// For repositories: other projects in it, of similar names.
    decoys: Vec<(String, String)>,
    /// For projects: whether they are members of a workspace, and their library's own name.
    workspace: bool,
    lib_name: Option<String>,
}

impl Source {
    fn works(&self) -> bool {
        self.fault.is_none() && !matches!(self.kind, Kind::Dll | Kind::Junk)
    }

    fn text(&self, w: &World) -> String {
        let p = match self.kind {
            Kind::Git if self.abs && !self.slash => return format!("../remote/{}", self.path),
            Kind::Git => return format!("{}{}", if self.slash { "file://" } else { "" }, w.remote.join(&self.path).display()),
            Kind::Http if self.fault == Some(Refused) => return format!("http://127.0.0.2/{}", self.path),
            Kind::Http => return format!("http://127.0.0.1/{}", self.path),
            Kind::Junk => return self.path.clone(),
            _ => self.path.clone(),
        };
        let p = if self.abs { w.project.join(p).display().to_string() } else { p };
        if self.slash && self.kind == Kind::Cargo { format!("{}/", p) } else { p }
    }

    fn lib(&self, w: &World) -> Vec<u8> {
        match self.fault {
            Some(Garbage) => b"\x7fELF nothing".to_vec(),
            // Cut in its head: the rest would be mapped.
            Some(Cut) => w.so[..w.so.len().min(60)].to_vec(),
            Some(NoInit) => w.other.clone(),
            _ => {
                let mut b = w.so.clone();
                b.extend_from_slice(self.trailer().as_bytes());
                b
            }
        }
    }

    fn trailer(&self) -> String {
        format!("\nVHPLUGIN:{}:{}\n", self.plugin, self.id)
    }

    fn js(&self) -> Vec<u8> {
        let f = if self.fault == Some(BadFn) { "\"not a function\"".to_string() } else { format!("() => \"{}\"", self.id) };
        let m = format!("{{ name: \"{}\", version: \"1.0.0\", functions: [{{ name: \"which\", fn: {} }}] }}", self.plugin, f);
        match self.fault {
            Some(Syntax) => format!("export default {} }}", m),
            Some(NoDefault) => format!("export const plugin = {};", m),
            Some(Throws) => format!("throw new Error(\"no\");\nexport default {};", m),
            Some(Garbage) => "\u{0}\u{1}<html>".into(),
            _ => format!("export default {};\n", m),
        }
        .into_bytes()
    }

    fn project(&self, at: &Path) {
        fs::create_dir_all(at.join("src")).unwrap();
        fs::write(at.join("src/lib.rs"), "// built by something else\n").unwrap();
        fs::write(at.join("trailer"), self.trailer()).unwrap();
        let m = match self.fault {
            Some(NoPackage) => "[workspace]\nmembers = []\n".to_string(),
            _ => {
                let lib = match &self.lib_name {
                    Some(n) => format!("\n[lib]\ncrate-type = [\"cdylib\"]\nname = \"{}\"\n", n),
                    None => String::new(),
                };
                format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\n{}", self.package, lib)
            }
        };
        fs::write(at.join("Cargo.toml"), m).unwrap();
        if self.lock {
            fs::write(at.join("Cargo.lock"), format!("# {}\n", self.id)).unwrap();
        } else {
            fs::remove_file(at.join("Cargo.lock")).ok();
        }
        for (f, n) in [(BuildFails, ".fail"), (NoLib, ".nolib")] {
            if self.fault == Some(f) {
                fs::write(at.join(n), "").unwrap();
            } else {
                fs::remove_file(at.join(n)).ok();
            }
        }
    }

    /// Makes what is there what it should be.
    fn put(&self, w: &World) {
        let at = w.project.join(&self.path);
        match self.kind {
            Kind::Lib | Kind::Js | Kind::Dll => {
                clear(&at);
                fs::create_dir_all(at.parent().unwrap()).unwrap();
                match self.fault {
                    Some(Missing) => (),
                    Some(Dir) => fs::create_dir_all(&at).unwrap(),
                    _ => fs::write(&at, if self.kind == Kind::Js { self.js() } else { self.lib(w) }).unwrap(),
                }
            }
            Kind::Cargo => {
                if self.fault == Some(Missing) {
                    clear(&at.join("Cargo.toml"));
                } else {
                    self.project(&at);
                    if self.workspace {
                        fs::write(at.parent().unwrap().join("Cargo.toml"), WORKSPACE).unwrap();
                    }
                }
            }
            Kind::Git => {
                let at = w.remote.join(&self.path);
                let away = w.remote.join(format!("{}.away", self.path));
                if away.exists() {
                    fs::rename(&away, &at).unwrap();
                }
                let amend = self.amend && at.exists();
                if !at.exists() {
                    fs::create_dir_all(&at).unwrap();
                    git(&at, &["init", "-q", "-b", "main"]);
                    fs::write(at.join("README.md"), "a plugin").unwrap();
                    // Another project is no concern of ours.
                    fs::create_dir_all(at.join("a decoy/src")).unwrap();
                    fs::write(at.join("a decoy/Cargo.toml"), "[package]\nname = \"decoy\"\nversion = \"0.1.0\"\n").unwrap();
                    fs::write(at.join("a decoy/trailer"), "\nVHPLUGIN:decoy:decoy\n").unwrap();
                    fs::create_dir_all(at.join("broken")).unwrap();
                    fs::write(at.join("broken/Cargo.toml"), "[package").unwrap();
                }
                for (d, n) in &self.decoys {
                    let d = at.join(d);
                    fs::create_dir_all(d.join("src")).unwrap();
                    fs::write(d.join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\n", n)).unwrap();
                    fs::write(d.join("trailer"), format!("\nVHPLUGIN:{}:decoy\n", self.plugin)).unwrap();
                }
                let inner = at.join(&self.nested);
                self.project(&inner);
                if self.workspace {
                    fs::write(at.join("Cargo.toml"), WORKSPACE).unwrap();
                }
                if self.fault == Some(NoProject) {
                    fs::write(inner.join("Cargo.toml"), "[package]\nname = \"something-else\"\nversion = \"0.1.0\"\n").unwrap();
                }
                git(&at, &["add", "-A"]);
                let c = ["-c", "user.name=a", "-c", "user.email=b", "commit", "-q", "-m", "change", "--allow-empty", "--amend"];
                git(&at, &c[..c.len() - !amend as usize]);
                if self.fault == Some(Missing) {
                    fs::rename(&at, &away).unwrap();
                }
            }
            Kind::Http => {
                let mut f = web().files.lock().unwrap();
                let path = format!("/{}", self.path);
                let body = if self.path.ends_with(".so") { self.lib(w) } else { self.js() };
                match self.fault {
                    Some(Missing | Refused) => {
                        f.remove(&path);
                    }
                    Some(Status) => {
                        let status = [404, 403, 410, 500, 503][self.id.len() % 5];
                        f.insert(path, (status, body));
                    }
                    _ if self.redirect => {
                        let to = format!("/moved/{}", self.id);
                        f.insert(path, (302, format!("http://127.0.0.1{}", to).into_bytes()));
                        f.insert(to, (200, body));
                    }
                    _ => {
                        f.insert(path, (200, body));
                    }
                }
            }
            Kind::Junk => (),
        }
    }
}

fn clear(p: &Path) {
    if p.is_dir() {
        fs::remove_dir_all(p).unwrap();
    } else {
        fs::remove_file(p).ok();
    }
}

fn git(dir: &Path, args: &[&str]) {
    let r = Command::new("/usr/bin/git")
        .current_dir(dir)
        .args(args)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", dir)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .output()
        .expect("git");
    assert!(r.status.success(), "git {:?}: {}", args, String::from_utf8_lossy(&r.stderr));
}

struct World {
    project: PathBuf,
    remote: PathBuf,
    so: Vec<u8>,
    other: Vec<u8>,
}

const JUNK: &[&str] = &[
    "", " ", "nothing/here", "http://127.0.0.1:1/x.so", "https://127.0.0.1:1/x.js", "https://127.0.0.1:1/x", "::", "http://", "http:///x.so", "http://127.0.0.1:99999/x.so", "https://",
    "file:///nothing/here", "/nothing/here.so", "ftp://127.0.0.1/x", "../outside/none.so", "http://[::1]:1/x.js", "git@127.0.0.1:x/y.git", "x.dll", "ü", "http", "http:/127.0.0.1", "127.0.0.1:1",
    "plugins/*.so", "-h", "--help",
];

fn source(src: &mut Src, dep: usize, i: usize, name: &str, plugin: &str) -> Source {
    let id = format!("id{}x{}y{}", dep, i, gen::word(src));
    let kind = [Kind::Lib, Kind::Js, Kind::Cargo, Kind::Git, Kind::Http, Kind::Dll, Kind::Junk][src.weighted(&[24, 24, 20, 14, 14, 4, 8])];
    let mut s = Source {
        kind,
        fault: None,
        id,
        plugin: plugin.into(),
        path: String::new(),
        abs: src.chance(1, 4),
        nested: String::new(),
        package: name.into(),
        mjs: src.coin(),
        redirect: false,
        slash: src.coin(),
        amend: false,
        lock: src.chance(1, 4),
        decoys: vec![],
        workspace: src.chance(1, 4),
        lib_name: None,
    };
    if src.chance(1, 4) {
        s.lib_name = Some(src.pick(&["own_name", "libx", "plugin"]).to_string());
    }
    let d = *src.pick(&["plugins", "my plugins/ü", ".", "lib.js", "a/../plugins2", "content.so", "..", "target", "a,b", "a, b", "x#y", "50%20", "it's", "$HOME", "a|b", "~", "*"]);
    let stem = format!("s{}_{}", dep, i);
    s.path = match kind {
        Kind::Lib => format!("{}/{}{}", d, stem, src.pick(&[".so", ".so", ".so", "", ".plugin", ".so.1", ".json"])),
        Kind::Js => format!("{}/{}{}", d, stem, if s.mjs { ".mjs" } else { ".js" }),
        Kind::Cargo => {
            s.package = src.pick(&["vhplugin", "my-plugin", "a-b-c", "under_score", name]).to_string();
            let inner = if s.workspace { format!("{} ws/", stem) } else { String::new() };
            format!("{}/{}{}{}", d, inner, stem, src.pick(&["", ".so", ".js", " dir"]))
        }
        Kind::Git => {
            s.nested = src.pick(&[".", ".", "sub", "crates/plugin", "z/y/x"]).to_string();
            // A directory with a Cargo.toml is no repository.
            s.slash |= s.nested == ".";
            for k in 0..src.usize(0, 3) {
                let n = match src.below(7) {
                    0 => format!("{}-extra", name),
                    1 => format!("stuart-{}", name),
                    2 => name.to_uppercase(),
                    3 => name.chars().take(name.chars().count() - 1).collect(),
                    4 => format!("{}x", name),
                    5 => name.replace(['-', '_'], ""),
                    _ => stem.clone(),
                };
                if n != name {
                    s.decoys.push((format!("{}{}", src.pick(&["0", "aa/", "zz", "sub/x", "crates/", "z/", "z/y"]), k), n));
                }
            }
            if i == 0 && src.coin() {
                // Shared by several plugins, or of the same name as another.
                s.nested = format!("part {}", stem);
                s.slash |= s.workspace || src.coin();
                src.pick(&["mono/repo", "mono/repo", "other/repo"]).to_string()
            } else {
                s.workspace &= s.nested != ".";
                s.slash |= s.workspace;
                format!("repo {}", stem)
            }
        }
        Kind::Http => {
            s.redirect = src.chance(1, 6);
            format!("{}{}{}", src.pick(&["", "dl/", "a/b/"]), stem, if src.coin() { ".so" } else if s.mjs { ".mjs" } else { ".js" })
        }
        Kind::Dll => format!("{}/{}.dll", d, stem),
        Kind::Junk => src.pick(JUNK).to_string(),
    };
    s
}

fn fault(src: &mut Src, s: &Source) -> Option<Fault> {
    let so = s.path.ends_with(".so");
    Some(match s.kind {
        Kind::Lib => *src.pick(&[Missing, Missing, Garbage, Dir, NoInit, Cut]),
        Kind::Js => *src.pick(&[Missing, Missing, Syntax, NoDefault, Throws, BadFn, Dir, Garbage]),
        Kind::Cargo => *src.pick(&[Missing, BuildFails, NoLib, NoPackage]),
        Kind::Git if s.path.contains('/') => *src.pick(&[NoProject, BuildFails]),
        Kind::Git => *src.pick(&[Missing, NoProject, BuildFails]),
        Kind::Http if so => *src.pick(&[Missing, Garbage, Cut, Refused]),
        Kind::Http => *src.pick(&[Missing, Syntax, NoDefault, Refused, Status, Status]),
        Kind::Dll | Kind::Junk => return None,
    })
}

pub fn c24(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh().canonicalize().unwrap();
    let aux = ctx.aux.clone().expect("--aux");
    let w = World {
        project: base.join("project"),
        remote: base.join("remote"),
        so: fs::read(aux.join("libvhplugin.so")).unwrap(),
        other: fs::read("/lib/x86_64-linux-gnu/libm.so.6").unwrap_or_else(|_| b"\x7fELF".to_vec()),
    };
    for d in ["project/content", "remote", "elsewhere", "bin", "home"] {
        fs::create_dir_all(base.join(d)).unwrap();
    }
    {
        let mut f = web().files.lock().unwrap();
        f.clear();
        web().log.lock().unwrap().clear();
    }
    let log = base.join("cargo.log");
    let stub = format!(
        "#!/bin/sh\nPATH=/usr/bin:/bin\nm=$PWD/Cargo.toml\np=debug\nwhile [ $# -gt 0 ]; do\n  case \"$1\" in --manifest-path) m=$2; shift;; --manifest-path=*) m=${{1#*=}};; --release|-r) p=release;; --target-dir) CARGO_TARGET_DIR=$2; shift;; --target-dir=*) CARGO_TARGET_DIR=${{1#*=}};; esac\n  shift\ndone\n\
         d=$(dirname \"$m\")\nr=$d\nw=$(cd \"$d\" && pwd)\n\
         while [ \"$w\" != / ]; do if grep -qs '^.workspace.' \"$w/Cargo.toml\"; then r=$w; break; fi; w=$(dirname \"$w\"); done\n\
         printf '%s\\n' \"$d\" >> '{log}'\nif [ -e \"$d/.fail\" ]; then echo 'error: could not compile' >&2; exit 101; fi\n\
         echo '# made by cargo' > \"$r/Cargo.lock\"\n\
         n=$(sed -n 's/^name = \"\\(.*\\)\"$/\\1/p' \"$d/Cargo.toml\" | head -n 1 | tr - _)\n\
         l=$(sed -n '/^.lib.$/,$s/^name = \"\\(.*\\)\"$/\\1/p' \"$d/Cargo.toml\" | head -n 1)\nn=${{l:-$n}}\nt=${{CARGO_TARGET_DIR:-$r/target}}/$p\nmkdir -p \"$t\"\nrm -f \"$t\"/*.so\n\
         if [ -z \"$n\" ] || [ -e \"$d/.nolib\" ]; then exit 0; fi\ncat '{so}' \"$d/trailer\" > \"$t/lib$n.so\"\n",
        log = log.display(),
        so = aux.join("libvhplugin.so").display()
    );
    fs::write(base.join("bin/cargo"), stub).unwrap();
    fs::set_permissions(base.join("bin/cargo"), fs::Permissions::from_mode(0o755)).unwrap();
    let (has_cargo, has_git) = (!src.chance(1, 15), !src.chance(1, 15));
    if has_git {
        std::os::unix::fs::symlink("/usr/bin/git", base.join("bin/git")).unwrap();
    }
    if !has_cargo {
        fs::remove_file(base.join("bin/cargo")).unwrap();
    }

    // The dependencies.
    let mut deps: Vec<(String, String, Vec<Source>)> = vec![];
    let all_good = src.chance(2, 3);
    for d in 0..src.usize(1, 3) {
        let name = format!("{}{}", src.pick(&["dep", "my-dep", "d_", "D"]), d);
        let plugin = if src.coin() { name.replace('-', "_") } else { format!("p{}", d) };
        let mut ss = vec![];
        let n = src.usize(1, 4);
        for i in 0..n {
            let mut s = source(src, d, i, &name, &plugin);
            if src.chance(if i + 1 < n { 2 } else { 1 }, 3) {
                s.fault = fault(src, &s);
            }
            ss.push(s);
        }
        if all_good && !ss.iter().any(|s| s.works()) {
            let i = src.below(n as u64) as usize;
            if matches!(ss[i].kind, Kind::Dll | Kind::Junk) {
                ss[i].kind = Kind::Js;
                ss[i].path = format!("plugins/k{}_{}.js", d, i);
            }
            ss[i].fault = None;
        }
        deps.push((name, plugin, ss));
    }
    let usable = |s: &Source| s.works() && (has_cargo || !matches!(s.kind, Kind::Cargo | Kind::Git)) && (has_git || s.kind != Kind::Git) && (web().there || s.kind != Kind::Http);

    // The project.
    let mut m = text(&cli::manifest("site", ""));
    m.push_str("\n[dependencies]\n");
    for (name, _, ss) in &deps {
        let v = ss.iter().map(|s| s.text(&w)).collect::<Vec<_>>().join(";");
        m.push_str(&format!("{} = \"{}\"\n", name, v.replace('\\', "\\\\").replace('"', "\\\"")));
    }
    fs::write(w.project.join("stuart.toml"), &m).unwrap();
    fs::write(w.project.join("content/root.html"), "{{ insert(\"a\") }}").unwrap();
    let mut page = "{{ begin(\"a\") }}".to_string();
    // Even those which are not called have to load.
    let called: Vec<bool> = deps.iter().map(|_| src.chance(2, 3)).collect();
    for ((_, p, _), _) in deps.iter().zip(&called).filter(|x| *x.1) {
        page.push_str(&format!("{{{{ {}::which() }}}},", p));
    }
    page.push_str("{{ end(\"a\") }}");
    fs::write(w.project.join("content/index.html"), page).unwrap();
    let old = src.chance(1, 3);
    if old {
        fs::create_dir_all(w.project.join("dist")).unwrap();
        fs::write(w.project.join("dist/old.html"), "old").unwrap();
    }
    let away = src.chance(1, 3);
    let cwd = if away { base.join("elsewhere/x") } else { w.project.clone() };
    fs::create_dir_all(&cwd).unwrap();
    if away {
        // What the sources would be relative to here.
        for (_, _, ss) in &deps {
            for s in ss {
                if !matches!(s.kind, Kind::Git | Kind::Http | Kind::Junk) && !s.abs {
                    let mut x = s.clone();
                    x.fault = None;
                    x.id = "elsewhere".into();
                    let w2 = World { project: cwd.clone(), remote: w.remote.clone(), so: w.so.clone(), other: vec![] };
                    x.put(&w2);
                }
            }
        }
    }
    let mut env = Env { path: Some(base.join("bin").display().to_string()), home: Some(base.join("home")), ..Env::default() };
    let target = src.chance(1, 6);
    if target {
        env = env.with("CARGO_TARGET_DIR", src.pick(&["tgt", "a/shared target", "."]));
    }
    let hidden = m.replace(&base.display().to_string(), "/BASE");
    let mut shown = json!({ "stuart.toml": hidden, "cargo": has_cargo, "git": has_git, "cwd": cwd.strip_prefix(&base).unwrap().display().to_string() });
    let phases = src.usize(1, 3);
    o.nontrivial = true;
    o.class_if(away, "from elsewhere");
    o.class_if(!has_cargo, "no Cargo");
    o.class_if(!has_git, "no Git");
    o.class_if(target, "CARGO_TARGET_DIR");
    let mut history: Vec<serde_json::Value> = vec![];
    for phase in 0..phases {
        if phase > 0 {
            // Some sources change.
            for (d, (_, _, ss)) in deps.iter_mut().enumerate() {
                for (i, s) in ss.iter_mut().enumerate() {
                    if src.coin() {
                        s.id = format!("id{}x{}z{}{}", d, i, phase, gen::word(src));
                    }
                    s.amend = src.chance(1, 3);
                    if src.chance(1, 4) {
                        s.lock = !s.lock;
                    }
                    if src.chance(1, 4) {
                        let refused = s.fault == Some(Refused);
                        s.fault = if s.fault.is_some() && !refused { None } else { fault(src, s) };
                        // Its address stays the same.
                        if refused || s.fault == Some(Refused) {
                            s.fault = Some(if refused { Refused } else { Missing });
                        }
                    }
                }
            }
        }
        for (_, _, ss) in &deps {
            for s in ss {
                s.put(&w);
            }
        }
        fs::remove_file(&log).ok();
        web().log.lock().unwrap().clear();
        let before = read_tree(&w.project.join("dist"), true);
        let firsts: Vec<Option<&Source>> = deps.iter().map(|(_, _, ss)| ss.iter().find(|s| usable(s))).collect();
        history.push(
            deps.iter()
                .map(|(_, _, ss)| ss.iter().map(|s| format!("{:?} {}", s.kind, s.fault.map(|f| format!("{:?}", f)).unwrap_or(s.id.clone()))).collect::<Vec<_>>().join("; "))
                .collect(),
        );
        shown["builds"] = json!(history);
        let mut args = vec!["build"];
        if !away && src.chance(1, 10) {
            args = vec!["bench", "-i", "1"];
        }
        let mp = w.project.join("stuart.toml").display().to_string();
        if away {
            args.extend(["--manifest-path", &mp]);
        }
        let r = cli::stuart(ctx, &cwd, &args, &env);
        o.show = shown.clone();
        o.hash = fnv(3, shown.to_string().as_bytes());
        if r.crashed() {
            o.fail("crash", r.describe());
            return o;
        }
        let site = read_tree(&w.project.join("dist"), true);
        if firsts.iter().any(|f| f.is_none()) {
            o.class("nothing works");
            if r.ok() {
                o.fail("accepted", format!("no source of {} works\n{}", deps[firsts.iter().position(|f| f.is_none()).unwrap()].0, r.describe()));
                return o;
            }
            if let Some(d) = crate::proj::diff(&before, &site) {
                o.fail("output", d);
                return o;
            }
            continue;
        }
        o.class("loaded");
        o.class_if(phase > 0, "loaded again");
        for f in firsts.iter().flatten() {
            o.class(match f.kind {
                Kind::Lib => "a library",
                Kind::Js => "a script",
                Kind::Cargo => "a Cargo project",
                Kind::Git => "a Git repository",
                _ => "a download",
            });
        }
        let want: String = firsts.iter().zip(&called).filter(|x| *x.1).map(|(s, _)| format!("{},", s.unwrap().id)).collect();
        if !r.ok() {
            o.fail("rejected", format!("{} should be loaded\n{}", want, r.describe()));
            return o;
        }
        let got = site.get("index.html").map(|b| text(b)).unwrap_or_default();
        if got != want {
            o.fail("plugin", format!("{} instead of {}\n{}", got, want, r.describe()));
            return o;
        }
        // What comes after it is not looked at.
        let built = fs::read_to_string(&log).unwrap_or_default();
        let fetched = web().log.lock().unwrap().clone();
        for (d, (_, _, ss)) in deps.iter().enumerate() {
            let first = ss.iter().position(|s| usable(s)).unwrap();
            for s in &ss[first + 1..] {
                let stem = s.path.rsplit('/').next().unwrap().to_string();
                let touched = match s.kind {
                    Kind::Cargo => built.lines().any(|l| l.trim_end_matches('/').ends_with(&stem)),
                    Kind::Http => fetched.iter().any(|l| l.contains(&s.path)),
                    _ => false,
                };
                if touched {
                    o.fail("eager", format!("{} of dependency {} is used, although an earlier source works\n{}", s.path, d, r.describe()));
                    return o;
                }
            }
        }
    }
    o
}
