//! C33: when a file operation fails, is partial or interrupted, or the command is killed at it, the command never
//! claims success for something incomplete, never touches its inputs, and the next one makes up for it.

use super::history::{edit, inputs, sync};
use super::layout;
use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

const SCRIPT: &str = "#!/bin/sh\nmkdir -p temp\necho made > temp/zz-made.txt\n";

struct Fault {
    op: char,
    at: usize,
    what: String,
}

/// Errors of the system, which say nothing about what is there.
fn errors(op: char) -> &'static [(&'static str, i32)] {
    match op {
        'o' => &[("EACCES", 13), ("EMFILE", 24), ("ENFILE", 23), ("EIO", 5), ("ENOMEM", 12)],
        'b' | 'r' => &[("EIO", 5)],
        'w' => &[("ENOSPC", 28), ("EIO", 5), ("EDQUOT", 122), ("EFBIG", 27)],
        'm' => &[("EACCES", 13), ("ENOSPC", 28), ("EROFS", 30), ("EIO", 5), ("EMFILE", 24)],
        _ => &[("EACCES", 13), ("EBUSY", 16), ("EIO", 5), ("EROFS", 30)],
    }
}

impl Fault {
    /// Counts are the numbers of operations of each kind which a similar command did.
    fn gen(src: &mut Src, ops: &str, log: &[(char, bool, String)]) -> Fault {
        let kinds: Vec<char> = ops.chars().collect();
        let mut op = *src.pick(&kinds);
        let kind = src.below(10);
        let what = match kind {
            0..=5 => {
                let (n, e) = src.pick(errors(op));
                (n.to_string(), e.to_string())
            }
            6 => ("EINTR".into(), "4".into()),
            7 => ("short".into(), "short".into()),
            _ => {
                op = '*';
                ("killed".into(), "kill".into())
            }
        };
        if matches!(kind, 6 | 7) {
            op = *src.pick(&['r', 'w']);
        }
        let n = log.iter().filter(|l| op == '*' || l.0 == op).count();
        let at = src.usize(0, n + n / 6);
        Fault { op, at, what: what.1 }
    }

    fn transparent(&self) -> bool {
        self.what == "4" || self.what == "short"
    }

    fn kills(&self) -> bool {
        self.what == "kill"
    }

    fn name(&self) -> String {
        let e = errors(self.op).iter().find(|e| e.1.to_string() == self.what).map(|e| e.0);
        e.unwrap_or(match &self.what[..] {
            "4" => "EINTR",
            "kill" => "killed",
            w => w,
        })
        .to_string()
    }

    fn describe(&self) -> String {
        let op = match self.op {
            'r' => "read of a file",
            'o' => "opening to read",
            'b' => "listing of a directory",
            'w' => "write",
            'm' => "creation",
            'u' => "removal",
            _ => "operation",
        };
        format!("{} {}: {}", op, self.at, self.name())
    }
}

/// Runs the command with the operations in the directory logged, and one of them failing.
fn run(ctx: &Ctx, base: &Path, cwd: &Path, args: &[&str], fault: Option<&Fault>) -> (cli::Ran, Vec<(char, bool, String)>) {
    let log = ctx.work.join("fault.log");
    fs::remove_file(&log).ok();
    let real = base.canonicalize().unwrap();
    let mut env = cli::Env::default()
        .with("LD_PRELOAD", ctx.aux.as_ref().expect("--aux").join("libvhfault.so").to_str().unwrap())
        .with("VH_FAULT_DIR", real.to_str().unwrap())
        .with("VH_FAULT_LOG", log.to_str().unwrap());
    if let Some(f) = fault {
        env = env.with("VH_FAULT_OP", &f.op.to_string()).with("VH_FAULT_AT", &f.at.to_string()).with("VH_FAULT_DO", &f.what);
    }
    let r = cli::stuart(ctx, cwd, args, &env);
    let t = fs::read(&log).unwrap_or_default();
    let t = String::from_utf8_lossy(&t).into_owned();
    let ops = t
        .split('\n')
        .filter_map(|l| {
            let (head, path) = l.split_once(' ')?;
            Some((head.chars().next()?, head.ends_with('!'), path.trim_start_matches('/').to_string()))
        })
        .collect();
    (r, ops)
}

/// The output and metadata which a successful build leaves.
fn complete(p: &Proj, want: &Files, dir: &Path, out: &Path) -> Result<(), String> {
    if let Some(d) = diff(want, &read_tree(out, true)) {
        return Err(d);
    }
    if dir.join("temp").exists() {
        return Err("the temporary directory is still there".into());
    }
    if p.meta == Some(true) {
        let t = fs::read(dir.join("metadata.json")).unwrap_or_default();
        let mut errs = vec![];
        match serde_json::from_slice::<J>(&t) {
            Ok(j) => layout::compare(&p.metadata(), &j["data"], "", &mut errs),
            Err(e) => errs.push(e.to_string()),
        }
        if !errs.is_empty() {
            return Err(format!("metadata.json: {}", errs.join("; ")));
        }
    }
    Ok(())
}

pub fn c33(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match src.weighted(&[80, 8, 12]) {
        0 => building(src, ctx),
        1 => creating(src, ctx),
        _ => cleaning(src, ctx),
    }
}

fn building(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = PW { clash: 0, max_files: 6, bad: 0, ..PW::default() };
    let mut p = gen_proj(src, &w);
    let base = ctx.fresh();
    let dir = base.join("project");
    fs::create_dir_all(&dir).unwrap();
    fs::create_dir_all(dir.join("public")).unwrap();
    let script = src.chance(1, 3);
    if script {
        fs::create_dir_all(dir.join("scripts")).unwrap();
        let s = dir.join("scripts/onPreBuild.sh");
        fs::write(&s, SCRIPT).unwrap();
        fs::set_permissions(&s, fs::Permissions::from_mode(0o755)).unwrap();
    }
    let made = |p: &Proj| {
        let mut q = p.clone();
        if script {
            q.temp.insert("zz-made.txt".into(), b"made\n".to_vec());
        }
        q
    };
    let (out, arg) = match src.below(4) {
        0 => (dir.join("public/site"), Some("public/site")),
        1 => (base.join("away"), Some("../away")),
        _ => (dir.join("dist"), None),
    };
    let bench = arg.is_none() && src.chance(1, 6);
    let mut args = vec![];
    if src.chance(1, 4) {
        args.push("-q");
    }
    args.extend(if bench { vec!["bench", "-i", "2"] } else { vec!["build"] });
    if let Some(a) = arg {
        args.extend(["-o", a]);
    }
    let outs = ["dist", "public/site"];
    let desc = args.join(" ");

    // A first build, whose operations are like those of the second.
    if !matches!(made(&p).want(), Want::Ok(_)) {
        o.class("discarded");
        return o;
    }
    sync(&p, &dir);
    let (r, log) = run(ctx, &base, &dir, &args, None);
    if !r.ok() {
        o.fail("rejected", format!("before any fault: {}", r.describe()));
        return o;
    }
    if log.len() < 5 {
        o.fail("harness", format!("the operations were not seen: {:?}", log));
        return o;
    }
    let fresh = src.chance(1, 6);
    let mut edits = vec![];
    p.temp.clear();
    p.dirs.retain(|d| !d.starts_with("temp/"));
    for _ in 0..src.usize(0, 3) {
        edits.push(edit(src, &mut p, true));
    }
    sync(&p, &dir);
    if fresh {
        fs::remove_dir_all(&out).unwrap();
        fs::remove_file(dir.join("metadata.json")).ok();
    }
    let q = made(&p);
    let want = match q.want() {
        Want::Ok(w) => w,
        _ => {
            o.class("discarded");
            return o;
        }
    };
    // A second iteration finds no temporary files but those of the script.
    let mut later = p.clone();
    later.temp.clear();
    let later = made(&later);
    let fault = Fault::gen(src, "oooobbbrrrwwmmmuu", &log);
    let before = inputs(&dir, &outs);
    let old = read_tree(&out, true);
    let (r, log) = run(ctx, &base, &dir, &args, Some(&fault));
    let hit = log.iter().find(|l| l.1).cloned();
    let place = hit.as_ref().map(|h| h.2.clone()).unwrap_or_default();
    let mut show = p.show();
    show["(history)"] =
        json!([format!("stuart {}", desc), edits, if fresh { "remove the output" } else { "" }, format!("stuart {} ({} of {})", desc, fault.describe(), place)]);
    o.hash = fnv(p.hash(), show["(history)"].to_string().as_bytes());
    o.show = show;
    let say = |m: String| format!("{} of {:?}: {}", fault.describe(), place, m);

    if let Some(d) = diff(&before, &inputs(&dir, &outs)) {
        o.fail("inputs", say(format!("the build changes the project: {}\n{}", d, r.describe())));
        return o;
    }
    match &hit {
        None => o.class("no such operation"),
        Some(h) => {
            o.nontrivial = true;
            o.class(match h.0 {
                'r' => "reading",
                'o' => "opening",
                'b' => "listing",
                'w' => "writing",
                'm' => "creating",
                'u' => "removing",
                _ => "asking",
            });
            o.class(match (fault.kills(), fault.transparent()) {
                (true, _) => "killed",
                (_, true) => "partial or interrupted",
                _ => "failing",
            });
        }
    }
    if r.ok() {
        // Of the temporary files, a part may be left for the second iteration.
        let left = bench && place.starts_with("project/temp");
        let mut wants = vec![(&q, want.clone())];
        if bench {
            let Want::Ok(w) = later.want() else { unreachable!() };
            wants = vec![(&later, w)];
        }
        if left {
            wants.clear();
        }
        let all: Vec<String> = wants.iter().filter_map(|(p, w)| complete(p, w, &dir, &out).err()).collect();
        if let Some(first) = all.first() {
            o.fail("incomplete", say(format!("the build succeeds, but: {}\n{}", first, r.describe())));
            return o;
        }
        o.class_if(hit.is_some(), "succeeds");
    } else {
        if hit.is_none() || fault.transparent() {
            o.fail("rejected", say(r.describe()));
            return o;
        }
        if fault.kills() {
            if r.signal != Some(9) {
                o.fail("crash", say(r.describe()));
                return o;
            }
        } else if !r.clean_error() {
            o.fail("crash", say(r.describe()));
            return o;
        }
        // Nothing is written before everything was read.
        let h = hit.as_ref().unwrap();
        let input = ["content", "static", "temp", "scripts", "stuart.toml"].iter().any(|i| {
            let i = format!("project/{}", i);
            h.2 == i || h.2.starts_with(&format!("{}/", i))
        });
        if !bench && input && matches!(h.0, 'r' | 'o' | 'b') {
            // The temporary files are read again when they are removed, at the end.
            if !h.2.starts_with("project/temp") {
                o.class("reading the project fails");
                if let Some(d) = diff(&old, &read_tree(&out, true)) {
                    o.fail("lost output", say(format!("the output is not the previous one: {}", d)));
                    return o;
                }
            }
        }
    }
    // Whatever was left behind, the next build is like any other.
    let temp = dir.join("temp");
    if temp.exists() {
        fs::remove_dir_all(&temp).unwrap();
    }
    sync(&p, &dir);
    let r = cli::stuart(ctx, &dir, &args, &cli::Env::default());
    let (q, want) = match (bench, later.want()) {
        (true, Want::Ok(w)) => (later, w),
        _ => (q, want),
    };
    if !r.ok() {
        o.fail("rejected afterwards", say(format!("the next build fails: {}", r.describe())));
    } else if let Err(d) = complete(&q, &want, &dir, &out) {
        o.fail("incomplete afterwards", say(format!("the next build is not like one from scratch: {}", d)));
    } else if let Some(d) = diff(&before, &inputs(&dir, &outs)) {
        o.fail("inputs", say(format!("the next build changes the project: {}", d)));
    }
    o
}

fn creating(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh();
    let dir = base.join("work");
    write_files(&dir, &Files::from([("keep/x.txt".into(), b"keep".to_vec()), ("y".into(), b"keep".to_vec())]));
    let name = gen::word(src);
    let name = if matches!(&name[..], "keep" | "y") { "fresh".to_string() } else { name };
    let with_git = src.chance(2, 3);
    let args = if with_git { vec!["new", &name] } else { vec!["new", "--no-git", &name] };
    // What Git keeps is its own affair.
    let tree = |d: &Path| {
        let mut t = read_tree(d, true);
        t.retain(|k, _| !k.split('/').any(|c| c == ".git"));
        t
    };
    let (r, log) = run(ctx, &base, &dir, &args, None);
    if !r.ok() {
        o.class("discarded");
        return o;
    }
    let root = dir.join(&name);
    let want = tree(&root);
    fs::remove_dir_all(&root).unwrap();
    let fault = Fault::gen(src, "mmmwww", &log);
    let before = tree(&dir);
    let (r, log) = run(ctx, &base, &dir, &args, Some(&fault));
    let hit = log.iter().find(|l| l.1).cloned();
    o.show = json!([format!("stuart {}", args.join(" ")), fault.describe(), hit.as_ref().map(|h| h.2.clone())]);
    o.hash = fnv(33, o.show.to_string().as_bytes());
    o.class("new");
    o.class_if(with_git, "new with Git");
    o.nontrivial = hit.is_some();
    let say = |m: String| format!("new: {} of {:?}: {}", fault.describe(), hit.as_ref().map(|h| &h.2), m);
    let prefix = format!("{}/", name);
    let mut others = tree(&dir);
    others.retain(|k, _| !k.starts_with(&prefix));
    if let Some(d) = diff(&before, &others) {
        o.fail("inputs", say(format!("something else changed: {}", d)));
    } else if r.ok() {
        if let Some(d) = diff(&want, &tree(&root)) {
            o.fail("incomplete", say(format!("it succeeds, but: {}\n{}", d, r.describe())));
        }
    } else if hit.is_none() || fault.transparent() {
        o.fail("rejected", say(r.describe()));
    } else if if fault.kills() { r.signal != Some(9) } else { !r.clean_error() } {
        o.fail("crash", say(r.describe()));
    }
    o
}

fn cleaning(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh();
    let dir = base.join("project");
    let mut p = gen_proj(src, &PW { clash: 0, max_files: 4, bad: 0, ..PW::default() });
    p.meta = Some(true);
    if !matches!(p.want(), Want::Ok(_)) {
        o.class("discarded");
        return o;
    }
    p.write(&dir);
    let r = cli::stuart(ctx, &dir, &["build"], &cli::Env::default());
    if !r.ok() {
        o.fail("rejected", r.describe());
        return o;
    }
    if src.coin() {
        write_files(&dir, &Files::from([("_build/a/x.so".into(), b"x".to_vec()), ("_build/y".into(), b"y".to_vec())]));
    }
    write_files(&dir, &Files::from([("keep/x.txt".into(), b"keep".to_vec())]));
    // Lists what there is to do.
    let mut log: Vec<(char, bool, String)> = vec![];
    for (k, _) in read_tree(&dir, true) {
        if k.starts_with("dist/") || k.starts_with("_build/") || k == "metadata.json" {
            log.push(('u', false, k.clone()));
            if k.ends_with('/') {
                log.extend([('o', false, k.clone()), ('b', false, k.clone()), ('b', false, k)]);
            }
        }
    }
    let fault = Fault::gen(src, "uuuobb", &log);
    let mut want = read_tree(&dir, true);
    want.retain(|k, _| !(k.starts_with("dist/") || k.starts_with("_build/") || k == "metadata.json"));
    let kept = |mut t: Files| {
        t.retain(|k, _| !(k.starts_with("dist/") || k.starts_with("_build/") || k == "metadata.json"));
        t
    };
    let (r, log) = run(ctx, &base, &dir, &["clean"], Some(&fault));
    let hit = log.iter().find(|l| l.1).cloned();
    let mut show = p.show();
    show["(history)"] = json!(["stuart build", format!("stuart clean ({} of {:?})", fault.describe(), hit.as_ref().map(|h| h.2.clone()))]);
    o.hash = fnv(p.hash(), show["(history)"].to_string().as_bytes());
    o.show = show;
    o.class("clean");
    o.nontrivial = hit.is_some();
    let say = |m: String| format!("clean: {} of {:?}: {}", fault.describe(), hit.as_ref().map(|h| &h.2), m);
    let after = read_tree(&dir, true);
    if let Some(d) = diff(&want, &kept(after.clone())) {
        o.fail("inputs", say(format!("something else changed: {}", d)));
    } else if r.ok() {
        if let Some(d) = diff(&want, &after) {
            o.fail("incomplete", say(format!("it succeeds, but: {}\n{}", d, r.describe())));
        }
    } else if hit.is_none() || fault.transparent() {
        o.fail("rejected", say(r.describe()));
    } else if if fault.kills() { r.signal != Some(9) } else { !r.clean_error() } {
        o.fail("crash", say(r.describe()));
    }
    if o.fail.is_none() {
        let r = cli::stuart(ctx, &dir, &["clean"], &cli::Env::default());
        if !r.ok() {
            o.fail("rejected afterwards", say(r.describe()));
        } else if let Some(d) = diff(&want, &read_tree(&dir, true)) {
            o.fail("incomplete afterwards", say(format!("{}\n{}", d, r.describe())));
        }
    }
    o
}
