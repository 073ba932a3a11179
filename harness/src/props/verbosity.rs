//! C27: what a command says and how it ends: its status, `--quiet` and `--verbose`, and the number of builds of a benchmark.

use crate::cli::{self, Env, Ran};
use crate::dev::{self, Dev};
use crate::engine::*;
use crate::gen;
use crate::netns;
use crate::proj::*;
use crate::site::*;
use serde_json::json;
use std::fs;
use std::path::Path;
use std::time::{Duration, Instant};

/// Ways to ask for a level of output, the first of which asks for nothing.
const QUIET: &[&str] = &["-q", "--quiet"];
const VERBOSE: &[&str] = &["-v", "--verbose"];

fn with_level(level: Option<&str>, args: &[String]) -> Vec<String> {
    level.map(String::from).into_iter().chain(args.iter().cloned()).collect()
}

fn run(ctx: &Ctx, dir: &Path, level: Option<&str>, args: &[String], env: &Env) -> Ran {
    let a = with_level(level, args);
    cli::stuart(ctx, dir, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>(), env)
}

/// What is wrong with how the command ended and with what it said.
fn judge(r: &Ran, ok: bool, quiet: bool) -> Option<(&'static str, String)> {
    if r.crashed() {
        return Some(("crash", r.describe()));
    }
    if r.ok() != ok {
        return Some((if ok { "rejected" } else { "accepted" }, r.describe()));
    }
    if r.stdout.contains("error:") {
        return Some(("error on the standard output", r.describe()));
    }
    if quiet && !r.stdout.is_empty() {
        return Some(("output in spite of --quiet", r.describe()));
    }
    if ok {
        if quiet && !r.stderr.is_empty() {
            return Some(("output in spite of --quiet", r.describe()));
        }
        if !quiet && r.stderr.contains("error:") {
            return Some(("error in spite of success", r.describe()));
        }
    } else if quiet && !r.stderr.trim_start().starts_with("error:") {
        return Some(("more than the error in spite of --quiet", r.describe()));
    }
    None
}

/// The error of the output, from its first line on.
fn error_of(r: &Ran) -> String {
    r.stderr.find("error:").map(|i| r.stderr[i..].to_string()).unwrap_or_default()
}

pub fn c27(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match src.weighted(&[60, 22, 10, 8]) {
        0 => builds(src, ctx),
        1 => others(src, ctx),
        2 => failing_server(src, ctx),
        _ => quiet_server(src, ctx),
    }
}

fn builds(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let p = gen_proj(src, &PW { max_files: 6, clash: 3, bad: 6, ..PW::default() });
    let want = p.want();
    let mut files = p.files();
    // What the scripts do.
    let n = |src: &mut Src| src.usize(1, 4);
    let noise = "echo 'to the standard output'\necho 'to the standard error' >&2\n";
    let mut pre_fails: Option<usize> = None;
    let mut post_fails: Option<usize> = None;
    let mut pre = "echo x >> \"$STUART_MANIFEST_DIR/builds\"\n".to_string();
    let mut post = "echo x >> \"$STUART_MANIFEST_DIR/built\"\n".to_string();
    let noisy = src.chance(1, 3);
    if noisy {
        pre.push_str(noise);
        post.push_str(noise);
    }
    let code = *src.pick(&[1, 2, 3, 126, 255]);
    if src.chance(1, 6) {
        let k = n(src);
        pre.push_str(&format!("[ $(wc -l < \"$STUART_MANIFEST_DIR/builds\") -ge {} ] && exit {}\n", k, code));
        pre_fails = Some(k);
    } else if src.chance(1, 6) {
        let k = n(src);
        post.push_str(&format!("[ $(wc -l < \"$STUART_MANIFEST_DIR/built\") -ge {} ] && exit {}\n", k, code));
        post_fails = Some(k);
    }
    pre.push_str("true\n");
    post.push_str("true\n");
    files.insert("scripts/onPreBuild.sh".into(), pre.into_bytes());
    files.insert("scripts/onPostBuild.sh".into(), post.into_bytes());
    // The manifest.
    let manifest = match src.weighted(&[88, 4, 4, 4]) {
        0 => true,
        1 => {
            files.remove("stuart.toml");
            false
        }
        2 => {
            files.insert("stuart.toml".into(), b"[site]\nauthor = \"someone\"\n".to_vec());
            false
        }
        _ => {
            files.insert("stuart.toml".into(), b"[site\nname = \"x\"\n".to_vec());
            false
        }
    };
    // The command.
    let bench = src.chance(2, 5);
    let mut iters: Option<usize> = Some(1);
    let mut args: Vec<String> = vec![];
    if bench {
        args.push("bench".into());
        match src.below(8) {
            0 => {
                // Ten is what there is without a number.
                iters = Some(10);
            }
            1 => {
                let v = *src.pick(&["x", "1.5", "", "1e1", "0x2", "ten", "99999999999999999999", " 2", "2 "]);
                args.push(format!("--iters={}", v));
                iters = None;
            }
            _ => {
                let k = src.usize(0, 5);
                iters = Some(k);
                match src.below(3) {
                    0 => args.extend(["-i".into(), k.to_string()]),
                    1 => args.push(format!("-i{}", k)),
                    _ => args.push(format!("--iters={}", k)),
                }
            }
        }
    } else {
        args.push("build".into());
    }
    o.show = json!({ "command": args, "files": show_files(&files) });
    o.hash = fnv(p.hash(), o.show.to_string().as_bytes());
    let content_ok = match &want {
        Want::Ok(_) => true,
        Want::Fail(..) => false,
        Want::Unspecified => {
            o.class("unspecified");
            return o;
        }
    };
    // How many builds there are, and how many come to their end.
    let (mut begun, mut ended, mut ok) = (0, 0, manifest && iters.is_some());
    if ok {
        for k in 1..=iters.unwrap() {
            begun = k;
            if pre_fails.map_or(false, |f| k >= f) || !content_ok {
                ok = false;
                break;
            }
            ended = k;
            if post_fails.map_or(false, |f| k >= f) {
                ok = false;
                break;
            }
        }
    }
    let levels = [None, Some(*src.pick(QUIET)), Some(*src.pick(VERBOSE))];
    let base = ctx.fresh();
    let mut first: Option<(Ran, Files)> = None;
    // The first build takes the temporary files away.
    let later = Proj { temp: Files::new(), ..p.clone() };
    let want = if ended > 1 { later.want() } else { want };
    for (i, level) in levels.iter().enumerate() {
        // The same directory, as errors contain paths.
        let dir = base.join("project");
        fs::remove_dir_all(&dir).ok();
        fs::create_dir_all(&dir).unwrap();
        write_files(&dir, &files);
        fs::create_dir_all(dir.join("content")).unwrap();
        for d in &p.dirs {
            fs::create_dir_all(dir.join(d)).unwrap();
        }
        let r = run(ctx, &dir, *level, &args, &Env::default());
        let said = format!("stuart {}", with_level(*level, &args).join(" "));
        if let Some((kind, d)) = judge(&r, ok, i == 1) {
            o.fail(kind, format!("{}\n{}", said, d));
            return o;
        }
        let mut tree = read_tree(&dir, true);
        let mut count = |f: &str| tree.remove(f).map_or(0, |b| b.iter().filter(|c| **c == b'\n').count());
        let (b, e) = (count("builds"), count("built"));
        if (b, e) != (begun, ended) {
            o.fail("number of builds", format!("{}: {} builds instead of {}, {} of which came to their end instead of {}\n{}", said, b, begun, e, ended, r.describe()));
            return o;
        }
        if let (Want::Ok(w), true) = (&want, ended > 0) {
            if let Some(d) = diff(w, &read_tree(&dir.join("dist"), true)) {
                o.fail("output", format!("{}\n{}\n{}", said, d, r.describe()));
                return o;
            }
        } else if dir.join("dist").exists() {
            o.fail("output", format!("{}: nothing was built, but there is an output\n{}", said, r.describe()));
            return o;
        }
        match &first {
            None => {
                if ok && begun > 0 && r.stderr.trim().is_empty() {
                    o.fail("silent", format!("{}\n{}", said, r.describe()));
                    return o;
                }
                first = Some((r, tree));
            }
            Some((r0, t0)) => {
                if let Some(d) = diff(t0, &tree) {
                    o.fail("the level makes a difference", format!("{}\n{}", said, d));
                    return o;
                }
                if error_of(r0) != error_of(&r) {
                    o.fail("another error", format!("{}\n{}\ninstead of\n{}", said, r.describe(), r0.describe()));
                    return o;
                }
            }
        }
    }
    o.nontrivial = true;
    o.class(if bench { "bench" } else { "build" });
    o.class(if ok { "succeeds" } else { "fails" });
    o.class_if(manifest && !content_ok, "content at fault");
    o.class_if(!manifest, "manifest at fault");
    o.class_if(!ok && manifest && content_ok && begun > 0, "script at fault");
    o.class_if(bench && begun > 1, "several builds");
    o.class_if(noisy, "noisy scripts");
    o
}

fn others(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    o.nontrivial = true;
    let levels = [None, Some(*src.pick(QUIET)), Some(*src.pick(VERBOSE))];
    let new = src.coin();
    let mut files = Files::new();
    let args: Vec<String>;
    let ok;
    let mut with_git = true;
    if new {
        let name = gen::mark(src);
        let there = src.chance(1, 3);
        if there {
            files.insert(format!("{}{}", name, src.pick(&["", "/stuart.toml", "/x"])), b"mine".to_vec());
        }
        with_git = src.chance(3, 4);
        args = if src.coin() { vec!["new".into(), "--no-git".into(), name] } else { vec!["new".into(), name] };
        ok = !there;
        o.class(if ok { "new" } else { "new, failing" });
    } else {
        ok = src.chance(2, 3);
        for f in ["dist/index.html", "_build/x", "metadata.json", "content/root.html", "static/x", "keep"] {
            if src.coin() {
                files.insert(f.into(), gen::mark(src).into_bytes());
            }
        }
        if ok {
            files.insert("stuart.toml".into(), cli::manifest("site", ""));
        }
        args = vec!["clean".into()];
        o.class(if ok { "clean" } else { "clean, failing" });
    }
    o.show = json!({ "command": args, "files": show_files(&files), "git": with_git });
    o.hash = fnv(11, o.show.to_string().as_bytes());
    let base = ctx.fresh();
    let mut first: Option<(Ran, Files)> = None;
    for (i, level) in levels.iter().enumerate() {
        let dir = base.join("cwd");
        fs::remove_dir_all(&dir).ok();
        fs::create_dir_all(&dir).unwrap();
        write_files(&dir, &files);
        let env = Env { home: Some(base.clone()), path: (!with_git).then(|| base.join("nowhere").display().to_string()), ..Env::default() };
        let r = run(ctx, &dir, *level, &args, &env);
        let said = format!("stuart {}", with_level(*level, &args).join(" "));
        if let Some((kind, d)) = judge(&r, ok, i == 1) {
            o.fail(kind, format!("{}\n{}", said, d));
            return o;
        }
        let mut tree = read_tree(&dir, true);
        tree.retain(|k, _| !k.contains("/.git/hooks/"));
        match &first {
            None => first = Some((r, tree)),
            Some((r0, t0)) => {
                if let Some(d) = diff(t0, &tree) {
                    o.fail("the level makes a difference", format!("{}\n{}", said, d));
                    return o;
                }
                if error_of(r0) != error_of(&r) {
                    o.fail("another error", format!("{}\n{}\ninstead of\n{}", said, r.describe(), r0.describe()));
                    return o;
                }
            }
        }
    }
    o
}

/// A development server which cannot start must say so.
fn failing_server(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    o.nontrivial = true;
    let level = *src.pick(&[None, Some("-q"), Some("--quiet"), Some("-v")]);
    let quiet = level.map_or(false, |l| QUIET.contains(&l));
    let why = *src.pick(&["port", "no manifest", "manifest", "dependency"]);
    let base = ctx.fresh();
    let dir = base.join("project");
    let p = gen_proj(src, &PW { max_files: 3, clash: 0, bad: 0, temp: false });
    p.write(&dir);
    let mut args: Vec<String> = vec!["dev".into()];
    match why {
        "no manifest" => args.push("--manifest-path=nothing/stuart.toml".into()),
        "manifest" => fs::write(dir.join("stuart.toml"), "[site]\n").unwrap(),
        "dependency" => fs::write(dir.join("stuart.toml"), "[site]\nname = \"x\"\n[dependencies]\np = \"nowhere/p.js\"\n").unwrap(),
        _ => (),
    }
    o.show = json!({ "command": with_level(level, &args), "why": why });
    o.hash = fnv(13, o.show.to_string().as_bytes());
    o.class("server which cannot start");
    if !matches!(p.want(), Want::Ok(_)) {
        return o;
    }
    let turn = netns::turn();
    let _taken = if why == "port" {
        let t0 = Instant::now();
        Some(loop {
            match std::net::TcpListener::bind("127.0.0.1:6904") {
                Ok(l) => break l,
                Err(_) if t0.elapsed() > Duration::from_secs(5) => return o,
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        })
    } else {
        None
    };
    let r = run(ctx, &dir, level, &args, &Env::default());
    drop(turn);
    if let Some((kind, d)) = judge(&r, false, quiet) {
        o.fail(kind, format!("{}: {}\n{}", why, with_level(level, &args).join(" "), d));
    }
    o
}

/// Waits a little, and repeats a change now and then: it may be lost if a build is going on (a known finding of C23).
fn again(t0: &Instant, change: &mut dyn FnMut()) {
    let before = t0.elapsed().as_millis() / 700;
    std::thread::sleep(Duration::from_millis(5));
    if t0.elapsed().as_millis() / 700 != before {
        change();
    }
}

/// A server which is to be quiet says only what is wrong.
fn quiet_server(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let p = gen_proj(src, &PW { max_files: 3, clash: 0, bad: 0, temp: false });
    o.class("quiet server");
    o.show = p.show();
    o.hash = fnv(15, o.show.to_string().as_bytes());
    if !matches!(p.want(), Want::Ok(_)) || p.content.contains_key("z.html") || p.stat.keys().any(|k| k.starts_with("said")) {
        return o;
    }
    o.nontrivial = true;
    let dir = ctx.fresh().join("project");
    p.write(&dir);
    fs::create_dir_all(dir.join("static")).unwrap();
    let flag = *src.pick(QUIET);
    let mut d = match Dev::start_at(ctx, &dir, Some(flag), &[], &Env::default()) {
        Ok(d) => d,
        Err(e) => {
            o.fail("no server", e);
            return o;
        }
    };
    for i in 0..src.usize(1, 3) {
        let mark = gen::mark(src);
        fs::write(dir.join(format!("static/said{}.txt", i)), &mark).unwrap();
        let t0 = Instant::now();
        while fs::read(dir.join(format!("dist/said{}.txt", i))).ok().as_deref() != Some(mark.as_bytes()) {
            // Whether changes are seen is decided elsewhere.
            if t0.elapsed() > dev::PATIENCE || d.ended().is_some() {
                o.class("not rebuilt");
                return o;
            }
            again(&t0, &mut || fs::write(dir.join(format!("static/said{}.txt", i)), &mark).unwrap());
        }
    }
    let said = d.log();
    if !said.is_empty() {
        o.fail("output in spite of --quiet", format!("stuart {} dev\n{:?}", flag, said));
        return o;
    }
    // An error is no matter to be quiet about.
    if src.coin() {
        fs::write(dir.join("content/z.html"), "{{ begin(\"x\") }}").unwrap();
        let t0 = Instant::now();
        while !d.log().contains("error:") {
            if t0.elapsed() > dev::PATIENCE || d.ended().is_some() {
                o.fail("error not reported", format!("stuart {} dev\n{:?}", flag, d.log()));
                return o;
            }
            again(&t0, &mut || fs::write(dir.join("content/z.html"), "{{ begin(\"x\") }}").unwrap());
        }
        std::thread::sleep(Duration::from_millis(30));
        let said = d.log();
        if !said.trim_start().starts_with("error:") {
            o.fail("output in spite of --quiet", format!("stuart {} dev\n{:?}", flag, said));
        }
        o.class("error of a quiet server");
    }
    o
}
