//! C20: build scripts run around the build, with the documented environment.

use super::layout;
use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Component, Path, PathBuf};

const PRE: &[&str] = &["onPreBuild", "onPreBuild.sh"];
const POST: &[&str] = &["onPostBuild", "onPostBuild.sh"];
const DECOYS: &[&str] = &[
    "scripts/onPreBuild.bat", "scripts/onPostBuild.bat", "scripts/onPrebuild.sh", "scripts/onprebuild", "scripts/onPreBuild.js", "scripts/onPostBuild.sh~",
    "scripts/preBuild.sh", "scripts/lib/onPreBuild.sh", "scripts/lib/onPostBuild", "scripts/a/b/onPreBuild", "scripts/onBuild.sh", "scripts/.onPreBuild.sh",
    "onPreBuild.sh", "onPostBuild", "script/onPreBuild.sh", "scripts/onPreBuild .sh", "scripts/xonPreBuild.sh", "scripts/onPostBuild.shx", "scripts/build.sh",
];

#[derive(Clone, Debug)]
enum Does {
    /// Puts a file into `temp` (copied from the stash).
    Temp(String, Vec<u8>),
    /// Adds or changes a page.
    Page(String, String),
    /// Adds a static file.
    Static(String, Vec<u8>),
    /// Removes a content file.
    Remove(String),
    /// Adds a file to the output directory.
    Output(String, Vec<u8>),
}

#[derive(Clone, Debug)]
struct Script {
    name: String,
    does: Vec<Does>,
    /// The shell command to end with, and whether that comes before what the script does.
    end: Option<(String, bool)>,
    says: Option<(String, bool)>,
}

fn quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "'\\''"))
}

const VARS: &[&str] = &["STUART_MANIFEST_PATH", "STUART_MANIFEST_DIR", "STUART_TEMP_DIR", "STUART_OUT_DIR", "STUART_ENV"];

impl Script {
    fn text(&self, log: &Path, stash: &Path, dir: &Path, out: &Path) -> String {
        let mut s = String::new();
        // Neither a command that fails nor an undefined variable ends a script.
        s.push_str("false\n: \"$vh_undefined\"\n");
        s.push_str(&format!("L={}\n", quote(log.to_str().unwrap())));
        s.push_str("n=$(ls \"$L\" | wc -l)\nd=\"$L/$(printf %03d \"$n\")\"\nmkdir \"$d\"\n");
        s.push_str(&format!("printf '%s' {} > \"$d/name\"\n", quote(&self.name)));
        for v in VARS.iter().chain(["VH_GIVEN"].iter()) {
            s.push_str(&format!("if [ -n \"${{{v}+x}}\" ]; then printf '%s' \"${v}\" > \"$d/{v}\"; fi\n"));
        }
        let d = quote(dir.to_str().unwrap());
        let o = quote(out.to_str().unwrap());
        s.push_str(&format!("[ -d {o} ] && cp -R {o} \"$d/out\"\n"));
        s.push_str(&format!("[ -f {d}/metadata.json ] && cp {d}/metadata.json \"$d/metadata.json\"\n"));
        s.push_str(&format!("[ -d {d}/temp ] && cp -R {d}/temp \"$d/temp\"\ntrue\n"));
        if let Some((m, err)) = &self.says {
            s.push_str(&format!("printf '%s\\n' {}{}\n", quote(m), if *err { " >&2" } else { "" }));
        }
        if let Some((e, true)) = &self.end {
            s.push_str(e);
            s.push('\n');
        }
        for (i, x) in self.does.iter().enumerate() {
            let from = quote(stash.join(format!("{}-{}", self.name, i)).to_str().unwrap());
            let (root, p) = match x {
                Does::Temp(p, _) => ("\"$STUART_TEMP_DIR\"/".to_string(), p.clone()),
                Does::Page(p, _) => (format!("{d}/content/"), p.clone()),
                Does::Static(p, _) => (format!("{d}/static/"), p.clone()),
                Does::Output(p, _) => ("\"$STUART_OUT_DIR\"/".to_string(), p.clone()),
                Does::Remove(p) => {
                    s.push_str(&format!("rm -f {d}/content/{}\n", quote(p)));
                    continue;
                }
            };
            s.push_str(&format!("mkdir -p {root}{}\ncp {from} {root}{}\n", quote(parent_of(&p)), quote(&p)));
        }
        if let Some((e, false)) = &self.end {
            s.push_str(e);
            s.push('\n');
        }
        s
    }

    fn stash(&self, stash: &Path) {
        for (i, x) in self.does.iter().enumerate() {
            let b = match x {
                Does::Temp(_, b) | Does::Static(_, b) | Does::Output(_, b) => b.clone(),
                Does::Page(_, t) => Cf::Page(t.clone()).bytes(),
                Does::Remove(_) => continue,
            };
            fs::write(stash.join(format!("{}-{}", self.name, i)), b).unwrap();
        }
    }

    fn apply(&self, p: &mut Proj) {
        if matches!(self.end, Some((_, true))) && self.fails() {
            return;
        }
        for x in &self.does {
            match x {
                Does::Temp(n, b) => {
                    p.temp.insert(n.clone(), b.clone());
                }
                Does::Static(n, b) => {
                    p.stat.insert(n.clone(), b.clone());
                }
                Does::Page(n, t) => {
                    p.content.insert(n.clone(), Cf::Page(t.clone()));
                }
                Does::Remove(n) => {
                    p.content.remove(n);
                    // The directory stays.
                    if n.contains('/') {
                        p.dirs.insert(format!("content/{}", parent_of(n)));
                    }
                }
                Does::Output(..) => (),
            }
        }
    }

    fn fails(&self) -> bool {
        matches!(&self.end, Some((e, _)) if e != "exit 0" && e != "true")
    }

    fn output(&self) -> Files {
        let mut f = Files::new();
        if matches!(self.end, Some((_, true))) && self.fails() {
            return f;
        }
        for x in &self.does {
            if let Does::Output(p, b) = x {
                f.insert(p.clone(), b.clone());
                let mut d = parent_of(p);
                while !d.is_empty() {
                    f.insert(format!("{}/", d), vec![]);
                    d = parent_of(d);
                }
            }
        }
        f
    }
}

fn gen_script(src: &mut Src, name: &str, pre: bool, p: &Proj) -> Script {
    let id = name.replace('.', "-");
    let mut does = vec![];
    for i in 0..src.usize(0, 3) {
        let mut d = *src.pick(&["", "", "made/", "a/", "a/b/"]);
        if !fits(p.content.keys(), &format!("{}x", d)) || !fits(p.stat.keys(), &format!("{}x", d)) || !fits(p.temp.keys(), &format!("{}x", d)) {
            d = "made/";
        }
        let b = |src: &mut Src| if src.chance(1, 4) { gen::text(src).into_bytes() } else { gen::mark(src).into_bytes() };
        if !pre {
            let x = b(src);
            does.push(Does::Output(format!("by script/{}{}-{}.txt", d, id, i), x));
            continue;
        }
        match src.weighted(&[50, 20, 15, 10]) {
            0 => {
                let n = format!("{}{}-{}.{}", d, id, i, src.pick(&["txt", "css", "html", "json"]));
                let x = b(src);
                does.push(Does::Temp(n, x));
            }
            1 => does.push(Does::Page(format!("{}p-{}-{}.html", d, id, i), gen::mark(src))),
            2 => {
                let x = b(src);
                does.push(Does::Static(format!("{}s-{}-{}.txt", d, id, i), x));
            }
            _ => {
                let keys: Vec<&String> = p.content.iter().filter(|(_, c)| matches!(c, Cf::Page(_) | Cf::Md(..) | Cf::Other(_))).map(|(k, _)| k).collect();
                if !keys.is_empty() {
                    does.push(Does::Remove(src.pick(&keys).to_string()));
                }
            }
        }
    }
    let end = match src.weighted(&[72, 6, 20]) {
        0 => None,
        1 => Some((src.pick(&["exit 0", "true"]).to_string(), false)),
        _ => Some((
            src.pick(&["exit 1", "exit 2", "exit 255", "exit 77", "kill -9 $$", "false", "/nonexistent/command", "if then"]).to_string(),
            src.coin(),
        )),
    };
    let end = end.map(|(e, early)| {
        // Only what ends the script can come first.
        let early = early && (e.starts_with("exit") || e.starts_with("kill") || e == "if then") && e != "exit 0";
        (e, early)
    });
    let says = if src.chance(2, 3) {
        let m = if src.chance(1, 30) {
            format!("{}{}", gen::mark(src), " long".repeat(30_000))
        } else {
            src.pick(&["plain {}", "two\nlines {}", "é ü 日本 {}", "100% {} \\n $x", "error: {}"]).replace("{}", &gen::mark(src))
        };
        Some((m, src.coin()))
    } else {
        None
    };
    Script { name: name.into(), does, end, says }
}

fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => (),
            Component::ParentDir => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out
}

struct Run {
    name: String,
    dir: PathBuf,
}

fn runs(log: &Path) -> Vec<Run> {
    let mut v: Vec<PathBuf> = fs::read_dir(log).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    v.into_iter().map(|d| Run { name: fs::read_to_string(d.join("name")).unwrap_or_default(), dir: d }).collect()
}

pub fn c20(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = gen_proj(src, &PW { clash: 0, max_files: 5, bad: 0, ..PW::default() });
    let base = ctx.fresh();
    let spaced = src.chance(1, 4);
    let dir = base.join(if spaced { "my project é" } else { "project" });
    let log = base.join("log");
    let stash = base.join("stash");
    for d in [&dir, &log, &stash] {
        fs::create_dir_all(d).unwrap();
    }
    fs::create_dir_all(base.join("elsewhere")).unwrap();
    p.write(&dir);
    let mut history: Vec<J> = vec![];
    let mut total = 0;
    let mut ran = 0;
    let mut shown = p.show();
    let mut hash = p.hash();
    let builds = src.usize(1, 3);
    'builds: for step in 0..builds {
        // The scripts of this build.
        let scripts_dir = dir.join("scripts");
        if scripts_dir.exists() {
            fs::remove_dir_all(&scripts_dir).unwrap();
        }
        fs::remove_dir_all(&stash).unwrap();
        fs::create_dir_all(&stash).unwrap();
        let mut scripts = vec![];
        for (names, pre) in [(PRE, true), (POST, false)] {
            match src.weighted(&[25, 65, 20]) {
                0 => (),
                1 => scripts.push(({ let n = names[src.below(2) as usize]; gen_script(src, n, pre, &p) }, pre)),
                _ => {
                    for n in names {
                        scripts.push((gen_script(src, n, pre, &p), pre));
                    }
                }
            }
        }
        if step > 0 {
            // Something happens in between.
            if src.chance(1, 3) {
                let pages: Vec<String> = p.content.iter().filter(|(_, c)| matches!(c, Cf::Page(_) | Cf::Bad(_))).map(|(k, _)| k.clone()).collect();
                if !pages.is_empty() {
                    let k = src.pick(&pages).clone();
                    let c = if src.coin() { Cf::Bad("{{ $nope }}".into()) } else { Cf::Page(gen::mark(src)) };
                    fs::write(dir.join("content").join(&k), c.bytes()).unwrap();
                    p.content.insert(k, c);
                }
            }
        }
        let mode = src.weighted(&[60, 15, 12, 13]);
        let (mut args, out, env_name, times): (Vec<String>, PathBuf, &str, usize) = match mode {
            1 => {
                let a = src.pick(&["out", "./dist/", "a b/c", "../away", "dist/../site"]).to_string();
                (vec!["build".into(), "-o".into(), a.clone()], lexical(&dir.join(a)), "production", 1)
            }
            2 => {
                let a = base.join("absolute");
                (vec!["build".into(), "--output".into(), a.display().to_string()], a, "production", 1)
            }
            3 => {
                let n = src.usize(1, 3);
                (vec!["bench".into(), "-i".into(), n.to_string()], dir.join("dist"), "benchmark", n)
            }
            _ => (vec!["build".into()], dir.join("dist"), "production", 1),
        };
        let mut cwd = dir.clone();
        if mode != 3 && src.chance(1, 3) {
            let (c, m) = match src.below(3) {
                0 => (base.clone(), format!("{}/stuart.toml", dir.file_name().unwrap().to_str().unwrap())),
                1 => (base.join("elsewhere"), dir.join("stuart.toml").display().to_string()),
                _ => (dir.join("content"), "../stuart.toml".to_string()),
            };
            cwd = c;
            args.push("--manifest-path".into());
            args.push(m);
        }
        if src.chance(1, 6) {
            args.insert(0, "-q".into());
        }
        let mut env = cli::Env::default();
        let given = if src.coin() { Some(gen::string(src).replace('\0', "")) } else { None };
        if let Some(g) = &given {
            env = env.with("VH_GIVEN", g);
        }
        if src.chance(1, 4) {
            env = env.with("STUART_ENV", "staging").with("STUART_OUT_DIR", "/nonexistent");
        }
        if out == dir.join("a b/c") {
            fs::create_dir_all(dir.join("a b")).unwrap();
        }
        if args.iter().any(|a| a == "dist/../site") {
            // A path through a directory needs that directory.
            fs::create_dir_all(dir.join("dist")).unwrap();
        }

        if !scripts.is_empty() {
            fs::create_dir_all(&scripts_dir).unwrap();
        }
        let mut decoys = vec![];
        for _ in 0..src.usize(0, 3) {
            let d = *src.pick(DECOYS);
            let path = dir.join(d);
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            let s = Script { name: format!("decoy {}", d), does: vec![], end: Some(("exit 1".into(), false)), says: None };
            fs::write(&path, s.text(&log, &stash, &dir, &out)).unwrap();
            decoys.push(d);
        }
        let mut texts = vec![];
        for (s, _) in &scripts {
            let mut t = s.text(&log, &stash, &dir, &out);
            if src.coin() {
                t.insert_str(0, "#!/bin/sh\n");
            }
            s.stash(&stash);
            let f = scripts_dir.join(&s.name);
            fs::write(&f, &t).unwrap();
            let mode = *src.pick(&[0o644, 0o755, 0o600]);
            fs::set_permissions(&f, fs::Permissions::from_mode(mode)).unwrap();
            if src.chance(1, 5) {
                // A link to a script is one.
                let real = base.join("elsewhere").join(format!("real-{}", s.name));
                fs::rename(&f, &real).unwrap();
                std::os::unix::fs::symlink(&real, &f).unwrap();
                o.class("linked script");
            }
            texts.push(format!("{:?}", s));
        }
        if src.chance(1, 8) && !PRE.iter().any(|n| scripts_dir.join(n).exists()) {
            // A directory is no script.
            fs::create_dir_all(scripts_dir.join(PRE[0])).unwrap();
        }
        if scripts_dir.is_dir() && src.chance(1, 10) {
            let real = base.join(format!("scripts-{}", step));
            fs::rename(&scripts_dir, &real).unwrap();
            std::os::unix::fs::symlink(&real, &scripts_dir).unwrap();
            o.class("linked directory");
        }
        history.push(json!({"scripts": texts, "decoys": decoys, "command": args.join(" "), "cwd": cwd.strip_prefix(&base).unwrap().display().to_string()}));
        hash = fnv(hash, format!("{:?}{:?}{:?}", texts, decoys, args).as_bytes());
        for d in fs::read_dir(&log).unwrap() {
            fs::remove_dir_all(d.unwrap().path()).unwrap();
        }
        let old_out = read_tree(&out, true);
        let old_meta = fs::read(dir.join("metadata.json")).ok();
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();

        // What must happen.
        let (pre, post): (Vec<&Script>, Vec<&Script>) = (
            scripts.iter().filter(|s| s.1).map(|s| &s.0).collect(),
            scripts.iter().filter(|s| !s.1).map(|s| &s.0).collect(),
        );
        let pre_fails = pre.iter().any(|s| s.fails());
        let post_fails = post.iter().any(|s| s.fails());
        let mut q = p.clone();
        for s in &pre {
            s.apply(&mut q);
        }
        let mut wants = vec![q.want()];
        if times > 1 {
            let mut q2 = q.clone();
            q2.temp.clear();
            q2.dirs.retain(|d| !d.starts_with("temp/"));
            for s in &pre {
                s.apply(&mut q2);
            }
            wants.push(q2.want());
        }
        if !pre_fails && wants.iter().any(|w| matches!(w, Want::Unspecified | Want::Fail(false, _))) {
            o.class("discarded");
            break;
        }
        let r = cli::stuart(ctx, &cwd, &a, &env);
        total += 1;
        let at = |m: String| format!("build {}: {}", step + 1, m);
        let done = runs(&log);
        ran += done.len();
        let names: Vec<&str> = done.iter().map(|r| r.name.as_str()).collect();

        // The environment.
        for x in &done {
            let got = fs::read(x.dir.join("VH_GIVEN")).ok();
            if got != given.as_ref().map(|g| g.clone().into_bytes()) {
                o.fail("inherited", at(format!("VH_GIVEN of {} is {:?}, not {:?}", x.name, got.map(|g| text(&g)), given)));
                break 'builds;
            }
            let canon = dir.canonicalize().unwrap();
            let want = [
                canon.join("stuart.toml"),
                canon.clone(),
                canon.join("temp"),
                lexical(&if out.starts_with(&dir) { canon.join(out.strip_prefix(&dir).unwrap()) } else { base.canonicalize().unwrap().join(out.strip_prefix(&base).unwrap()) }),
                PathBuf::from(env_name),
            ];
            for (v, w) in VARS.iter().zip(&want) {
                let got = fs::read_to_string(x.dir.join(v)).ok().map(|g| lexical(Path::new(&g)));
                if got.as_ref() != Some(w) {
                    o.fail("environment", at(format!("{} of {} is {:?}, not {:?}", v, x.name, got, w)));
                    break 'builds;
                }
            }
        }
        if r.crashed() {
            o.fail("crash", at(r.describe()));
            break;
        }
        // Which scripts ran, and when.
        let mut rest = &done[..];
        let mut failed: Option<&Script> = None;
        let mut iteration = 0;
        let mut expect_ok = true;
        let mut final_out: Option<Files> = None;
        while iteration < times && expect_ok {
            let want = &wants[iteration.min(wants.len() - 1)];
            let mut left: Vec<&Script> = pre.clone();
            let mut bad = None;
            while bad.is_none() && !left.is_empty() {
                let Some((x, more)) = rest.split_first() else { break };
                let Some(i) = left.iter().position(|s| s.name == x.name) else { break };
                rest = more;
                let s = left.remove(i);
                if s.fails() {
                    bad = Some(s);
                }
                // The output is as it was.
                let now = read_tree(&x.dir.join("out"), true);
                let then = final_out.as_ref().unwrap_or(&old_out);
                if let Some(d) = diff(then, &now) {
                    o.fail("early output", at(format!("when {} runs, the output has changed: {}", x.name, d)));
                    break 'builds;
                }
            }
            if pre_fails {
                if bad.is_none() {
                    o.fail("not run", at(format!("a pre-build script is missing: ran {:?}\n{}", names, r.describe())));
                    break 'builds;
                }
                failed = bad;
                expect_ok = false;
                // Only those which ran have done something.
                for x in &done {
                    if let Some(s) = pre.iter().find(|s| s.name == x.name) {
                        s.apply(&mut p);
                    }
                }
                break;
            }
            if !left.is_empty() {
                o.fail("not run", at(format!("{} does not run: {:?}\n{}", left[0].name, names, r.describe())));
                break 'builds;
            }
            for s in &pre {
                s.apply(&mut p);
            }
            let want = match want {
                Want::Ok(w) => w.clone(),
                _ => {
                    expect_ok = false;
                    o.class("content fails");
                    break;
                }
            };
            let meta = p.metadata();
            p.temp.clear();
            p.dirs.retain(|d| !d.starts_with("temp/"));
            let mut out_now = want.clone();
            let mut left: Vec<&Script> = post.clone();
            while failed.is_none() && !left.is_empty() {
                let Some((x, more)) = rest.split_first() else { break };
                let Some(i) = left.iter().position(|s| s.name == x.name) else { break };
                rest = more;
                let s = left.remove(i);
                if let Some(d) = diff(&out_now, &read_tree(&x.dir.join("out"), true)) {
                    o.fail("late output", at(format!("when {} runs, the output is not complete: {}", x.name, d)));
                    break 'builds;
                }
                if p.meta == Some(true) {
                    let mut errs = vec![];
                    match fs::read(x.dir.join("metadata.json")).map(|t| serde_json::from_slice::<J>(&t)) {
                        Ok(Ok(j)) => layout::compare(&meta, &j["data"], "", &mut errs),
                        e => errs.push(format!("{:?}", e)),
                    }
                    if !errs.is_empty() {
                        o.fail("metadata", at(format!("when {} runs, the metadata is not that of the build: {}", x.name, errs.join("; "))));
                        break 'builds;
                    }
                }
                if x.dir.join("temp").exists() {
                    o.fail("temp", at(format!("when {} runs, the temporary directory is still there", x.name)));
                    break 'builds;
                }
                out_now.extend(s.output());
                if s.fails() {
                    failed = Some(s);
                    expect_ok = false;
                }
            }
            if failed.is_none() && (!left.is_empty() || post_fails) {
                o.fail("not run", at(format!("{:?} does not run: {:?}\n{}", left.first().map(|s| &s.name), names, r.describe())));
                break 'builds;
            }
            final_out = Some(out_now);
            iteration += 1;
        }
        if !rest.is_empty() {
            o.fail("too many", at(format!("{} should not run (again): {:?}", rest[0].name, names)));
            break;
        }
        if r.ok() != expect_ok {
            o.fail(if expect_ok { "rejected" } else { "accepted" }, at(format!("{:?}\n{}", names, r.describe())));
            break;
        }
        let want_out = final_out.as_ref().unwrap_or(&old_out);
        if let Some(d) = diff(want_out, &read_tree(&out, true)) {
            o.fail("output", at(format!("{}\n{}", d, r.describe())));
            break;
        }
        if final_out.is_none() && fs::read(dir.join("metadata.json")).ok() != old_meta {
            o.fail("metadata", at("a failed build changes the metadata".into()));
            break;
        }
        if let Some(s) = failed {
            o.class(if PRE.contains(&s.name.as_str()) { "a pre-build script fails" } else { "a post-build script fails" });
            if let Some((m, _)) = &s.says {
                let all = format!("{}{}", r.stderr, r.stdout);
                if !all.contains(m.trim()) {
                    o.fail("silent", at(format!("the output of {} is not shown: {:?}\n{}", s.name, clip(m, 200), r.describe())));
                    break;
                }
            }
            if !r.stderr.contains(&s.name) {
                o.fail("silent", at(format!("the error does not name {}\n{}", s.name, r.describe())));
                break;
            }
        }
        o.class_if(times > 1, "benchmark");
        o.class_if(done.len() > 1, "several scripts");
        o.class_if(!decoys.is_empty(), "decoys");
        o.class_if(cwd != dir, "from elsewhere");
    }
    o.nontrivial = total > 0 && ran > 0;
    o.hash = fnv(hash, J::Array(history.clone()).to_string().as_bytes());
    shown["(history)"] = J::Array(history);
    o.show = shown;
    o
}

