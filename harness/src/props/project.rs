//! C21: `stuart new` creates a project that builds; `stuart clean` removes only what builds write.

use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::fs;
use std::path::Path;
use std::process::Command;

fn git_quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t"))
}

fn new_name(src: &mut Src) -> String {
    let odd = [
        "my site", "é ü", "日本", "a\"b", "a'b", "a\\b", "a\"\"\"b", "it's", "100%", "{{ x }}", "[site]", "name = 1", "#x", "a\nb", "$x", "~", "&<>", "a;b", "*", "a\tb", "\u{1}x",
        "x.y", "...", "🦀", "\"", "\\", "'''", "site\" #", "-x", "--no-git", "=", "dist",
    ];
    match src.below(4) {
        0 | 1 => src.pick(&odd).to_string(),
        2 => {
            let mut t = gen::string(src);
            t.retain(|c| c != '\0' && c != '/');
            t.truncate(t.char_indices().map(|(i, _)| i).take_while(|i| *i < 100).last().unwrap_or(0));
            if t.is_empty() || t == "." || t == ".." {
                gen::mark(src)
            } else {
                t
            }
        }
        _ => gen::mark(src),
    }
}

/// Everything which is not in a Git directory.
fn tree(dir: &Path) -> Files {
    let mut t = read_tree(dir, true);
    t.retain(|k, _| !k.starts_with(".git/") && !k.contains("/.git/"));
    t
}

fn git(dir: &Path, home: &Path, args: &[&str]) -> (bool, String) {
    let r = Command::new("/usr/bin/git")
        .current_dir(dir)
        .args(args)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", home)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("LANG", "C.UTF-8")
        .output()
        .expect("git");
    (r.status.success(), String::from_utf8_lossy(&r.stdout).into_owned())
}

pub fn c21(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    if src.coin() {
        created(src, ctx)
    } else {
        cleaned(src, ctx)
    }
}

fn created(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh();
    let cwd = base.join("cwd");
    let home = base.join("home");
    for d in [&cwd, &home] {
        fs::create_dir_all(d).unwrap();
    }
    // The identity.
    let mut who: [Option<String>; 2] = [None, None];
    let mut config = String::from("[user]\n");
    for (i, k) in ["name", "email"].iter().enumerate() {
        if src.chance(5, 6) {
            let v = match src.below(5) {
                0 => src.pick(&["O'Brien", "Ä \"nick\" Ö", "back\\slash", "a <b>", "two\nlines", "x # y", "'''", "日本"]).to_string(),
                1 => format!("{}@example.com", gen::word(src)),
                _ => format!("{} {}", gen::mark(src), gen::mark(src)),
            };
            config.push_str(&format!("  {} = {}\n", k, git_quote(&v)));
            who[i] = Some(v);
        }
    }
    fs::write(home.join(".gitconfig"), &config).unwrap();
    let with_git = !src.chance(1, 12);
    let mut env = cli::Env { home: Some(home.clone()), ..Default::default() };
    if !with_git {
        env.path = Some(base.join("nowhere").display().to_string());
        who = [None, None];
    }
    let author = match &who {
        [Some(n), Some(e)] => Some(format!("{} <{}>", n, e)),
        _ => None,
    };
    // The name, and what is there already.
    let simple = new_name(src);
    let mut kind = src.weighted(&[60, 12, 10, 10, 8]);
    if simple.starts_with('-') && kind > 1 {
        kind = 0;
    }
    let (name, ok): (String, bool) = match kind {
        1 => {
            // In a directory.
            fs::create_dir_all(cwd.join("some where")).unwrap();
            (format!("some where/{}", simple), true)
        }
        2 => (cwd.join(&simple).display().to_string(), true),
        3 => {
            // Something is there.
            let p = cwd.join(&simple);
            match src.below(4) {
                0 => fs::write(&p, "a file").unwrap(),
                1 => fs::create_dir_all(&p).unwrap(),
                2 => {
                    fs::create_dir_all(p.join("content")).unwrap();
                    fs::write(p.join("stuart.toml"), "mine").unwrap();
                }
                _ => std::os::unix::fs::symlink(base.join("dangling"), &p).unwrap(),
            }
            (simple.clone(), false)
        }
        4 => (format!("not there/{}", simple), false),
        _ => (simple.clone(), true),
    };
    let no_git = src.chance(1, 3);
    let mut args: Vec<String> = vec!["new".into()];
    if no_git && src.coin() {
        args.push("--no-git".into());
    }
    let early = args.len() > 1;
    if name.starts_with('-') {
        if no_git && !early {
            args.push("--no-git".into());
        }
        args.push("--".into());
        args.push(name.clone());
    } else {
        args.push(name.clone());
        if no_git && !early {
            args.push("--no-git".into());
        }
    }
    // Neighbours.
    fs::write(cwd.join("other.txt"), "other").unwrap();
    if simple != "stuart.toml" && !cwd.join("stuart.toml").exists() && src.coin() {
        fs::write(cwd.join("stuart.toml"), "the manifest of something else").unwrap();
    }
    o.show = json!({ "new": args, "gitconfig": config, "git": with_git });
    o.hash = fnv(7, o.show.to_string().as_bytes());
    o.nontrivial = true;
    let before = read_tree(&base, true);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = cli::stuart(ctx, &cwd, &a, &env);
    if r.crashed() {
        o.fail("crash", r.describe());
        return o;
    }
    if !ok {
        o.class(if kind == 3 { "something is there" } else { "no such directory" });
        if r.ok() {
            o.fail("accepted", format!("{}\n{}", if kind == 3 { "the path exists" } else { "the path cannot be created" }, r.describe()));
        } else if let Some(d) = diff(&before, &read_tree(&base, true)) {
            o.fail("touched", d);
        }
        return o;
    }
    o.class("created");
    if !r.ok() {
        o.fail("rejected", r.describe());
        return o;
    }
    let dir = cwd.join(&name);
    let rel = format!("{}/", dir.strip_prefix(&base).unwrap().display());
    let mut after = read_tree(&base, true);
    after.retain(|k, _| !k.starts_with(&rel));
    if let Some(d) = diff(&before, &after) {
        o.fail("other files", d);
        return o;
    }
    let project = tree(&dir);
    // Git.
    let has_git = dir.join(".git").exists();
    if has_git != (with_git && !no_git) {
        o.fail("git", format!("there is {} Git repository\n{}", if has_git { "a" } else { "no" }, r.describe()));
        return o;
    }
    if no_git && project.contains_key(".gitignore") {
        o.fail("git", "there is a .gitignore in spite of --no-git");
        return o;
    }
    o.class_if(has_git, "with Git");
    o.class_if(author.is_some(), "with an author");
    // It builds as it is.
    let r = cli::stuart(ctx, &dir, &["build"], &env);
    if !r.ok() {
        o.fail("does not build", format!("{}\n{}", text(&project["stuart.toml"]), r.describe()));
        return o;
    }
    let site = read_tree(&dir.join("dist"), false);
    let index = site.get("index.html").map(|b| text(b)).unwrap_or_default();
    if !index.contains('<') || index.contains("{{") {
        o.fail("no site", format!("the output of the new project has no index: {:?}", site.keys().collect::<Vec<_>>()));
        return o;
    }
    for (k, b) in &project {
        if let Some(k) = k.strip_prefix("static/") {
            if !k.is_empty() && !k.ends_with('/') && site.get(k) != Some(b) {
                o.fail("static", format!("{} is not in the output", k));
                return o;
            }
        }
    }
    let mut now = tree(&dir);
    now.retain(|k, _| !k.starts_with("dist/"));
    if let Some(d) = diff(&project, &now) {
        o.fail("build", d);
        return o;
    }
    // What the manifest says.
    let mut m = text(&project["stuart.toml"]);
    m.push_str("\n[settings]\nsave_metadata = true\n");
    fs::write(dir.join("stuart.toml"), &m).unwrap();
    let r = cli::stuart(ctx, &dir, &["build"], &env);
    let j: J = fs::read(dir.join("metadata.json")).ok().and_then(|t| serde_json::from_slice(&t).ok()).unwrap_or(J::Null);
    if j["name"] != json!(name) || j["author"] != json!(author) {
        o.fail("manifest", format!("{} and {} instead of {:?} and {:?}:\n{}\n{}", j["name"], j["author"], name, author, m, r.describe()));
        return o;
    }
    fs::write(dir.join("stuart.toml"), &project["stuart.toml"]).unwrap();
    // Git does not see what was built.
    if has_git {
        fs::create_dir_all(dir.join("_build/plugins/x")).unwrap();
        fs::write(dir.join("_build/plugins/x/y"), "z").unwrap();
        let (ok, s) = git(&dir, &home, &["status", "--porcelain", "-uall"]);
        if !ok || s.lines().any(|l| l.contains(" dist/") || l.contains("_build/") || l.contains("metadata.json")) || s.is_empty() {
            o.fail("ignored", format!("Git does not ignore what is built: {} {}", ok, s));
            return o;
        }
    }
    // Cleaning it brings it back.
    let r = cli::stuart(ctx, &dir, &["clean"], &env);
    if !r.ok() {
        o.fail("clean", r.describe());
        return o;
    }
    if let Some(d) = diff(&project, &tree(&dir)) {
        o.fail("clean", format!("the cleaned project is not the new one: {}", d));
        return o;
    }
    // Twice is once too often.
    let r = cli::stuart(ctx, &cwd, &a, &env);
    if r.ok() || r.crashed() {
        o.fail("accepted", format!("the second time\n{}", r.describe()));
    } else if let Some(d) = diff(&project, &tree(&dir)) {
        o.fail("touched", d);
    }
    // Another name makes no difference to the rest.
    if src.chance(1, 4) {
        let r = cli::stuart(ctx, &base, &if no_git { vec!["new", "--no-git", "plain"] } else { vec!["new", "plain"] }, &env);
        let mut x = tree(&base.join("plain"));
        let mut y = project.clone();
        x.remove("stuart.toml");
        y.remove("stuart.toml");
        if let Some(d) = diff(&x, &y) {
            o.fail("template", format!("{}\n{}", d, r.describe()));
        }
    }
    o
}

const PATHS: &[&str] = &[
    "dist/index.html", "dist/a/b/c.txt", "dist/.hidden", "dist/content/x.html", "_build/plugins/p/lib.so", "_build/x", "_build/.git/config", "metadata.json",
    "content/root.html", "content/index.html", "content/dist/x.md", "static/metadata.json", "static/_build/x", "temp/x", "scripts/onPreBuild.sh", "dist2/x", "dist.bak",
    "my dist/x", "_build2/x", "build/x", "out/index.html", "metadata.json.bak", "metadata.jsonl", "sub/dist/x", "sub/metadata.json", "sub/stuart.toml", "sub/_build/x",
    ".git/config", ".gitignore", "Dist/x", "target/x", "node_modules/x", "data.json", "a.toml", "public/x", "_site/x", "plugins/p.js", "Metadata.json",
];

fn cleaned(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh();
    let dir = base.join("project");
    let away = base.join("away");
    fs::create_dir_all(&dir).unwrap();
    write_files(&away, &Files::from([("keep.txt".into(), b"keep".to_vec()), ("deep/keep.txt".into(), b"keep".to_vec())]));
    let manifest = src.chance(4, 5);
    let mut log: Vec<String> = vec![];
    if manifest {
        fs::write(dir.join("stuart.toml"), cli::manifest("site", &format!("save_metadata = {}\n", src.coin()))).unwrap();
    }
    // What is removed may itself be a link, to files that are to stay.
    let mut linked = vec![];
    for p in ["dist", "_build", "metadata.json"] {
        if src.chance(1, 12) {
            let to = match (p, src.below(3)) {
                ("metadata.json", 0) => away.join("none"),
                ("metadata.json", _) => away.join("keep.txt"),
                (_, 0) => "content".into(),
                (_, 1) => "../away".into(),
                _ => away.clone(),
            };
            fs::create_dir_all(dir.join("content")).unwrap();
            std::os::unix::fs::symlink(to, dir.join(p)).unwrap();
            log.push(format!("{}@", p));
            linked.push(p);
        }
    }
    for _ in 0..src.usize(1, 12) {
        let p = *src.pick(PATHS);
        if linked.iter().any(|l| p == *l || p.starts_with(&format!("{}/", l))) {
            continue;
        }
        let b = gen::mark(src).into_bytes();
        write_files(&dir, &Files::from([(p.to_string(), b)]));
        log.push(p.into());
    }
    for d in ["dist", "_build", "dist/empty", "sub", "dist2", "temp"] {
        if src.chance(1, 8) && !linked.iter().any(|l| d.starts_with(l)) {
            fs::create_dir_all(dir.join(d)).unwrap();
            log.push(format!("{}/", d));
        }
    }
    let mut links = 0;
    for p in ["dist/link", "dist/file link", "_build/link", "dist/up", "link"] {
        if src.chance(1, 8) && !linked.iter().any(|l| p.starts_with(l)) {
            fs::create_dir_all(dir.join(p).parent().unwrap()).unwrap();
            let to = match p {
                "dist/file link" => away.join("keep.txt"),
                "dist/up" => "..".into(),
                _ => away.clone(),
            };
            std::os::unix::fs::symlink(to, dir.join(p)).unwrap();
            log.push(format!("{}@", p));
            links += 1;
        }
    }
    // Some history before it.
    if manifest && linked.is_empty() && src.chance(1, 3) {
        write_files(
            &dir,
            &Files::from([("content/root.html".into(), b"<a>{{ insert(\"a\") }}".to_vec()), ("content/p.html".into(), b"{{ begin(\"a\") }}x{{ end(\"a\") }}".to_vec())]),
        );
        fs::remove_file(dir.join("content/index.html")).ok();
        let args: &[&str] = *src.pick(&[&["build"][..], &["build", "-o", "out"], &["bench", "-i", "2"], &["build", "-o", "_site"]]);
        let r = cli::stuart(ctx, &dir, args, &cli::Env::default());
        log.push(format!("stuart {} ({})", args.join(" "), r.code.unwrap_or(-1)));
        o.class("after a build");
    }
    let sub = dir.join("sub");
    let in_sub = src.chance(1, 8) && sub.is_dir();
    let cwd = if in_sub { sub.clone() } else { dir.clone() };
    let here = cwd.join("stuart.toml").exists();
    log.push(format!("stuart clean in {}", cwd.strip_prefix(&base).unwrap().display()));
    o.show = json!(log);
    o.hash = fnv(9, o.show.to_string().as_bytes());
    let before = read_tree(&base, true);
    let mut want = before.clone();
    let prefix = cwd.strip_prefix(&base).unwrap().display().to_string();
    if here {
        want.retain(|k, _| {
            let Some(k) = k.strip_prefix(&format!("{}/", prefix)) else { return true };
            !(k.starts_with("dist/") || k.starts_with("_build/") || k == "metadata.json")
        });
        // Whether the link goes or cannot be cleaned is not said, as long as what it leads to stays.
        let links = linked.iter().map(|l| format!("{}/{}@", prefix, l)).collect::<Vec<_>>();
        if cwd == dir && !links.is_empty() {
            o.class("linked output");
            let r = cli::stuart(ctx, &cwd, &["clean"], &cli::Env::default());
            let mut after = read_tree(&base, true);
            if r.ok() {
                want.retain(|k, _| !links.contains(k));
                after.retain(|k, _| !links.contains(k));
            } else {
                want = before.clone();
                for t in [&mut want, &mut after] {
                    t.retain(|k, _| {
                        let k = k.strip_prefix(&format!("{}/", prefix)).unwrap_or(k);
                        !(k.starts_with("dist/") || k.starts_with("_build/") || matches!(k, "metadata.json" | "dist@" | "_build@" | "metadata.json@"))
                    });
                }
            }
            if r.crashed() {
                o.fail("crash", r.describe());
            } else if let Some(d) = diff(&want, &after) {
                o.fail("clean", format!("{}\n{}", d, r.describe()));
            }
            o.nontrivial = true;
            return o;
        }
    }
    let env = cli::Env::default();
    let r = cli::stuart(ctx, &cwd, if src.chance(1, 6) { &["-q", "clean"] } else { &["clean"] }, &env);
    if r.crashed() {
        o.fail("crash", r.describe());
        return o;
    }
    if r.ok() != here {
        o.fail(if here { "rejected" } else { "accepted" }, r.describe());
        return o;
    }
    if let Some(d) = diff(&want, &read_tree(&base, true)) {
        o.fail("clean", format!("{}\n{}", d, r.describe()));
        return o;
    }
    o.nontrivial = want != before || !here;
    o.class(if here { "cleaned" } else { "no project" });
    o.class_if(links > 0, "links");
    if here {
        // Again, there is nothing to do.
        let r = cli::stuart(ctx, &cwd, &["clean"], &env);
        if !r.ok() {
            o.fail("rejected", format!("the second time\n{}", r.describe()));
        } else if let Some(d) = diff(&want, &read_tree(&base, true)) {
            o.fail("clean", format!("the second time: {}", d));
        }
    }
    o
}
