//! C15: whatever happened before, a successful build leaves what a build from scratch would.

use super::layout;
use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

const PARTS: &[&str] = &["content", "static", "temp"];

/// Makes the project on disk equal to the model, touching only what differs.
pub fn sync(p: &Proj, dir: &Path) {
    let want = p.files();
    let mut keep: Vec<String> = p.dirs.iter().cloned().collect();
    keep.push("content".into());
    for part in PARTS {
        let root = dir.join(part);
        for f in read_tree(&root, false).keys() {
            if !want.contains_key(&format!("{}/{}", part, f)) {
                fs::remove_file(root.join(f)).unwrap();
            }
        }
        // Directories, deepest first.
        let mut dirs: Vec<String> = read_tree(&root, true).keys().filter(|k| k.ends_with('/')).cloned().collect();
        dirs.sort_by_key(|d| std::cmp::Reverse(d.len()));
        for d in dirs {
            let full = format!("{}/{}", part, d.trim_end_matches('/'));
            let needed = keep.iter().any(|k| *k == full || k.starts_with(&format!("{}/", full)))
                || want.keys().any(|k| k.starts_with(&format!("{}/", full)));
            if !needed {
                fs::remove_dir(root.join(&d)).unwrap();
            }
        }
        let needed = keep.iter().any(|k| k == part || k.starts_with(&format!("{}/", part)))
            || want.keys().any(|k| k.starts_with(&format!("{}/", part)));
        if !needed && root.exists() {
            fs::remove_dir(root).unwrap();
        }
    }
    for (f, b) in &want {
        let path = dir.join(f);
        if fs::read(&path).ok().as_ref() != Some(b) {
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            fs::write(path, b).unwrap();
        }
    }
    for d in &keep {
        fs::create_dir_all(dir.join(d)).unwrap();
    }
}

/// One edit of the project.
/// With `all`, also of the temporary files and settings.
pub fn edit(src: &mut Src, p: &mut Proj, all: bool) -> String {
    let w = PW { clash: 6, ..PW::default() };
    let dirs: Vec<String> = {
        let mut d: Vec<String> = vec![String::new(), "a".into(), "a/b".into(), "post".into(), "assets".into()];
        if src.chance(1, 4) {
            d.push(name_of_parts(src));
        }
        d.extend(p.content.keys().chain(p.stat.keys()).map(|k| parent_of(k).to_string()));
        d
    };
    let k = if all { 1 } else { 0 };
    match src.weighted(&[25, 14, 12 * k, 18, 8, 6, 6 * k, 5, 6, 3 * k]) {
        0 => {
            let d = src.pick(&dirs).clone();
            let (n, c) = content_file(src, &d, 4);
            add_content(p, n.clone(), c, &w, src);
            format!("add content/{}", n)
        }
        1 => {
            let d = src.pick(&dirs).clone();
            let (n, b) = asset(src, &d);
            add_asset(p, false, n.clone(), b, &w, src);
            format!("add static/{}", n)
        }
        2 => {
            let d = src.pick(&dirs).clone();
            let (n, b) = asset(src, &d);
            add_asset(p, true, n.clone(), b, &w, src);
            format!("add temp/{}", n)
        }
        3 => {
            // Removal, of root templates more rarely.
            let keys: Vec<String> = p.content.keys().filter(|k| k.contains('/') || !matches!(p.content[*k], Cf::Root(_) | Cf::MdRoot(_))).cloned().collect();
            if keys.is_empty() {
                return "nothing".into();
            }
            let k = src.pick(&keys).clone();
            if src.chance(1, 4) && k.contains('/') {
                let d = format!("{}/", parent_of(&k));
                p.content.retain(|x, _| !x.starts_with(&d));
                p.dirs.retain(|x| !format!("{}/", x).starts_with(&format!("content/{}", d)));
                return format!("remove content/{}", d);
            }
            p.content.remove(&k);
            format!("remove content/{}", k)
        }
        4 => {
            let keys: Vec<String> = p.stat.keys().cloned().collect();
            if keys.is_empty() {
                return "nothing".into();
            }
            let k = src.pick(&keys).clone();
            p.stat.remove(&k);
            format!("remove static/{}", k)
        }
        5 => {
            let mut keys: Vec<String> = p.content.keys().cloned().collect();
            if src.coin() && keys.iter().any(|k| file_of(k) == "uses.json") {
                keys.retain(|k| file_of(k) == "uses.json");
            }
            if keys.is_empty() {
                return "nothing".into();
            }
            let k = src.pick(&keys).clone();
            let c = match &p.content[&k] {
                Cf::Root(_) => Cf::Root(wrap_text(src)),
                Cf::MdRoot(_) => Cf::MdRoot(wrap_text(src)),
                Cf::Page(_) | Cf::Bad(_) => Cf::Page(gen::mark(src)),
                Cf::Md(..) => Cf::Md(front(src), gen::word(src)),
                Cf::Uses(_) | Cf::Counts(_) | Cf::Env => Cf::Page(gen::mark(src)),
                Cf::Json(..) if file_of(&k) == "uses.json" => data_with_v(src),
                Cf::Json(..) => {
                    let v = gen::val(src, 2);
                    let t = v.json(src);
                    Cf::Json(v, t)
                }
                Cf::Other(_) => Cf::Other(gen::mark(src).into_bytes()),
            };
            p.content.insert(k.clone(), c);
            format!("edit content/{}", k)
        }
        6 => {
            match src.below(4) {
                0 => p.strip = Some(!p.strip.unwrap_or(true)),
                1 => p.json = Some(!p.json.unwrap_or(false)),
                2 => p.meta = Some(!p.meta.unwrap_or(false)),
                _ => p.name = gen::mark(src),
            }
            "change a setting".into()
        }
        7 => {
            let keys: Vec<String> = p.content.keys().filter(|k| matches!(p.content[*k], Cf::Page(_))).cloned().collect();
            if keys.is_empty() {
                return "nothing".into();
            }
            let k = src.pick(&keys).clone();
            p.content.insert(k.clone(), Cf::Bad("{{ $nope }}".into()));
            format!("break content/{}", k)
        }
        9 => {
            // A file where the output has another, or in its way.
            let Want::Ok(outs) = p.want() else { return "nothing".into() };
            let keys: Vec<&String> = outs.keys().filter(|k| !k.ends_with('/')).collect();
            if keys.is_empty() {
                return "nothing".into();
            }
            let k = (*src.pick(&keys)).clone();
            let n = match src.below(3) {
                0 => crate::proj::join(&k, "x.css"),
                1 if k.contains('/') => parent_of(&k).to_string(),
                _ => k,
            };
            add_asset(p, src.chance(1, 3), n.clone(), b"clash".to_vec(), &PW { clash: 100, ..w }, src);
            format!("put {} in the way", n)
        }
        _ => {
            // Repairs everything.
            for c in p.content.values_mut() {
                if let Cf::Bad(_) | Cf::Uses(_) | Cf::Counts(_) = c {
                    *c = Cf::Page("repaired".into());
                }
            }
            p.content.insert("root.html".into(), Cf::Root(wrap_text(src)));
            p.content.insert("md.html".into(), Cf::MdRoot(wrap_text(src)));
            if let Want::Fail(false, _) = p.want() {
                p.stat.clear();
                p.temp.clear();
                if let Want::Fail(false, _) = p.want() {
                    p.content.retain(|_, c| matches!(c, Cf::Root(_) | Cf::MdRoot(_)));
                }
            }
            "repair".into()
        }
    }
}

/// Everything in the project but what builds may write.
pub fn inputs(dir: &Path, outs: &[&str]) -> Files {
    let mut t = read_tree(dir, true);
    t.retain(|k, _| {
        !(k.starts_with("temp/") || k == "metadata.json" || outs.iter().any(|o| k.starts_with(&format!("{}/", o))))
    });
    t
}

pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = gen_proj(src, &PW { clash: 3, max_files: 8, bad: 1, ..PW::default() });
    let base = ctx.fresh();
    let dir = base.join("project");
    fs::create_dir_all(&dir).unwrap();
    fs::create_dir_all(dir.join("scripts/lib")).unwrap();
    fs::write(dir.join("scripts/helper.sh"), "exit 1").unwrap();
    fs::write(dir.join("notes.txt"), "keep").unwrap();
    fs::create_dir_all(dir.join("public")).unwrap();
    fs::write(dir.join("public/keep.txt"), "keep").unwrap();
    let away = base.join("away");
    let outs = ["dist", "out", "public/site"];
    let mut log: Vec<J> = vec![];
    let mut builds = 0;
    let mut good = 0;
    let mut after_fail = false;
    let mut last: BTreeMap<PathBuf, ()> = BTreeMap::new();
    let steps = src.usize(1, 5 + src.size / 2);
    for step in 0..steps {
        let n = if step == 0 { 0 } else { src.usize(0, 4) };
        let mut done: Vec<String> = vec![];
        for _ in 0..n {
            done.push(edit(src, &mut p, true));
        }
        sync(&p, &dir);
        if src.chance(1, 6) {
            // Someone writes into the output directory.
            let d = dir.join("dist");
            if d.is_dir() {
                fs::create_dir_all(d.join("stale")).unwrap();
                fs::write(d.join("stale/old.html"), "old").unwrap();
                fs::write(d.join("zzz.html"), "old").unwrap();
                let odd = d.join(match src.below(3) {
                    0 => src.pick(&[".git", ".gitignore", ".nojekyll", "CNAME", ".htaccess", "node_modules", ".well-known"]).to_string(),
                    _ => name_of_parts(src),
                });
                if !odd.exists() {
                    if src.coin() {
                        fs::create_dir_all(odd.join("objects")).unwrap();
                        fs::write(odd.join("HEAD"), "old").unwrap();
                    } else {
                        fs::write(odd, "old").unwrap();
                    }
                }
                done.push("put files into dist".into());
            }
        }
        if src.chance(1, 6) {
            // Output directories which hold the inputs, or lie within them: the inputs come first.
            let whole = dir.to_str().unwrap().to_string();
            let inside: Vec<String> = p.dirs.iter().cloned().collect();
            let arg = match src.below(6) {
                0 => src.pick(&[".", "./", "..", "../", "../project", "public/..", "dist/.."]).to_string(),
                1 => src.pick(&["content", "content/", "./content", "public/../content", "../project/content/."]).to_string(),
                2 => src.pick(&["static", "static/", "scripts", "scripts/lib", "../project/scripts"]).to_string(),
                3 => src.pick(&["content/zz-out", "static/zz-out", "scripts/zz-out"]).to_string(),
                4 if !inside.is_empty() => src.pick(&inside).clone(),
                _ => format!("{}{}", whole, src.pick(&["", "/content", "/static", "/scripts", "/"])),
            };
            if !arg.starts_with("temp") {
                let before = inputs(&dir, &outs);
                let before_outs: Vec<Files> = outs.iter().map(|d| read_tree(&dir.join(d), true)).collect();
                let r = cli::stuart(ctx, &dir, &["build", "-o", &arg], &cli::Env::default());
                done.push(format!("stuart build -o {}", arg));
                o.class("output among the inputs");
                let at = |m: String| format!("step {} (-o {}): {}", step + 1, arg, m);
                if let Some(d) = diff(&before, &inputs(&dir, &outs)) {
                    log.push(json!(done));
                    o.fail("inputs", at(format!("the build changes the project: {}\n{}", d, r.describe())));
                    break;
                }
                if !r.ok() && !r.clean_error() {
                    log.push(json!(done));
                    o.fail("crash", at(r.describe()));
                    break;
                }
                if let Some(d) = outs.iter().zip(&before_outs).find_map(|(d, f)| diff(f, &read_tree(&dir.join(d), true))) {
                    log.push(json!(done));
                    o.fail("other output", at(format!("the build changes another output: {}", d)));
                    break;
                }
                // It may have used the temporary files up.
                sync(&p, &dir);
            }
        }
        let bench = src.chance(1, 8);
        let (out, arg): (PathBuf, Option<String>) = if bench {
            (dir.join("dist"), None)
        } else {
            match src.weighted(&[70, 10, 8, 6, 6]) {
                0 => (dir.join("dist"), None),
                1 => (dir.join("out"), Some("out".into())),
                2 => (dir.join("public/site"), Some("public/site".into())),
                3 => (away.clone(), Some(away.to_str().unwrap().into())),
                _ => (dir.join("dist"), Some("./dist/".into())),
            }
        };
        let iters = src.usize(1, 3);
        let want = p.want();
        if let Want::Unspecified = want {
            done.push("(unspecified)".into());
            log.push(json!(done));
            // Not built; the next edits may resolve it.
            continue;
        }
        let mut args: Vec<String> = vec![];
        if bench {
            args.extend(["bench".into(), "-i".into(), iters.to_string()]);
        } else {
            args.push("build".into());
            if let Some(a) = &arg {
                args.extend(["-o".into(), a.clone()]);
            }
        }
        done.push(format!("stuart {}", args.join(" ")));
        log.push(json!(done));
        let before_in = inputs(&dir, &outs);
        let before_out = read_tree(&out, true);
        let others: Vec<(PathBuf, Files)> = outs
            .iter()
            .map(|d| dir.join(d))
            .chain([away.clone()])
            .filter(|d| *d != out)
            .map(|d| (d.clone(), read_tree(&d, true)))
            .collect();
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = cli::stuart(ctx, &dir, &a, &cli::Env::default());
        builds += 1;
        let at = |m: String| format!("step {}: {}", step + 1, m);
        if let Some(d) = diff(&before_in, &inputs(&dir, &outs)) {
            o.fail("inputs", at(format!("the build changes the project: {}\n{}", d, r.describe())));
            break;
        }
        if let Some((d, f)) = others.iter().find_map(|(d, f)| diff(f, &read_tree(d, true)).map(|x| (d, x))) {
            o.fail("other output", at(format!("the build changes {}: {}", d.display(), f)));
            break;
        }
        match want {
            Want::Ok(mut want) => {
                if bench && iters > 1 {
                    // The first build used the temporary files up.
                    let mut q = p.clone();
                    q.temp.clear();
                    match q.want() {
                        Want::Ok(w) => want = w,
                        _ => unreachable!(),
                    }
                }
                if !r.ok() {
                    o.fail("rejected", at(r.describe()));
                    break;
                }
                if let Some(d) = diff(&want, &read_tree(&out, true)) {
                    o.fail("stale", at(format!("the output is not that of the current files: {}", d)));
                    break;
                }
                if dir.join("temp").exists() {
                    o.fail("temp", at("the temporary directory is still there".into()));
                    break;
                }
                if p.meta == Some(true) {
                    let mut q = p.clone();
                    if bench && iters > 1 {
                        q.temp.clear();
                    }
                    let t = fs::read(dir.join("metadata.json")).unwrap_or_default();
                    let mut errs = vec![];
                    match serde_json::from_slice::<J>(&t) {
                        Ok(j) => layout::compare(&q.metadata(), &j["data"], "", &mut errs),
                        Err(e) => errs.push(e.to_string()),
                    }
                    if !errs.is_empty() {
                        o.fail("metadata", at(errs.join("; ")));
                        break;
                    }
                }
                p.temp.clear();
                p.dirs.retain(|d| !d.starts_with("temp/"));
                good += 1;
                if last.insert(out.clone(), ()).is_some() {
                    o.class("rebuilt");
                }
                o.class_if(after_fail, "succeeds after a failure");
                after_fail = false;
                o.class_if(bench, "several builds in one process");
            }
            Want::Fail(content, why) => {
                if r.ok() {
                    o.fail("accepted", at(format!("the build succeeds although {}", why)));
                    break;
                }
                if !r.clean_error() {
                    o.fail("crash", at(r.describe()));
                    break;
                }
                if let Some(d) = diff(&before_out, &read_tree(&out, true)) {
                    o.fail("lost output", at(format!("a failed build ({}) changes the output: {}", why, d)));
                    break;
                }
                if !before_out.is_empty() {
                    o.class(if content { "failure keeps output" } else { "conflict keeps output" });
                }
                after_fail = true;
            }
            Want::Unspecified => unreachable!(),
        }
    }
    o.nontrivial = builds >= 2 && good >= 1;
    o.hash = fnv(p.hash(), J::Array(log.clone()).to_string().as_bytes());
    let mut show = p.show();
    show["(history)"] = J::Array(log);
    o.show = show;
    o
}
