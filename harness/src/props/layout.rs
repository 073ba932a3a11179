//! C13: the output directory holds exactly the files the project defines.
//! C14: two sources for one output path fail the build.
//! C17: the metadata mirrors the built tree.

use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::Value as J;

fn is_page(c: &Cf) -> bool {
    matches!(c, Cf::Page(_) | Cf::Md(..) | Cf::Uses(_) | Cf::Counts(_) | Cf::Env)
}

/// Builds the project at the command line, with some files replaced by links to them.
fn build(p: &Proj, src: &mut Src, ctx: &mut Ctx, o: &mut Outcome) -> (std::path::PathBuf, cli::Ran) {
    let base = ctx.fresh();
    let dir = base.join("project");
    p.write(&dir);
    if src.chance(1, 6) {
        // A link to a file or directory stands for what it points to.
        let files: Vec<String> = p.files().keys().filter(|f| *f != "stuart.toml" && !f.starts_with("temp/")).cloned().collect();
        if !files.is_empty() {
            let mut f = src.pick(&files).clone();
            if src.coin() && parent_of(&f).contains('/') {
                f = parent_of(&f).to_string();
            }
            let away = base.join("elsewhere").join(file_of(&f));
            std::fs::create_dir_all(base.join("elsewhere")).unwrap();
            std::fs::rename(dir.join(&f), &away).unwrap();
            std::os::unix::fs::symlink(&away, dir.join(&f)).unwrap();
            o.class("linked");
        }
    }
    if src.chance(1, 5) {
        // An older output directory.
        let old = dir.join("dist");
        std::fs::create_dir_all(old.join("a/b/old")).unwrap();
        std::fs::write(old.join("a/b/old/stale.html"), "stale").unwrap();
        std::fs::write(old.join("index.html"), "stale").unwrap();
        o.class("old output");
    }
    let r = cli::stuart(ctx, &dir, &["build"], &cli::Env::default());
    (dir, r)
}

fn check(p: &Proj, r: &cli::Ran, dir: &std::path::Path, o: &mut Outcome) {
    match p.want() {
        Want::Unspecified => unreachable!(),
        Want::Fail(_, why) => {
            if r.ok() {
                o.fail("accepted", format!("the build succeeds although {}", why));
            } else if !r.clean_error() {
                o.fail("crash", r.describe());
            }
        }
        Want::Ok(want) => {
            if !r.ok() {
                o.fail("rejected", r.describe());
            } else {
                let got = read_tree(&dir.join("dist"), true);
                if let Some(d) = diff(&want, &got) {
                    o.fail("output", d);
                }
            }
        }
    }
}

pub fn c13(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let p = gen_proj(src, &PW { clash: 0, max_files: 6 + src.size, ..PW::default() });
    if matches!(p.want(), Want::Unspecified) {
        o.class("discarded");
        return o;
    }
    let (dir, r) = build(&p, src, ctx, &mut o);
    o.show = p.show();
    o.hash = p.hash();
    check(&p, &r, &dir, &mut o);
    let pages = p.content.values().filter(|c| is_page(c)).count();
    let others = p.content.values().filter(|c| matches!(c, Cf::Other(_) | Cf::Json(..))).count();
    if let Want::Ok(_) = p.want() {
        o.nontrivial = pages > 0 && others > 0 && !p.stat.is_empty();
        o.class("builds");
        o.class_if(p.strip == Some(false), "extensions kept");
        o.class_if(p.json == Some(true) && p.content.values().any(|c| matches!(c, Cf::Json(..))), "data files saved");
        o.class_if(!p.temp.is_empty(), "temp");
        o.class_if(!p.dirs.is_empty(), "empty directories");
        o.class_if(p.content.keys().any(|k| p.stat.keys().any(|s| parent_of(k) == parent_of(s) && parent_of(k) != "")), "united directories");
    } else {
        o.class("fails");
    }
    o
}

pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = gen_proj(src, &PW { clash: 0, max_files: 6, ..PW::default() });
    // Aims at what is there.
    let tries = src.usize(0, 3);
    for _ in 0..tries {
        let all = PW { clash: 100, ..PW::default() };
        let Want::Ok(files) = p.want() else { break };
        let outs: Vec<&String> = files.keys().filter(|k| !k.ends_with('/')).collect();
        if outs.is_empty() {
            break;
        }
        let mut t = src.pick(&outs).to_string();
        // Even equal contents are two sources.
        let bytes = if src.chance(1, 3) { files[&t].clone() } else { gen::mark(src).into_bytes() };
        match src.below(5) {
            0 if !parent_of(&t).is_empty() => t = parent_of(&t).to_string(),
            1 => t = format!("{}/{}", t, src.pick(&["x", "index.html", "a/b.txt"])),
            _ => (),
        }
        match src.below(3) {
            0 => {
                let mut n = t.clone();
                if src.coin() && n.ends_with("/index.html") {
                    n = format!("{}.html", n.strip_suffix("/index.html").unwrap());
                }
                if n.ends_with(".html") && file_of(&n) != "root.html" && file_of(&n) != "md.html" {
                    if src.coin() {
                        n = format!("{}.md", n.strip_suffix(".html").unwrap());
                        if file_of(&n) != ".md" {
                            add_content(&mut p, n, Cf::Md(vec![], gen::word(src)), &all, src);
                        }
                    } else if file_of(&n) != ".html" {
                        add_content(&mut p, n, Cf::Page(gen::mark(src)), &all, src);
                    }
                } else if !n.ends_with(".json") && !n.ends_with(".md") && !n.ends_with(".html") {
                    add_content(&mut p, n, Cf::Other(bytes), &all, src);
                }
            }
            1 => add_asset(&mut p, false, t, bytes, &all, src),
            _ => add_asset(&mut p, true, t, bytes, &all, src),
        }
    }
    o.hash = p.hash();
    o.show = p.show();
    match p.want() {
        Want::Unspecified | Want::Fail(true, _) => {
            o.class("discarded");
            return o;
        }
        Want::Fail(false, why) => {
            o.nontrivial = true;
            o.class(if why.contains("two sources") { "same path" } else { "file and directory" });
        }
        Want::Ok(_) => {
            let shared = p.content.keys().chain(p.stat.keys()).chain(p.temp.keys()).filter(|k| k.contains('/')).count();
            o.nontrivial = shared >= 2 && (!p.stat.is_empty() || !p.temp.is_empty());
            o.class("no conflict");
        }
    }
    let (dir, r) = build(&p, src, ctx, &mut o);
    check(&p, &r, &dir, &mut o);
    o
}

// ---------------------------------------------------------------- metadata

pub fn compare(want: &Meta, got: &J, path: &str, errs: &mut Vec<String>) {
    let Meta::Dir(want) = want else { unreachable!() };
    let Some(got) = got.as_array() else {
        errs.push(format!("the children of {:?} are not an array: {}", path, got));
        return;
    };
    let mut left: Vec<&J> = got.iter().collect();
    for (name, m) in want {
        let is = |j: &J| {
            j["name"].as_str() == Some(name)
                && match m {
                    Meta::Dir(_) => j["type"] == "directory",
                    _ => j["type"] != "directory",
                }
                && match m {
                    Meta::File("template", _) => j["type"] == "file",
                    _ => true,
                }
        };
        let Some(i) = left.iter().position(|j| is(j)) else {
            // Templates are no part of the output; whether they are listed is left open.
            if !matches!(m, Meta::File("template", _)) {
                errs.push(format!("{}{} is not in the metadata", path, name));
            }
            continue;
        };
        let j = left.remove(i);
        let keys: Vec<&String> = j.as_object().map(|o| o.keys().collect()).unwrap_or_default();
        match m {
            Meta::Dir(_) => compare(m, &j["children"], &format!("{}{}/", path, name), errs),
            Meta::File("markdown", v) | Meta::File("json", v) => {
                let kind = if let Meta::File(k, _) = m { *k } else { "" };
                if j["type"] != kind {
                    errs.push(format!("{}{} has the type {} instead of {}", path, name, j["type"], kind));
                }
                if !same(v, &j["value"]) || j.get("value").is_none() {
                    errs.push(format!("{}{} has the value {} instead of {}", path, name, j["value"], v));
                }
                if keys.len() != 3 {
                    errs.push(format!("{}{} has the keys {:?}", path, name, keys));
                }
            }
            Meta::File(..) => {
                if j["type"] != "file" || keys.len() != 2 {
                    errs.push(format!("{}{} is listed as {} instead of a file", path, name, j));
                }
            }
        }
    }
    for j in left {
        errs.push(format!("{} is in the metadata of {:?}", clip(&j.to_string(), 200), path));
    }
}

/// Equality of JSON values, numbers by value.
pub fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x.as_f64() == y.as_f64(),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        _ => a == b,
    }
}

pub fn c17(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = gen_proj(src, &PW { clash: 0, max_files: 6 + src.size, ..PW::default() });
    if src.chance(7, 10) {
        p.meta = Some(true);
    }
    let Want::Ok(want) = p.want() else {
        o.class("discarded");
        return o;
    };
    o.hash = p.hash();
    o.show = p.show();
    let (dir, r) = build(&p, src, ctx, &mut o);
    if !r.ok() {
        o.fail("rejected", r.describe());
        return o;
    }
    if let Some(d) = diff(&want, &read_tree(&dir.join("dist"), true)) {
        o.fail("output", format!("the output directory: {}", d));
        return o;
    }
    let file = dir.join("metadata.json");
    if p.meta != Some(true) {
        o.class("not wanted");
        if file.exists() {
            o.fail("written", "metadata.json exists without save_metadata");
        }
        return o;
    }
    o.nontrivial = p.content.values().any(|c| matches!(c, Cf::Md(..) | Cf::Json(..)));
    o.class_if(p.content.values().any(|c| matches!(c, Cf::Md(f, _) if !f.is_empty())), "frontmatter");
    o.class_if(p.content.values().any(|c| matches!(c, Cf::Json(..))), "data");
    o.class_if(!p.stat.is_empty() || !p.temp.is_empty(), "assets");
    let t = match std::fs::read(&file) {
        Ok(t) => t,
        Err(e) => {
            o.fail("missing", format!("metadata.json: {}", e));
            return o;
        }
    };
    let j: J = match serde_json::from_slice(&t) {
        Ok(j) => j,
        Err(e) => {
            o.fail("syntax", format!("metadata.json is no JSON: {}: {}", e, clip(&text(&t), 2000)));
            return o;
        }
    };
    let mut errs = vec![];
    if j["name"].as_str() != Some(&p.name) {
        errs.push(format!("the name is {} instead of {:?}", j["name"], p.name));
    }
    match &p.author {
        Some(a) if j["author"].as_str() == Some(a) => (),
        None if j["author"].is_null() => (),
        a => errs.push(format!("the author is {} instead of {:?}", j["author"], a)),
    }
    if j.as_object().map_or(0, |o| o.keys().filter(|k| !["name", "author", "data"].contains(&k.as_str())).count()) > 0 {
        errs.push("there are other keys".into());
    }
    compare(&p.metadata(), &j["data"], "", &mut errs);
    if !errs.is_empty() {
        o.fail("metadata", format!("{}\n{}", errs.join("; "), clip(&text(&t), 3000)));
    }
    o
}
