//! C32: the virtual filesystem tree mirrors the directory it was read from.

use super::layout;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use stuart_core::error::FsError;
use stuart_core::fs::ParsedContents;
use stuart_core::{Config, Error, Node, Stuart};

/// The tree below a node, by the paths within it. The trailing slash is that of directories.
fn walk<'a>(n: &'a Node, at: &str, out: &mut BTreeMap<String, &'a Node>, errs: &mut Vec<String>) {
    for c in n.children().unwrap_or(&[]) {
        if c.is_dir() == c.is_file() {
            errs.push(format!("{:?} is both a file and a directory, or neither", c.name()));
        }
        let p = format!("{}{}{}", at, c.name(), if c.is_dir() { "/" } else { "" });
        if out.insert(p.clone(), c).is_some() {
            errs.push(format!("{:?} is in the tree twice", p));
        }
        walk(c, &p, out, errs);
    }
}

fn kind(c: &ParsedContents) -> &'static str {
    match c {
        ParsedContents::Html(_) => "template",
        ParsedContents::Markdown(_) => "Markdown",
        ParsedContents::Json(_) => "JSON",
        ParsedContents::Custom(_) => "plugin",
        ParsedContents::None => "nothing",
        ParsedContents::Ignored => "ignored",
    }
}

fn expected_kind(path: &str, parse: bool) -> &'static str {
    let name = file_of(path);
    // A name which only has a leading dot has no extension.
    let ext = name.rfind('.').filter(|i| *i > 0).map(|i| &name[i + 1..]);
    match ext {
        _ if !parse => "ignored",
        Some("html") => "template",
        Some("md") => "Markdown",
        Some("json") => "JSON",
        _ => "nothing",
    }
}

/// Whether the tree is that of these files and directories, which are at `root`.
fn same(n: &Node, want: &Files, root: &Path, parse: bool, errs: &mut Vec<String>) {
    let mut tree = BTreeMap::new();
    walk(n, "", &mut tree, errs);
    for (p, b) in want {
        let Some(c) = tree.get(p) else {
            errs.push(format!("{:?} is not in the tree", p));
            continue;
        };
        if c.source() != root.join(p.trim_end_matches('/')) {
            errs.push(format!("{:?} comes from {:?}", p, c.source()));
        }
        if p.ends_with('/') {
            if c.contents().is_some() || c.children().is_none() || kind(c.parsed_contents()) != "nothing" {
                errs.push(format!("the directory {:?} is {:?}", p, c));
            }
            continue;
        }
        if c.contents() != Some(&b[..]) || c.children().is_some() {
            errs.push(format!("{:?} is {:?} instead of {:?}", p, c.contents().map(text), text(b)));
        }
        let (k, e) = (kind(c.parsed_contents()), expected_kind(p, parse));
        if k != e {
            errs.push(format!("{:?} is parsed as {} instead of {}", p, k, e));
        }
        let p = c.parsed_contents();
        if p.is_ignored() != (e == "ignored") || p.tokens().is_some() != (e == "template") || p.markdown().is_some() != (e == "Markdown") {
            errs.push(format!("{:?} is not what it is parsed as, {}", c.name(), e));
        }
    }
    for p in tree.keys() {
        if !want.contains_key(p) {
            errs.push(format!("{:?} is in the tree", p));
        }
    }
}

/// Looks things up.
fn look_up(n: &Node, want: &Files, src: &mut Src, errs: &mut Vec<String>) -> usize {
    let find = |p: &str| n.get_at_path(Path::new(p)).map(|n| n as *const Node);
    let mut tree = BTreeMap::new();
    walk(n, "", &mut tree, &mut vec![]);
    let mut k = 0;
    let paths: Vec<&String> = want.keys().collect();
    for (p, c) in &tree {
        let bare = p.trim_end_matches('/');
        let is = Some(*c as *const Node);
        let mut ways = vec![bare.to_string(), format!("./{}", bare), bare.replace('/', "//"), bare.replace('/', "/./")];
        if c.is_dir() {
            ways.extend([p.to_string(), format!("{}/", p), format!("{}.", p)]);
        }
        for w in ways {
            if find(&w) != is {
                errs.push(format!("{:?} gives {:?}", w, n.get_at_path(Path::new(&w)).map(|n| n.source())));
            }
        }
        k += 1;
    }
    for p in ["", ".", "./", "./."] {
        if find(p) != Some(n as *const Node) {
            errs.push(format!("{:?} does not give the tree itself", p));
        }
    }
    for _ in 0..4 {
        let p = match paths.is_empty() {
            true => "a".to_string(),
            false => src.pick(&paths).trim_end_matches('/').to_string(),
        };
        let q = match src.below(9) {
            0 => format!("/{}", p),
            1 => format!("{}/../{}", p, file_of(&p)),
            2 => format!("../{}/{}", n.name(), p),
            3 => format!("{}/{}", p, gen::word(src)),
            4 => format!("{}{}", p, src.pick(&["x", " ", ".html", "~"])),
            5 => p.to_uppercase(),
            6 => p.chars().take(p.chars().count() / 2).collect(),
            7 => format!("{}/{}", n.name(), p),
            _ => file_of(&p).to_string(),
        };
        let norm: Vec<&str> = q.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        let norm = norm.join("/");
        let there = norm.is_empty() || want.contains_key(&norm) || want.contains_key(&format!("{}/", norm));
        if q.starts_with('/') || q.contains("..") || !there {
            // Names of two dots alone are not names.
            if (q.starts_with('/') || q.split('/').any(|c| c == "..") || !there) && find(&q).is_some() {
                errs.push(format!("{:?} gives {:?}", q, n.get_at_path(Path::new(&q)).map(|n| n.source())));
            }
            k += 1;
        }
    }
    k
}

/// A tree of files and directories which need not make a site.
fn tree(src: &mut Src, w: &PW, parse: bool) -> (Proj, Files) {
    let mut p = gen_proj(src, w);
    p.stat.clear();
    p.temp.clear();
    p.dirs.retain(|d| d.starts_with("content/"));
    if src.chance(1, 3) {
        p.content.remove("root.html");
    }
    let mut f: Files = p.content.iter().map(|(k, c)| (k.clone(), c.bytes())).collect();
    if !parse && src.chance(1, 3) {
        let d = *src.pick(DIRS);
        let n = join(d, src.pick(&["raw.html", "raw.md", "raw.json"]));
        if fits(f.keys(), &n) && !p.dirs.iter().any(|d| d.starts_with(&format!("content/{}", n))) {
            f.insert(n, src.pick(&[&b"{{ "[..], b"\xff\xfe", b"", b"---\nx", b"{\"a\":"]).to_vec());
        }
    }
    (p, f)
}

/// Every directory of these, with a trailing slash.
fn with_dirs(f: &Files, dirs: &BTreeSet<String>) -> Files {
    let mut out = f.clone();
    let paths: Vec<String> = f.keys().cloned().chain(dirs.iter().map(|d| format!("{}/", &d["content/".len()..]))).collect();
    for p in paths {
        for (i, _) in p.match_indices('/') {
            out.insert(p[..i + 1].to_string(), vec![]);
        }
    }
    out
}

fn put(dir: &Path, all: &Files) {
    fs::create_dir_all(dir).unwrap();
    for p in all.keys().filter(|p| p.ends_with('/')) {
        fs::create_dir_all(dir.join(p)).unwrap();
    }
    let files: Files = all.iter().filter(|(p, _)| !p.ends_with('/')).map(|(p, b)| (p.clone(), b.clone())).collect();
    write_files(dir, &files);
}

fn any_config(src: &mut Src) -> Config {
    Config { strip_extensions: src.coin(), save_data_files: src.coin(), save_metadata: src.coin(), ..Config::default() }
}

pub fn c32(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = PW { max_files: 4 + src.size, clash: 20, bad: 0, temp: false };
    let parse = src.coin();
    let base = ctx.fresh();
    fs::create_dir_all(&base).unwrap();
    let base = base.canonicalize().unwrap();
    let name = src.pick(&["content", "a b", "é", "x.html", "root.html", "md.html", ".hid", "a.json", "temp"]).to_string();
    let dir = base.join(&name);
    let (proj, mut files) = tree(src, &w, parse);
    // Names of a leading dot alone, which are no extensions: what they hold isn't parsed.
    let mut hidden = false;
    if src.chance(1, 4) {
        let n = join(*src.pick(DIRS), src.pick(&[".html", ".md", ".json"]));
        if fits(files.keys(), &n) && !proj.dirs.iter().any(|d| d.starts_with(&format!("content/{}", n))) {
            files.insert(n, src.pick(&[&b"{{ "[..], b"\xff\xfe", b"", b"---\nx", b"{\"a\":", b"a"]).to_vec());
            hidden = true;
        }
    }
    o.class_if(hidden && parse, "hidden");
    let want = with_dirs(&files, &proj.dirs);
    put(&dir, &want);
    // Some lie elsewhere, under other names.
    let mut links = vec![];
    for (i, p) in want.keys().enumerate() {
        let p = p.trim_end_matches('/');
        if src.chance(1, 12) && !links.iter().any(|l: &String| p.starts_with(&format!("{}/", l))) {
            let to = base.join("elsewhere").join(i.to_string());
            fs::create_dir_all(&to).unwrap();
            let to = to.join(src.pick(&["x", "x.html", "x.md", "x.json", ".x", "content"]));
            fs::rename(dir.join(p), &to).unwrap();
            std::os::unix::fs::symlink(&to, dir.join(p)).unwrap();
            links.push(p.to_string());
        }
    }
    o.class_if(!links.is_empty(), "links");
    let mut errs = vec![];
    let mut shown: Vec<J> = vec![json!({ "name": name, "parse": parse, "links": links }), show_files(&want)];
    let mut checks = 0;
    let path: PathBuf = match src.below(5) {
        0 => dir.join("."),
        1 => base.join(format!("../{}/{}/", base.file_name().unwrap().to_string_lossy(), name)),
        2 => {
            std::os::unix::fs::symlink(&dir, base.join("link")).unwrap();
            base.join("link")
        }
        _ => dir.clone(),
    };
    shown.push(json!(path.display().to_string()));
    match guard(|| Node::new(&path, parse)) {
        Err(p) => o.fail("panic", p),
        Ok(Err(e)) => o.fail("rejected", format!("{:?}", e)),
        Ok(Ok(n)) => {
            if n.name() != name || n.source() != dir || !n.is_dir() {
                errs.push(format!("the tree is {:?} from {:?}", n.name(), n.source()));
            }
            same(&n, &want, &dir, parse, &mut errs);
            checks += look_up(&n, &want, src, &mut errs);
            if !errs.is_empty() {
                o.fail("tree", errs.join("\n"));
            }
            if !parse && o.fail.is_none() {
                two(n, &want, &base, &w, src, &mut o, &mut shown);
            } else if parse && !hidden && o.fail.is_none() {
                built(&path, &proj, &want, &dir, src, &mut o, &mut shown);
            }
        }
    }
    // What is not a directory.
    if o.fail.is_none() && src.chance(1, 6) {
        let bad = match src.below(3) {
            0 => {
                fs::write(base.join("file"), "x").unwrap();
                base.join("file")
            }
            1 => base.join("nothing"),
            _ => base.join("nothing/at all"),
        };
        match guard(|| Node::new(&bad, parse)) {
            Err(p) => o.fail("panic", p),
            Ok(Err(Error::Fs(FsError::NotFound(p)))) if p == bad.to_string_lossy() => o.class("nothing there"),
            Ok(r) => o.fail("nothing there", format!("{:?} gives {:?}", bad, r.map(|n| n.source().to_path_buf()))),
        }
    }
    o.show = json!(shown);
    o.hash = fnv(32, o.show.to_string().as_bytes());
    o.nontrivial = checks >= 3;
    o
}

/// Saving a tree which was not parsed, and merging two.
fn two(mut n: Node, want: &Files, base: &Path, w: &PW, src: &mut Src, o: &mut Outcome, shown: &mut Vec<J>) {
    let out = base.join("out");
    let c = any_config(src);
    if src.coin() {
        write_files(&out, &Files::from([("old/x".to_string(), vec![]), ("index.html".to_string(), b"old".to_vec())]));
    }
    match guard(|| n.save(&out, &c)) {
        Err(p) => o.fail("panic", p),
        Ok(Err(e)) => o.fail("not saved", format!("{:?}", e)),
        Ok(Ok(())) => {
            o.class("saved");
            if let Some(d) = diff(want, &read_tree(&out, true)) {
                o.fail("saved otherwise", d);
            }
        }
    }
    if o.fail.is_some() {
        return;
    }
    // Another, which may have some of its files and directories.
    let (p, f) = tree(src, &PW { max_files: 4, ..*w }, false);
    let mut other = with_dirs(&f, &p.dirs);
    if src.coin() {
        other.retain(|k, _| !want.contains_key(k) || k.ends_with('/'));
        let all: Vec<String> = other.keys().cloned().collect();
        other = with_dirs(&other, &BTreeSet::new());
        other.retain(|k, _| all.contains(k) || k.ends_with('/'));
    }
    shown.push(show_files(&other));
    let from = base.join("other");
    put(&from, &other);
    let bare = |f: &Files| f.keys().map(|k| k.trim_end_matches('/').to_string()).collect::<BTreeSet<_>>();
    let (a, b) = (bare(want), bare(&other));
    // Those are in conflict of which one at least is a file.
    let clashes: BTreeSet<String> = a.intersection(&b).filter(|k| want.contains_key(*k) || other.contains_key(*k)).cloned().collect();
    match guard(|| Node::new(&from, false).and_then(|m| n.merge(m))) {
        Err(p) => o.fail("panic", p),
        Ok(Err(Error::Fs(FsError::Conflict(x, y)))) => {
            o.class("conflict");
            let mut of = [x, y];
            of.sort();
            let named = |k: &String| {
                let mut two = [n.source().join(k), from.join(k)];
                two.sort();
                two == of
            };
            if !clashes.iter().any(named) {
                o.fail("conflict", format!("of {:?}, and not one of {:?}", of, clashes));
            }
        }
        Ok(Err(e)) => o.fail("not merged", format!("{:?}", e)),
        Ok(Ok(())) if !clashes.is_empty() => o.fail("merged", format!("although both have {:?}", clashes)),
        Ok(Ok(())) => {
            o.class("merged");
            let mut all = want.clone();
            all.extend(other);
            let mut errs = vec![];
            let mut tree = BTreeMap::new();
            walk(&n, "", &mut tree, &mut errs);
            for (k, b) in &all {
                if !tree.get(k).map_or(false, |t| k.ends_with('/') || t.contents() == Some(&b[..])) {
                    errs.push(format!("{:?} is lost or changed", k));
                }
            }
            errs.extend(tree.keys().filter(|k| !all.contains_key(*k)).map(|k| format!("{:?} is in the tree", k)));
            if !errs.is_empty() {
                o.fail("merged tree", errs.join("\n"));
                return;
            }
            match guard(|| n.save(&out, &c)) {
                Err(p) => o.fail("panic", p),
                Ok(Err(e)) => o.fail("not saved", format!("{:?}", e)),
                Ok(Ok(())) => {
                    if let Some(d) = diff(&all, &read_tree(&out, true)) {
                        o.fail("saved otherwise", d);
                    }
                }
            }
        }
    }
}

/// The trees which a builder shows.
fn built(path: &Path, proj: &Proj, want: &Files, dir: &Path, src: &mut Src, o: &mut Outcome, shown: &mut Vec<J>) {
    let mut p = proj.clone();
    p.env = "production".into();
    let c = any_config(src);
    shown.push(json!(format!("{:?}", c)));
    let mut s = Stuart::new(path).with_config(c);
    match (guard(|| s.build(p.env.clone())), p.content.keys().all(|k| p.render(k).is_ok())) {
        (Err(e), _) => return o.fail("panic", e),
        (Ok(Ok(())), true) => o.class("built"),
        (Ok(Ok(())), false) => return o.fail("accepted", "a page is at fault"),
        (Ok(Err(_)), false) => return,
        (Ok(Err(e)), true) => return o.fail("rejected", format!("{:?}", e)),
    }
    let mut errs = vec![];
    match &s.input {
        None => errs.push("there is no input".to_string()),
        Some(n) => {
            same(n, want, dir, true, &mut errs);
            look_up(n, want, src, &mut errs);
            let mut tree = BTreeMap::new();
            walk(n, "", &mut tree, &mut errs);
            for (k, c) in &p.content {
                if let (Cf::Json(v, _), Some(ParsedContents::Json(j))) = (c, tree.get(k).map(|n| n.parsed_contents())) {
                    let j: Option<J> = serde_json::from_str(&j.serialize()).ok();
                    if !j.as_ref().map_or(false, |j| layout::same(&v.to_serde(), j)) {
                        errs.push(format!("{:?} is {:?} instead of {}", k, j, v.to_serde()));
                    }
                }
            }
        }
    }
    match &s.output {
        None => errs.push("there is no output".to_string()),
        Some(n) => {
            // Every file has given one, under its new name, with its contents.
            let mut by: BTreeMap<PathBuf, &Node> = BTreeMap::new();
            fn files<'a>(n: &'a Node, at: &str, by: &mut BTreeMap<PathBuf, &'a Node>, errs: &mut Vec<String>, places: &mut BTreeMap<PathBuf, String>) {
                for c in n.children().unwrap_or(&[]) {
                    if by.insert(c.source().to_path_buf(), c).is_some() {
                        errs.push(format!("{:?} has two outputs", c.source()));
                    }
                    let at = format!("{}{}", at, c.name());
                    places.insert(c.source().to_path_buf(), at.clone());
                    files(c, &format!("{}/", at), by, errs, places);
                }
            }
            let mut places = BTreeMap::new();
            files(n, "", &mut by, &mut errs, &mut places);
            let mut left = want.len();
            for k in want.keys() {
                let bare = k.trim_end_matches('/');
                if matches!(p.content.get(k), Some(Cf::Root(_) | Cf::MdRoot(_))) {
                    // What becomes of templates is not said.
                    by.remove(&dir.join(k));
                    left -= 1;
                    continue;
                }
                let Some(c) = by.get(&dir.join(bare)) else {
                    errs.push(format!("{:?} has no output", k));
                    continue;
                };
                let place = &places[&dir.join(bare)];
                if k.ends_with('/') {
                    if c.is_file() || place != bare {
                        errs.push(format!("the directory {:?} becomes {:?}", k, place));
                    }
                    continue;
                }
                let cf = &p.content[k];
                if *place != Proj::tree_name(k, cf) {
                    errs.push(format!("{:?} becomes {:?}", k, place));
                }
                let body = p.render(k).unwrap_or_default();
                if c.contents() != Some(&body[..]) {
                    errs.push(format!("{:?} gives {:?} instead of {:?}", k, c.contents().map(text), text(&body)));
                }
            }
            if by.len() != left {
                errs.push(format!("{} outputs of {} inputs", by.len(), left));
            }
        }
    }
    if !errs.is_empty() {
        o.fail("trees of the builder", errs.join("\n"));
    }
}
