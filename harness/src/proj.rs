//! Whole projects of simple files, and a model of what building them puts in the output directory.

use crate::engine::Src;
use crate::gen;
use crate::site::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// A file of the content directory.
#[derive(Clone, Debug, PartialEq)]
pub enum Cf {
    /// A root template, which wraps the section `a` in this text.
    Root(String),
    /// A Markdown template, which wraps the rendered body in this text.
    MdRoot(String),
    /// An HTML page whose section `a` is this text.
    Page(String),
    /// A Markdown page of one word, with frontmatter.
    Md(Vec<(String, String)>, String),
    Json(gen::Val, String),
    Other(Vec<u8>),
    /// A page which cannot be built.
    Bad(String),
    /// A page that shows the `v` of a data file.
    Uses(String),
    /// A page with an `x` for each Markdown file of a directory.
    Counts(String),
    /// A page that shows the environment of the build.
    Env,
}

impl Cf {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Cf::Root(t) => format!("{}{{{{ insert(\"a\") }}}}{}", t, t).into_bytes(),
            Cf::MdRoot(t) => format!("{{{{ begin(\"a\") }}}}{}{{{{ $self.content }}}}{}{{{{ end(\"a\") }}}}", t, t).into_bytes(),
            Cf::Page(t) => format!("{{{{ begin(\"a\") }}}}{}{{{{ end(\"a\") }}}}", t).into_bytes(),
            Cf::Uses(p) => format!("{{{{ import($d, \"{}\") }}}}{{{{ begin(\"a\") }}}}{{{{ $d.v }}}}{{{{ end(\"a\") }}}}", p).into_bytes(),
            Cf::Counts(d) => {
                format!("{{{{ begin(\"a\") }}}}{{{{ for($p, \"{}/\") }}}}x{{{{ end(for) }}}}{{{{ end(\"a\") }}}}", d).into_bytes()
            }
            Cf::Env => b"{{ begin(\"a\") }}{{ $env.STUART_ENV }}{{ end(\"a\") }}".to_vec(),
            Cf::Md(f, t) => {
                if f.is_empty() {
                    return format!("{}\n", t).into_bytes();
                }
                let mut s = "---\n".to_string();
                for (k, v) in f {
                    s.push_str(&format!("{}: \"{}\"\n", k, v));
                }
                s.push_str(&format!("---\n\n{}\n", t));
                s.into_bytes()
            }
            Cf::Json(_, t) => t.clone().into_bytes(),
            Cf::Other(b) => b.clone(),
            Cf::Bad(t) => t.clone().into_bytes(),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Proj {
    pub content: BTreeMap<String, Cf>,
    pub stat: Files,
    pub temp: Files,
    /// Directories which are made even if nothing is in them, like `content/a/b`.
    pub dirs: BTreeSet<String>,
    pub strip: Option<bool>,
    pub json: Option<bool>,
    pub meta: Option<bool>,
    pub name: String,
    pub author: Option<String>,
    /// The environment it is built in.
    pub env: String,
}

#[derive(Clone, Debug)]
pub enum Want {
    /// The output directory, with its directories.
    Ok(Files),
    /// The build must fail: whether nothing may have been written, and why.
    Fail(bool, String),
    Unspecified,
}

pub fn parent_of(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}

pub fn file_of(p: &str) -> &str {
    p.rfind('/').map(|i| &p[i + 1..]).unwrap_or(p)
}

fn ancestors(p: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = parent_of(p);
    while !d.is_empty() {
        out.push(d.to_string());
        d = parent_of(d);
    }
    out
}

fn toml_str(s: &str) -> String {
    let mut o = "\"".to_string();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Proj {
    pub fn manifest(&self) -> Vec<u8> {
        let mut s = format!("[site]\nname = {}\n", toml_str(&self.name));
        if let Some(a) = &self.author {
            s.push_str(&format!("author = {}\n", toml_str(a)));
        }
        let set = [("strip_extensions", self.strip), ("save_data_files", self.json), ("save_metadata", self.meta)];
        if set.iter().any(|(_, v)| v.is_some()) {
            s.push_str("\n[settings]\n");
            for (k, v) in set {
                if let Some(v) = v {
                    s.push_str(&format!("{} = {}\n", k, v));
                }
            }
        }
        s.into_bytes()
    }

    /// Every file of the project, below its directory.
    pub fn files(&self) -> Files {
        let mut f = Files::new();
        f.insert("stuart.toml".into(), self.manifest());
        for (p, c) in &self.content {
            f.insert(format!("content/{}", p), c.bytes());
        }
        for (p, b) in &self.stat {
            f.insert(format!("static/{}", p), b.clone());
        }
        for (p, b) in &self.temp {
            f.insert(format!("temp/{}", p), b.clone());
        }
        f
    }

    pub fn write(&self, dir: &Path) {
        write_files(dir, &self.files());
        std::fs::create_dir_all(dir.join("content")).unwrap();
        for d in &self.dirs {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
    }

    fn nearest(&self, dir: &str, pick: impl Fn(&Cf) -> Option<String>, name: &str) -> Option<String> {
        let mut d = dir.to_string();
        loop {
            let p = if d.is_empty() { name.to_string() } else { format!("{}/{}", d, name) };
            if let Some(t) = self.content.get(&p).and_then(&pick) {
                return Some(t);
            }
            if d.is_empty() {
                return None;
            }
            d = parent_of(&d).to_string();
        }
    }

    pub fn render(&self, path: &str) -> Result<Vec<u8>, String> {
        let dir = parent_of(path);
        let wrap = |t: &str, w: &str| format!("{}{}{}", w, t, w);
        let root = || {
            self.nearest(dir, |c| if let Cf::Root(t) = c { Some(t.clone()) } else { None }, "root.html")
                .ok_or(format!("no root template for {}", path))
        };
        match &self.content[path] {
            Cf::Page(t) => Ok(wrap(t, &root()?).into_bytes()),
            Cf::Uses(p) => match self.content.get(p) {
                Some(Cf::Json(v, _)) => match v.path("v") {
                    Some(gen::Val::Str(t)) => Ok(wrap(t, &root()?).into_bytes()),
                    _ => Err(format!("{} has no string `v` for {}", p, path)),
                },
                _ => Err(format!("no data {} for {}", p, path)),
            },
            Cf::Counts(d) => {
                if !self.part_dirs("content").contains(d) {
                    return Err(format!("no directory {} for {}", d, path));
                }
                let n = self.content.iter().filter(|(p, c)| parent_of(p) == d && matches!(c, Cf::Md(..))).count();
                Ok(wrap(&"x".repeat(n), &root()?).into_bytes())
            }
            Cf::Md(_, t) => {
                let md = self
                    .nearest(dir, |c| if let Cf::MdRoot(t) = c { Some(t.clone()) } else { None }, "md.html")
                    .ok_or(format!("no Markdown template for {}", path))?;
                Ok(wrap(&wrap(&format!("<p>{}</p>\n", t), &md), &root()?).into_bytes())
            }
            Cf::Env => Ok(wrap(&self.env, &root()?).into_bytes()),
            Cf::Bad(_) => Err(format!("{} is broken", path)),
            c => Ok(c.bytes()),
        }
    }

    /// The name under which a content file is known after the build, before extensions are removed.
    pub fn tree_name(path: &str, c: &Cf) -> String {
        match c {
            Cf::Md(..) => format!("{}.html", path.strip_suffix(".md").unwrap()),
            _ => path.to_string(),
        }
    }

    fn out_path(&self, path: &str, c: &Cf) -> Option<String> {
        match c {
            Cf::Root(_) | Cf::MdRoot(_) => None,
            Cf::Json(..) => {
                if self.json.unwrap_or(false) {
                    Some(path.to_string())
                } else {
                    None
                }
            }
            Cf::Page(_) | Cf::Md(..) | Cf::Bad(_) | Cf::Uses(_) | Cf::Counts(_) | Cf::Env => {
                let t = Proj::tree_name(path, c);
                if self.strip.unwrap_or(true) && file_of(&t) != "index.html" {
                    Some(format!("{}/index.html", t.strip_suffix(".html").unwrap()))
                } else {
                    Some(t)
                }
            }
            Cf::Other(_) => Some(path.to_string()),
        }
    }

    /// Directories of the part of the project, including those which are implied by files.
    pub fn part_dirs(&self, part: &str) -> BTreeSet<String> {
        let mut d = BTreeSet::new();
        let prefix = format!("{}/", part);
        let files = self.files();
        for p in files.keys().filter_map(|p| p.strip_prefix(&prefix)) {
            d.extend(ancestors(p));
        }
        for p in self.dirs.iter().filter_map(|p| p.strip_prefix(&prefix)) {
            d.insert(p.to_string());
            d.extend(ancestors(p));
        }
        d
    }

    pub fn want(&self) -> Want {
        let mut outs: Vec<(String, Vec<u8>)> = vec![];
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        let mut errors = vec![];
        for (p, c) in &self.content {
            match self.render(p) {
                Ok(b) => {
                    if let Some(o) = self.out_path(p, c) {
                        outs.push((o, b));
                    }
                }
                Err(e) => errors.push(e),
            }
        }
        if !errors.is_empty() {
            return Want::Fail(true, errors.remove(0));
        }
        let content_outs: BTreeSet<String> = outs.iter().map(|(p, _)| p.clone()).collect();
        let mut merge_conflict = None;
        for part in [&self.stat, &self.temp] {
            for (p, b) in part {
                outs.push((p.clone(), b.clone()));
            }
        }
        dirs.extend(self.part_dirs("content"));
        dirs.extend(self.part_dirs("static"));
        dirs.extend(self.part_dirs("temp"));
        let _ = content_outs;
        let mut with_files: BTreeSet<String> = BTreeSet::new();
        for (p, _) in &outs {
            with_files.extend(ancestors(p));
        }
        dirs.extend(with_files.iter().cloned());
        let mut seen: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut empty_clash = false;
        for (p, b) in &outs {
            if seen.insert(p.clone(), b.clone()).is_some() {
                merge_conflict.get_or_insert(format!("two sources for {}", p));
            }
            if with_files.contains(p) {
                merge_conflict.get_or_insert(format!("{} is both a file and a directory", p));
            } else if dirs.contains(p) {
                empty_clash = true;
            }
        }
        if let Some(c) = merge_conflict {
            return Want::Fail(false, c);
        }
        // Names which only clash before extensions are removed or templates are left out.
        let mut nodes: BTreeMap<String, bool> = BTreeMap::new();
        for (p, c) in &self.content {
            nodes.insert(Proj::tree_name(p, c), false);
        }
        let cdirs = self.part_dirs("content");
        for d in &cdirs {
            nodes.entry(d.clone()).or_insert(true);
        }
        for (part, files) in [("static", &self.stat), ("temp", &self.temp)] {
            for p in files.keys() {
                if nodes.contains_key(p) {
                    return Want::Unspecified;
                }
            }
            for d in self.part_dirs(part) {
                if nodes.get(&d) == Some(&false) {
                    return Want::Unspecified;
                }
            }
        }
        if empty_clash {
            return Want::Unspecified;
        }
        let mut out: Files = seen.into_iter().collect();
        for d in dirs {
            out.insert(format!("{}/", d), vec![]);
        }
        Want::Ok(out)
    }

    /// The `data` of the metadata file, as a tree of names.
    pub fn metadata(&self) -> Meta {
        let mut root = Meta::dir();
        for (p, c) in &self.content {
            let v = match c {
                Cf::Md(f, _) => {
                    let mut o = serde_json::Map::new();
                    for (k, v) in f {
                        o.insert(k.clone(), json!(v));
                    }
                    J::Object(o)
                }
                Cf::Json(v, _) => v.to_serde(),
                _ => J::Null,
            };
            let kind = match c {
                Cf::Md(..) => "markdown",
                Cf::Json(..) => "json",
                Cf::Root(_) | Cf::MdRoot(_) => "template",
                _ => "file",
            };
            root.insert(&Proj::tree_name(p, c), Meta::File(kind, v));
        }
        for p in self.stat.keys().chain(self.temp.keys()) {
            root.insert(p, Meta::File("file", J::Null));
        }
        for part in ["content", "static", "temp"] {
            for d in self.part_dirs(part) {
                root.mkdir(&d);
            }
        }
        root
    }

    pub fn show(&self) -> J {
        let mut f = self.files();
        for d in &self.dirs {
            f.entry(format!("{}/", d)).or_default();
        }
        show_files(&f)
    }

    pub fn hash(&self) -> u64 {
        let mut f = self.files();
        for d in &self.dirs {
            f.entry(format!("{}/", d)).or_default();
        }
        hash_files(&f)
    }
}

#[derive(Clone, Debug)]
pub enum Meta {
    Dir(Vec<(String, Meta)>),
    File(&'static str, J),
}

impl Meta {
    fn dir() -> Meta {
        Meta::Dir(vec![])
    }

    fn mkdir(&mut self, path: &str) -> &mut Meta {
        let mut m = self;
        for part in path.split('/').filter(|p| !p.is_empty()) {
            let Meta::Dir(c) = m else { unreachable!() };
            let i = match c.iter().position(|(n, x)| n == part && matches!(x, Meta::Dir(_))) {
                Some(i) => i,
                None => {
                    c.push((part.to_string(), Meta::dir()));
                    c.len() - 1
                }
            };
            m = &mut c[i].1;
        }
        m
    }

    fn insert(&mut self, path: &str, f: Meta) {
        let Meta::Dir(c) = self.mkdir(parent_of(path)) else { unreachable!() };
        c.push((file_of(path).to_string(), f));
    }
}

/// What to generate.
pub struct PW {
    pub max_files: usize,
    /// Chance in 100 of names which clash.
    pub clash: u64,
    pub temp: bool,
    pub bad: u64,
}

impl Default for PW {
    fn default() -> Self {
        PW { max_files: 12, clash: 4, temp: true, bad: 0 }
    }
}

pub const DIRS: &[&str] = &["", "", "a", "b", "a/b", "post", "a/b/c", "é d", "index", "x.y", "a.html", ".well-known", "content", "static"];
const STEMS: &[&str] = &["a", "b", "post", "index", "x.y", "about", "é", "a b", "root", "md", "c", "404", "a.html", "x.json", "A", ".hid"];
const OTHERS: &[&str] = &[
    "style.css", "a", "b", "post", "noext", "X.HTML", "p.htm", "img.png", ".hidden", "x.json.bak", "root.htm", "y.xml", "data.JSON",
    "robots.txt", "a.html~", "README.MD", "z.min.js", "-dash", "sp ace.txt", "ünï.txt", "index", "html", "md", "q.html.txt", "stuart.toml", "%41.txt", "a#b",
];

/// Parts of names which something might treat specially.
const PARTS: &[&str] = &[
    "index", "a", "md", "html", "json", "root", "de", "min", "git", "gitkeep", "DS_Store", "temp", "dist", "_build", "build",
    "node_modules", "~", "#x#", "CNAME", "nojekyll", "_redirects", "Index", "INDEX", "HTML", "draft", "LICENSE", "metadata", "stuart",
    "toml", "swp", "bak", "content", "static", "htm", "xhtml", "404", "0", "%20", "tmp", "part",
    "assets", "css", "js", "img", "src", "lib", "posts", "tags", "plugins", "scripts", "target", "public", "data", "test", "old",
];

/// A name made of such parts. It may be hidden, or have several extensions.
pub fn name_of_parts(src: &mut Src) -> String {
    let mut s = String::new();
    if src.chance(1, 4) {
        s.push_str(src.pick(&[".", "_", "-", "~"]));
    }
    for i in 0..src.usize(1, 3) {
        if i > 0 {
            s.push_str(src.pick(&[".", ".", "-", "_", ""]));
        }
        s.push_str(src.pick(PARTS));
    }
    s
}

fn stem(src: &mut Src) -> String {
    if src.chance(1, 4) {
        name_of_parts(src)
    } else {
        src.pick(STEMS).to_string()
    }
}

/// The name of a file which is no page, data or template.
fn other(src: &mut Src) -> String {
    if src.chance(1, 4) {
        let n = name_of_parts(src);
        if ![".html", ".md", ".json"].iter().any(|e| n.ends_with(e)) {
            return n;
        }
    }
    src.pick(OTHERS).to_string()
}

fn dir_name(src: &mut Src) -> String {
    if src.chance(1, 5) {
        name_of_parts(src)
    } else {
        src.pick(DIRS).to_string()
    }
}

pub fn join(d: &str, n: &str) -> String {
    if d.is_empty() {
        n.to_string()
    } else {
        format!("{}/{}", d, n)
    }
}

fn blob(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[50, 20, 15, 10, 5]) {
        0 => gen::mark(src).into_bytes(),
        1 => gen::text(src).into_bytes(),
        2 => (0..src.usize(0, 40)).map(|_| src.below(256) as u8).collect(),
        3 => src.pick(&["{{ $nope }}", "{{ begin(", "---\nx\n---\n", "<html></body>", "", "{", "\u{feff}x"]).as_bytes().to_vec(),
        _ => {
            let n = if src.chance(1, 40) { src.usize(70_000, 3_000_000) } else { src.usize(1000, 70000) };
            let x = src.below(251) as usize + 1;
            (0..n).map(|i| ((i * x) >> 3) as u8).collect()
        }
    }
}

pub fn wrap_text(src: &mut Src) -> String {
    format!("<{}>", gen::mark(src))
}

pub fn front(src: &mut Src) -> Vec<(String, String)> {
    let mut f: Vec<(String, String)> = vec![];
    for _ in 0..src.usize(0, 3) {
        let k = src.pick(&["title", "date", "tags", "a b", "Author", "é", "x_1", "draft"]).to_string();
        if f.iter().all(|(x, _)| *x != k) {
            let mut v = gen::string(src);
            v.retain(|c| c != '"' && c != '\n' && c != '\r');
            f.push((k, v));
        }
    }
    f
}

pub fn data_with_v(src: &mut Src) -> Cf {
    let v = gen::Val::Obj(vec![("v".into(), gen::Val::Str(gen::mark(src)))]);
    let t = v.json(src);
    Cf::Json(v, t)
}

/// A content file for the given directory: its path and contents.
pub fn content_file(src: &mut Src, dir: &str, bad: u64) -> (String, Cf) {
    if bad > 0 && src.chance(bad, 100) {
        let n = join(dir, &format!("bad{}.html", src.below(3)));
        return (n, Cf::Bad(src.pick(&["{{ $nope }}", "{{ begin(\"a\") }}", "{{ nope() }}", "{{ ", "{{ end(\"a\") }}"]).to_string()));
    }
    match src.weighted(&[30, 22, 12, 26, 6, 4]) {
        0 => {
            let mut s = stem(src);
            if s == "root" || s == "md" {
                s.push('2');
            }
            (join(dir, &format!("{}.html", s)), Cf::Page(gen::mark(src)))
        }
        1 => {
            let s = stem(src);
            (join(dir, &format!("{}.md", s)), Cf::Md(front(src), gen::word(src)))
        }
        2 => {
            let v = gen::val(src, 2);
            let t = v.json(src);
            (join(dir, &format!("{}.json", stem(src))), Cf::Json(v, t))
        }
        3 => (join(dir, &other(src)), Cf::Other(blob(src))),
        4 => (join(dir, "root.html"), Cf::Root(wrap_text(src))),
        _ => (join(dir, "md.html"), Cf::MdRoot(wrap_text(src))),
    }
}

/// A file of `static` or `temp`.
pub fn asset(src: &mut Src, dir: &str) -> (String, Vec<u8>) {
    let n = match src.weighted(&[60, 10, 10, 10, 5, 5]) {
        0 => other(src),
        1 => format!("{}.html", stem(src)),
        2 => format!("{}.json", stem(src)),
        3 => format!("{}.md", stem(src)),
        4 => "root.html".into(),
        _ => "md.html".into(),
    };
    (join(dir, &n), blob(src))
}

/// True if the path can exist beside the others: no file where another has a directory, or twice.
pub fn fits<'a>(paths: impl Iterator<Item = &'a String> + Clone, new: &str) -> bool {
    for p in paths {
        if p == new || p.starts_with(&format!("{}/", new)) || new.starts_with(&format!("{}/", p)) {
            return false;
        }
    }
    true
}

pub fn gen_proj(src: &mut Src, w: &PW) -> Proj {
    let mut p = Proj { name: gen::string(src), ..Proj::default() };
    p.name.retain(|c| c != '\u{0}');
    if src.coin() {
        let mut a = if src.coin() { gen::mark(src) } else { gen::string(src) };
        a.retain(|c| c != '\u{0}');
        p.author = Some(a);
    }
    let opt = |src: &mut Src| match src.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    p.strip = opt(src);
    p.json = opt(src);
    p.meta = opt(src);
    if !src.chance(1, 20) {
        p.content.insert("root.html".into(), Cf::Root(wrap_text(src)));
        p.content.insert("md.html".into(), Cf::MdRoot(wrap_text(src)));
    }
    // Few directories, so that the parts share some.
    let k = src.usize(1, 5);
    let dirs: Vec<String> = (0..k).map(|_| dir_name(src)).collect();
    for _ in 0..src.usize(0, w.max_files) {
        let d = &*src.pick(&dirs).clone();
        let (n, c) = content_file(src, d, w.bad);
        add_content(&mut p, n, c, w, src);
    }
    if src.chance(1, 3) {
        // Pages which depend on other files.
        let d = &*src.pick(&dirs).clone();
        let data = join(d, "uses.json");
        add_content(&mut p, data.clone(), data_with_v(src), w, src);
        for i in 0..src.usize(1, 2) {
            let at = join(&*src.pick(&dirs).clone(), &format!("uses{}.html", i));
            if p.content.contains_key(&data) {
                add_content(&mut p, at, Cf::Uses(data.clone()), w, src);
            }
        }
    }
    if src.chance(1, 3) {
        let d = &*src.pick(&dirs).clone();
        let at = join(&*src.pick(&dirs).clone(), "counts.html");
        if p.part_dirs("content").contains(d) {
            add_content(&mut p, at, Cf::Counts(d.to_string()), w, src);
        }
    }
    if w.max_files > 6 && src.chance(1, 250) {
        // Many files, or many levels.
        let deep = src.coin();
        let n = if deep { src.usize(10, 60) } else { src.usize(60, 900) };
        let stat = src.coin();
        let mut q = p.clone();
        let mut at = src.pick(&dirs).clone();
        for i in 0..n {
            if deep {
                at = join(&at, &format!("l{}", i));
            }
            let name = join(&at, &format!("n{}.{}", i, ["txt", "html", "bin", "json"][i % 4]));
            let mark = format!("{} {}", i, i * 7919 % 1009);
            if !ok_dir_name(&name) {
                continue;
            }
            if stat {
                q.stat.insert(name, mark.into_bytes());
            } else {
                let c = match i % 4 {
                    1 => Cf::Page(mark),
                    3 => data_with_v(src),
                    _ => Cf::Other(mark.into_bytes()),
                };
                q.content.insert(name, c);
            }
        }
        let names: Vec<&String> = if stat { q.stat.keys().collect() } else { q.content.keys().collect() };
        let fine = names.windows(2).all(|w| !w[1].starts_with(&format!("{}/", w[0])));
        if fine && calm(&q) && !q.dirs.iter().any(|d| names.iter().any(|n| d.ends_with(n.as_str()))) {
            p = q;
        }
    }
    for part in 0..if w.temp { 2 } else { 1 } {
        if part == 1 && src.coin() {
            continue;
        }
        for _ in 0..src.usize(0, w.max_files / 2) {
            let d = &*src.pick(&dirs).clone();
            let (n, b) = asset(src, d);
            add_asset(&mut p, part == 1, n, b, w, src);
        }
    }
    for _ in 0..src.usize(0, 2) {
        if src.chance(1, 3) {
            let part = *src.pick(&["content", "static"]);
            let d = join(src.pick(&dirs), src.pick(&["empty", "a", "b", "new dir"]));
            let taken: Vec<String> =
                if part == "content" { p.content.keys().cloned().collect() } else { p.stat.keys().cloned().collect() };
            if !taken.iter().any(|t| *t == d || d.starts_with(&format!("{}/", t))) {
                p.dirs.insert(format!("{}/{}", part, d));
            }
        }
    }
    p
}

fn ok_dir_name(path: &str) -> bool {
    // Directories named like templates are beyond what is documented.
    ancestors(path).iter().all(|a| file_of(a) != "root.html" && file_of(a) != "md.html")
}

pub fn add_content(p: &mut Proj, n: String, c: Cf, w: &PW, src: &mut Src) {
    let clash_ok = src.chance(w.clash, 100);
    if !ok_dir_name(&n) || !fits(p.content.keys(), &n) || p.dirs.iter().any(|d| d.starts_with(&format!("content/{}", n))) {
        return;
    }
    let mut q = p.clone();
    q.content.insert(n, c);
    if clash_ok || calm(&q) {
        *p = q;
    }
}

pub fn add_asset(p: &mut Proj, temp: bool, n: String, b: Vec<u8>, w: &PW, src: &mut Src) {
    let clash_ok = src.chance(w.clash, 100);
    let part = if temp { &p.temp } else { &p.stat };
    let pn = format!("{}/{}", if temp { "temp" } else { "static" }, n);
    if !fits(part.keys(), &n) || p.dirs.iter().any(|d| d.starts_with(&pn)) {
        return;
    }
    let mut q = p.clone();
    if temp {
        q.temp.insert(n, b);
    } else {
        q.stat.insert(n, b);
    }
    if clash_ok || calm(&q) {
        *p = q;
    }
}

/// No clash of output paths.
fn calm(p: &Proj) -> bool {
    !matches!(p.want(), Want::Fail(false, _) | Want::Unspecified)
}

/// What differs between two trees.
pub fn diff(want: &Files, got: &Files) -> Option<String> {
    let mut out = vec![];
    for (p, b) in want {
        match got.get(p) {
            None => out.push(format!("missing {}", p)),
            Some(g) if g != b => out.push(format!("{}: {:?} instead of {:?}", p, clip(&text(g), 200), clip(&text(b), 200))),
            _ => (),
        }
    }
    for p in got.keys() {
        if !want.contains_key(p) {
            out.push(format!("unexpected {}", p));
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}
