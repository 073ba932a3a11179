//! C25: the manifest and the options of the command line take effect exactly as written.

use super::layout;
use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::fs;
use std::path::PathBuf;

/// A string in one of the notations of TOML.
fn toml_string(s: &str, src: &mut Src) -> String {
    let control = |c: char| (c as u32) < 0x20 || c as u32 == 0x7f;
    match src.below(6) {
        0 if !s.contains('\'') && !s.chars().any(|c| control(c) && c != '\t') => format!("'{}'", s),
        1 if !s.contains("'''") && !s.ends_with('\'') && !s.chars().any(|c| control(c) && c != '\t') => format!("'''{}'''", s),
        k => {
            let mut o = String::new();
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\r' => o.push_str("\\r"),
                    '\t' => o.push_str("\\t"),
                    c if control(c) => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c if !c.is_ascii() && src.chance(1, 4) => o.push_str(&format!("\\U{:08X}", c as u32)),
                    c => o.push(c),
                }
            }
            if k == 2 {
                format!("\"\"\"{}\"\"\"", o)
            } else {
                format!("\"{}\"", o)
            }
        }
    }
}

fn key(k: &str, src: &mut Src) -> String {
    match src.below(10) {
        0 => format!("\"{}\"", k),
        1 => format!("'{}'", k),
        _ => k.to_string(),
    }
}

fn other_value(src: &mut Src) -> String {
    match src.below(9) {
        0 => "1".into(),
        1 => "-2.5e3".into(),
        2 => "[1, 2, 3]".into(),
        3 => "{ a = 1, b = \"x\" }".into(),
        4 => "1979-05-27T07:32:00Z".into(),
        5 => "false".into(),
        6 => "true".into(),
        7 => "[\"a\", \"b\"]".into(),
        _ => {
            let s = gen::mark(src);
            toml_string(&s, src)
        }
    }
}

const UNKNOWN: &[&str] = &[
    "strip_extension", "Strip_Extensions", "strip-extensions", "save_data", "save_meta", "SAVE_METADATA", "output", "version", "url", "x", "names", "é", "a.b", "",
    "env", "default",
];

/// A line of the manifest, and whether it can be followed by a line break at any time.
struct Doc {
    lines: Vec<String>,
}

#[derive(PartialEq, Clone, Copy)]
enum Omit {
    Nothing,
    Name,
    Site,
}

/// The manifest of the project, written in one way or another.
fn write(p: &Proj, omit: Omit, src: &mut Src, o: &mut Outcome) -> Doc {
    let mut site: Vec<(String, String)> = vec![];
    if omit == Omit::Nothing {
        site.push(("name".into(), toml_string(&p.name, src)));
    }
    if let Some(a) = &p.author {
        site.push(("author".into(), toml_string(a, src)));
    }
    let mut settings: Vec<(String, String)> = vec![];
    for (k, v) in [("strip_extensions", p.strip), ("save_data_files", p.json), ("save_metadata", p.meta)] {
        if let Some(v) = v {
            settings.push((k.into(), v.to_string()));
        }
    }
    let unknown = src.coin();
    let mut top: Vec<(String, String)> = vec![];
    let mut tables: Vec<(String, Vec<(String, String)>)> = vec![];
    if unknown {
        o.class("unknown keys");
        for _ in 0..src.usize(1, 4) {
            let v = other_value(src);
            let mut k = src.pick(UNKNOWN).to_string();
            match src.below(5) {
                0 => {
                    // Settings elsewhere than in their table mean nothing.
                    if src.coin() {
                        k = src.pick(&["strip_extensions", "save_metadata", "save_data_files", "name", "author"]).to_string();
                    }
                    top.push((k, v));
                }
                1 => {
                    if src.coin() {
                        k = src.pick(&["strip_extensions", "save_metadata", "save_data_files"]).to_string();
                    }
                    site.push((k, v));
                }
                2 => {
                    if src.coin() {
                        k = src.pick(&["name", "author", "site"]).to_string();
                    }
                    settings.push((k, v));
                }
                3 => {
                    let t = src.pick(&["setting", "Settings", "sites", "build", "settings.extra", "site.extra", "plugins", "tool.x"]).to_string();
                    k = src.pick(&["strip_extensions", "save_metadata", "name", "x"]).to_string();
                    tables.push((t, vec![(k, v)]));
                }
                _ => tables.push(("dependencies".into(), vec![])),
            }
        }
    }
    let dedup = |v: &mut Vec<(String, String)>| {
        let mut seen = vec![];
        v.retain(|(k, _)| {
            let new = !seen.contains(k);
            seen.push(k.clone());
            new
        });
    };
    dedup(&mut site);
    dedup(&mut settings);
    dedup(&mut top);
    {
        let mut seen = vec![];
        tables.retain(|(k, _)| {
            let new = !seen.contains(k);
            seen.push(k.clone());
            new
        });
    }
    src.shuffle(&mut site);
    src.shuffle(&mut settings);
    top.retain(|(k, _)| k != "site" && k != "settings");

    let quoted = |k: &str, src: &mut Src| {
        if k.is_empty() || !k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-') {
            format!("\"{}\"", k)
        } else {
            key(k, src)
        }
    };
    let pair = |k: &str, v: &str, src: &mut Src| {
        let eq = *src.pick(&[" = ", " = ", "=", "  =\t"]);
        let indent = *src.pick(&["", "", "", "  ", "\t"]);
        let tail = *src.pick(&["", "", "", " ", " # a comment", "\t#x = \"y\""]);
        format!("{}{}{}{}{}", indent, quoted(k, src), eq, v, tail)
    };
    let mut head: Vec<String> = vec![];
    let mut groups: Vec<Vec<String>> = vec![];
    for (k, v) in &top {
        head.push(pair(k, v, src));
    }
    for (name, keys) in [("site", &site), ("settings", &settings)] {
        if (name == "settings" && keys.is_empty() && src.coin()) || (name == "site" && omit == Omit::Site) {
            continue;
        }
        let extended = tables.iter().any(|(t, _)| t.starts_with(&format!("{}.", name)));
        match src.weighted(&[70, 15, 15]) {
            // The TOML parser in use knows no tables which extend others than by headers.
            1 if !extended && keys.iter().all(|(k, _)| !k.is_empty()) => {
                o.class("inline tables");
                let t: Vec<String> = keys.iter().map(|(k, v)| format!("{} = {}", quoted(k, src), v)).collect();
                head.push(format!("{} = {{ {} }}", name, t.join(", ")));
            }
            2 if !extended && !keys.is_empty() => {
                o.class("dotted keys");
                for (k, v) in keys.iter() {
                    head.push(format!("{}.{} = {}", name, quoted(k, src), v));
                }
            }
            _ => {
                let mut g = vec![src.pick(&["[{}]", "[{}]", "[ {} ]", "[{}] # the {}"]).replace("{}", name)];
                for (k, v) in keys.iter() {
                    g.push(pair(k, v, src));
                }
                groups.push(g);
            }
        }
    }
    for (t, keys) in &tables {
        let mut g = vec![format!("[{}]", t)];
        for (k, v) in keys {
            g.push(pair(k, v, src));
        }
        groups.push(g);
    }
    src.shuffle(&mut groups);
    let mut lines = vec![];
    let noise = |src: &mut Src, lines: &mut Vec<String>| {
        for _ in 0..src.usize(0, 2) {
            lines.push(src.pick(&["", "", "# [settings]", "#", "   ", "# save_metadata = true", "# é"]).to_string());
        }
    };
    if src.coin() {
        noise(src, &mut lines);
    }
    lines.extend(head);
    for g in groups {
        noise(src, &mut lines);
        lines.extend(g);
    }
    Doc { lines }
}

const SYNTAX: &[&str] = &[
    "foo", "= 1", "zz = ", "zz = \"abc", "[open", "zz = 1 yy = 2", "]", "zz = tru", "zz == 1", "zz = 'abc", "zz = \"\\q\"", "[]", "[a b]", "zz: 1", "{}", "zz = {", "zz = yes",
    "zz = \"a\" \"b\"", "<html>", "zz = 1.", "'zz = 1", "!", "zz = [1 2]", "zz = nil",
];

enum Fault {
    None,
    /// At this line of the manifest, and column if that is known.
    At(usize, Option<usize>, String),
    /// Somewhere.
    Some(String),
}

fn spoil(doc: &mut Doc, src: &mut Src) -> Fault {
    match src.weighted(&[50, 35]) {
        0 => {
            let bad = *src.pick(SYNTAX);
            let at = src.usize(0, doc.lines.len());
            doc.lines.insert(at, bad.into());
            Fault::At(at + 1, None, format!("line {} is `{}`", at + 1, bad))
        }
        1 => {
            // A value of the wrong type.
            let (t, k, bad): (&str, &str, &[&str]) = *src.pick(&[
                ("site", "name", &["1", "true", "[\"x\"]", "1.5", "2020-01-01"][..]),
                ("site", "author", &["1", "false", "[]", "{ name = \"x\" }"]),
                ("settings", "strip_extensions", &["\"true\"", "1", "0", "[]", "'false'"]),
                ("settings", "save_data_files", &["\"false\"", "1", "\"\""]),
                ("settings", "save_metadata", &["\"true\"", "0", "{}"]),
                ("dependencies", "zz", &["1", "true", "[\"a.so\"]", "{ path = \"x\" }"]),
            ]);
            // In a table of its own, at the end, unless that is there.
            let v = *src.pick(bad);
            let head = format!("[{}]", t);
            let others = doc.lines.iter().any(|l| {
                let l = l.trim_start().trim_start_matches('[').trim_start();
                l.starts_with(t)
            });
            if others {
                return spoil(doc, src);
            }
            doc.lines.push(head);
            if t == "site" && k != "name" {
                doc.lines.push("name = \"x\"".into());
            }
            let l = format!("{} = {}", k, v);
            let col = k.len() + 4;
            doc.lines.push(l.clone());
            let what = format!("`{}` in [{}]", l, t);
            // The TOML parser only knows the places of simple values.
            if v.starts_with(['{', '[']) {
                Fault::Some(what)
            } else {
                Fault::At(doc.lines.len(), Some(col), what)
            }
        }
        _ => unreachable!(),
    }
}

pub fn c25(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = gen_proj(src, &PW { clash: 0, max_files: 4, temp: false, ..PW::default() });
    let opt = |src: &mut Src| match src.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    p.strip = opt(src);
    p.json = opt(src);
    p.meta = opt(src);
    let faulty = src.chance(1, 3);
    let omit = if faulty && src.chance(1, 6) { *src.pick(&[Omit::Name, Omit::Site]) } else { Omit::Nothing };
    let mut doc = write(&p, omit, src, &mut o);
    let fault = match omit {
        _ if !faulty => Fault::None,
        Omit::Nothing => spoil(&mut doc, src),
        Omit::Name => Fault::Some("the site has no name".into()),
        Omit::Site => Fault::Some("there is no site".into()),
    };
    let nl = if src.chance(1, 5) { "\r\n" } else { "\n" };
    let mut bytes = doc.lines.join(nl).into_bytes();
    if src.chance(9, 10) {
        bytes.extend_from_slice(nl.as_bytes());
    }
    if src.chance(1, 20) {
        bytes.splice(0..0, [0xef, 0xbb, 0xbf]);
    }
    // A missing or unreadable manifest.
    let missing = if src.chance(1, 12) { src.usize(1, 3) } else { 0 };

    let base = ctx.fresh();
    let dir = base.join(src.pick(&["project", "project", "my project é", "a/b"]));
    fs::create_dir_all(&dir).unwrap();
    p.write(&dir);
    let mname = src.pick(&["stuart.toml", "stuart.toml", "site.toml", "x"]).to_string();
    let mut mname = mname;
    let bench = src.chance(1, 6);
    if bench {
        mname = "stuart.toml".into();
    }
    fs::remove_file(dir.join("stuart.toml")).unwrap();
    match missing {
        0 => fs::write(dir.join(&mname), &bytes).unwrap(),
        1 => (),
        2 => fs::create_dir(dir.join(&mname)).unwrap(),
        _ => {
            let mut b = bytes.clone();
            b.extend_from_slice(b"# \xff\n");
            fs::write(dir.join(&mname), b).unwrap()
        }
    }
    if mname != "stuart.toml" && src.coin() {
        // Not this one.
        fs::write(dir.join("stuart.toml"), if src.coin() { "[site" } else { "[site]\nname = \"the other manifest\"\n[settings]\nsave_data_files = true\n" }).unwrap();
    }
    for d in ["elsewhere", "elsewhere/deep"] {
        fs::create_dir_all(base.join(d)).unwrap();
    }
    fs::create_dir_all(dir.join("sub")).unwrap();
    // Where to run, and the path to the manifest from there.
    let (cwd, mpath): (PathBuf, String) = if bench {
        (dir.clone(), "stuart.toml".into())
    } else {
        let rel = dir.strip_prefix(&base).unwrap().to_str().unwrap().to_string();
        match src.below(6) {
            0 | 1 => (dir.clone(), mname.clone()),
            2 => (base.clone(), format!("{}/{}", rel, mname)),
            3 => (base.join("elsewhere/deep"), format!("../../{}/{}", rel, mname)),
            4 => (dir.join("sub"), format!("../{}", mname)),
            _ => (base.join("elsewhere"), dir.join(&mname).display().to_string()),
        }
    };
    let mut args: Vec<Vec<String>> = vec![];
    if !bench && (mpath != "stuart.toml" || src.chance(1, 4)) {
        args.push(if src.coin() { vec!["--manifest-path".into(), mpath.clone()] } else { vec![format!("--manifest-path={}", mpath)] });
    }
    let mut out = dir.join("dist");
    if !bench && src.chance(1, 2) {
        let up = dir.parent().unwrap().to_path_buf();
        let (a, to): (String, PathBuf) = match src.below(10) {
            6 => ("../up".into(), up.join("up")),
            7 => ("./../up 2/".into(), up.join("up 2")),
            8 => (".out".into(), dir.join(".out")),
            0 => ("out".into(), dir.join("out")),
            1 => ("./sub/site/".into(), dir.join("sub/site")),
            2 => ("sub/site 2".into(), dir.join("sub/site 2")),
            3 => ("sub/../out".into(), dir.join("out")),
            4 => (base.join("away").display().to_string(), base.join("away")),
            5 => ("é".into(), dir.join("é")),
            _ => ("dist".into(), dir.join("dist")),
        };
        out = to;
        args.push(match src.below(4) {
            0 => vec!["-o".into(), a],
            1 => vec![format!("-o{}", a)],
            2 => vec!["--output".into(), a],
            _ => vec![format!("--output={}", a)],
        });
    }
    let mut bad_count = false;
    if bench {
        bad_count = src.chance(1, 4);
        let n = if bad_count { src.pick(&["x", "1.5", "", "0x1", "1 ", "99999999999999999999999"]).to_string() } else { src.usize(1, 3).to_string() };
        let default = !bad_count && n == "3";
        args.push(match src.below(3) {
            0 => vec!["-i".into(), n],
            1 => vec!["--iters".into(), n],
            _ => vec![format!("--iters={}", n)],
        });
        if default {
            args.clear();
        }
    }
    src.shuffle(&mut args);
    let mut all: Vec<String> = vec![if bench { "bench" } else { "build" }.to_string()];
    all.extend(args.into_iter().flatten());
    let quiet = src.chance(1, 5);
    if quiet {
        all.insert(0, src.pick(&["-q", "--quiet"]).to_string());
    } else if src.chance(1, 8) {
        all.insert(0, src.pick(&["-v", "--verbose"]).to_string());
    }
    if src.chance(1, 3) {
        fs::create_dir_all(&out).unwrap();
        fs::write(out.join("old.html"), "old").unwrap();
        o.class("old output");
    }
    if src.chance(1, 6) {
        fs::write(dir.join("metadata.json"), "old").unwrap();
    }

    let want = p.want();
    if matches!(want, Want::Unspecified | Want::Fail(false, _)) {
        o.class("discarded");
        return o;
    }
    let mut show = show_files(&Files::from([(mname.clone(), bytes.clone())]));
    show["(command)"] = json!(all);
    show["(cwd)"] = cwd.strip_prefix(&base).unwrap().display().to_string().into();
    show["(project)"] = p.show();
    o.hash = fnv(fnv(p.hash(), &bytes), format!("{:?}{:?}{}", all, cwd, missing).as_bytes());
    o.show = show;
    o.nontrivial = true;

    let before = read_tree(&base, true);
    let a: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let r = cli::stuart(ctx, &cwd, &a, &cli::Env::default());
    let after = read_tree(&base, true);
    let problem = match (&fault, missing) {
        (_, 1) => Some("the manifest is missing".to_string()),
        (_, 2) => Some("the manifest is a directory".to_string()),
        (_, 3) => Some("the manifest is not text".to_string()),
        (Fault::At(_, _, w) | Fault::Some(w), _) => Some(w.clone()),
        _ if bad_count => Some("the number of iterations is none".into()),
        _ => match &want {
            Want::Fail(_, w) => Some(w.clone()),
            _ => None,
        },
    };
    if r.crashed() {
        o.fail("crash", r.describe());
        return o;
    }
    match problem {
        Some(w) => {
            o.class(if missing > 0 {
                "manifest unreadable"
            } else if faulty {
                "manifest malformed"
            } else {
                "fails"
            });
            if r.ok() {
                o.fail("accepted", format!("the command succeeds although {}\n{}", w, r.describe()));
                return o;
            }
            if let Some(d) = diff(&before, &after) {
                o.fail("written", format!("the command fails ({}), but changes files: {}", w, d));
                return o;
            }
            if let (Fault::Some(w), 0) = (&fault, missing) {
                if omit != Omit::Site && !r.stderr.contains(&format!("{}:", mname)) {
                    o.fail("place", format!("{}, but the error does not name the manifest\n{}", w, r.describe()));
                }
            }
            if let (Fault::At(line, col, w), 0) = (&fault, missing) {
                let place = format!("{}:{}:{}", mname, line, col.map(|c| c.to_string()).unwrap_or_default());
                let named = r.stderr.lines().any(|l| l.trim_start().starts_with("-->") && l.contains(&place));
                if !named {
                    o.fail("place", format!("{} ({}), but the error does not name it\n{}", place, w, r.describe()));
                }
            }
        }
        None => {
            let Want::Ok(want) = want else { unreachable!() };
            o.class("builds");
            o.class_if(cwd != dir, "from elsewhere");
            o.class_if(out != dir.join("dist"), "other output");
            if !r.ok() {
                o.fail("rejected", r.describe());
                return o;
            }
            if let Some(d) = diff(&want, &read_tree(&out, true)) {
                o.fail("output", format!("{}\n{}", d, r.describe()));
                return o;
            }
            let meta = dir.join("metadata.json");
            if p.meta == Some(true) {
                match fs::read(&meta).map(|t| serde_json::from_slice::<J>(&t)) {
                    Ok(Ok(j)) => {
                        let mut errs = vec![];
                        layout::compare(&p.metadata(), &j["data"], "", &mut errs);
                        if j["name"] != json!(p.name) || j["author"] != json!(p.author) {
                            errs.push(format!("name {} and author {}", j["name"], j["author"]));
                        }
                        if !errs.is_empty() {
                            o.fail("metadata", errs.join("; "));
                            return o;
                        }
                    }
                    e => {
                        o.fail("metadata", format!("{:?}", e));
                        return o;
                    }
                }
            }
            // Nothing else has changed.
            let prefix = format!("{}/", out.strip_prefix(&base).unwrap().display());
            let meta = meta.strip_prefix(&base).unwrap().display().to_string();
            let rest = |t: &Files| -> Files {
                let mut t = t.clone();
                t.retain(|k, _| !k.starts_with(&prefix) && !(p.meta == Some(true) && *k == meta));
                t
            };
            if let Some(d) = diff(&rest(&before), &rest(&after)) {
                o.fail("other files", d);
                return o;
            }
            if quiet && !bench && !(r.stdout.trim().is_empty() && r.stderr.trim().is_empty()) {
                o.fail("quiet", r.describe());
            }
        }
    }
    o
}
