//! C11: no project content makes the builder crash.

use super::faults::{BAD_PARSE, BAD_TAIL};
use crate::cli;
use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;
use crate::tgen::*;

const TOKENS: &[&str] = &[
    "{{", "}}", "{{ ", " }}", "\\{{", "{", "}", "\\", "(", ")", ",", "=", "\"", "$", ".", "begin", "end", "import",
    "for", "ifdefined", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "else", "insert", "timetoread", "excerpt",
    "dateformat", "nosuch", "$self", "$env", "$a", "$a.b.0", "$x", "$.", "$a..b", "$a.", "\"data.json\"",
    "\"posts\"", "\"posts/\"", "\"\"", "\"a\"", "\"é😀\"", "skip=1", "limit=0", "limit=2147483647", "skip=-1",
    "order=\"desc\"", "sortby=$a", "sortby=\"title\"", "0", "1", "-1", "2147483648", "99999999999999999999", "1.5",
    "\n", "\r\n", "\r", "\t", " ", "é", "😀", "\u{0}", "\u{feff}", "---", "---\n", "title: \"x\"", ":", "::", "p::f()",
    "{{ begin(\"a\") }}", "{{ end(\"a\") }}", "{{ end(for) }}", "{{ end(ifeq) }}", "{{ else() }}",
    "{{ for($x, \"data.json\") }}", "{{ for($x, $x) }}", "{{ for($x, \"posts/\", sortby=$x.title) }}",
    "{{ import($a, \"data.json\") }}", "{{ import($self, \"data.json\") }}", "{{ import($env, \"data.json\") }}",
    "{{ insert(\"a\") }}", "{{ insert(\"body\") }}", "{{ $a }}", "{{ $self }}", "{{ $self.content }}", "{{ $self.title }}",
    "{{ $env }}", "{{ ifeq($a, 1) }}", "{{ ifdefined($a.b) }}", "{{ end(ifdefined) }}",
    "{{ excerpt($self.content, 10) }}", "{{ excerpt($a, 0) }}", "{{ excerpt($a, 2147483647) }}",
    "{{ excerpt($self.content, -1) }}", "{{ timetoread($self.content) }}", "{{ dateformat($a, \"%Y\") }}",
    "{{ dateformat($self.title, \"%\") }}", "{{ dateformat($self.title, \"%Q%E%5f\") }}", "<p>", "</p>", "<", ">",
    "[1,2,{\"a\":null}]", "[", "]", "{\"a\":", "null", "1e999", "-", "\"\\u", "\"\\ud800\"", "```\n", "# ", "[^1]: ", "|a|\n|-|\n",
];

fn soup(src: &mut Src) -> Vec<u8> {
    let n = src.usize(1, 40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(TOKENS));
        if src.chance(1, 3) {
            s.push(' ');
        }
    }
    s.into_bytes()
}

fn bytes(src: &mut Src) -> Vec<u8> {
    let n = src.usize(0, 40);
    (0..n).map(|_| src.below(256) as u8).collect()
}

/// Blocks within blocks, perhaps without their ends.
fn nested(src: &mut Src) -> Vec<u8> {
    let n = src.usize(5, 250);
    let mut s = String::new();
    let mut ends: Vec<&str> = vec![];
    let kind = src.below(5);
    for i in 0..n {
        let (o, e) = match kind {
            0 => ("{{ begin(\"a\") }}", "{{ end(\"a\") }}"),
            1 => ("{{ ifeq(1, 1) }}", "{{ end(ifeq) }}"),
            2 => ("{{ ifeq(1, 2) }}", "{{ end(ifeq) }}"),
            3 => ("{{ ifdefined($env) }}", "{{ end(ifdefined) }}"),
            _ if i < 4 => ("{{ for($x, \"data.json\") }}", "{{ end(for) }}"),
            _ => ("{{ ifeq(1, 2) }}x{{ else() }}", "{{ end(ifeq) }}"),
        };
        s.push_str(o);
        ends.push(e);
    }
    let keep = if src.chance(2, 3) { n } else { src.usize(0, n) };
    for e in ends.iter().rev().take(keep) {
        s.push_str(e);
    }
    s.into_bytes()
}

fn deep_json(src: &mut Src) -> Vec<u8> {
    let n = src.usize(1, 200);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(if i % 2 == 0 { "[" } else { "{\"a\":" });
    }
    s.push('1');
    for i in (0..n).rev() {
        s.push_str(if i % 2 == 0 { "]" } else { "}" });
    }
    s.into_bytes()
}

/// Changes the bytes at random places.
pub fn mutate(b: &mut Vec<u8>, other: &[u8], src: &mut Src) {
    let at = |src: &mut Src, b: &Vec<u8>| src.below(b.len() as u64 + 1) as usize;
    match src.below(11) {
        0 => {
            let i = at(src, b);
            let n = src.usize(1, 12).min(b.len() - i);
            b.drain(i..i + n);
        }
        1 => {
            let i = at(src, b);
            let n = src.usize(1, 30).min(b.len() - i);
            let part = b[i..i + n].to_vec();
            let j = at(src, b);
            b.splice(j..j, part);
        }
        2 | 3 => {
            let i = at(src, b);
            let t = src.pick(TOKENS).as_bytes().to_vec();
            b.splice(i..i, t);
        }
        4 => {
            let i = at(src, b);
            if i < b.len() {
                b[i] = src.below(256) as u8;
            }
        }
        5 => {
            let i = at(src, b);
            let t = bytes(src);
            b.splice(i..i, t);
        }
        6 => {
            let i = at(src, b);
            b.truncate(i);
        }
        7 => {
            let i = src.below(other.len() as u64 + 1) as usize;
            let n = src.usize(1, 60).min(other.len() - i);
            let j = at(src, b);
            b.splice(j..j, other[i..i + n].to_vec());
        }
        8 => {
            let i = at(src, b);
            let t = src.pick(BAD_PARSE).as_bytes().to_vec();
            b.splice(i..i, t);
        }
        9 => b.extend_from_slice(src.pick(BAD_TAIL).as_bytes()),
        _ => {
            // One of the delimiters goes away.
            let marks: Vec<usize> =
                b.iter().enumerate().filter(|(_, c)| b"{}()\",=$-:.".contains(c)).map(|(i, _)| i).collect();
            if !marks.is_empty() {
                let i = *src.pick(&marks);
                b.remove(i);
            }
        }
    }
}

/// Bounds the work a (mutated) project can ask for.
pub fn tame(files: &Files) -> bool {
    let loops: usize = files.values().map(|b| b.windows(4).filter(|w| w == b"for(").count()).max().unwrap_or(0);
    let size: usize = files.values().map(|b| b.len()).sum();
    loops <= 30 && size < 100_000
}

/// A well-formed tag which may fail when it is executed.
fn risky(src: &mut Src) -> String {
    let v = src
        .pick(&[
            "self", "self.title", "self.content", "self.markdown", "self.date", "env", "env.STUART_ENV", "a", "b", "x",
            "item", "post", "data", "a.b", "a.0", "a.list", "item.title", "x.title", "a.0.a", "é", "none", "a.18446744073709551616",
            "a.-1", "item.a.b.c.d", "q", "q.0", "q.list.0", "q.a", "q.title", "q.date",
        ])
        .to_string();
    let n = src.pick(&["0", "1", "2", "3", "5", "17", "100", "2147483647", "-2147483648"]).to_string();
    let f = src.pick(&[
        "%Y", "%c", "%s%f", "%9Q", "%", "%%", "%+", "", "%e %b %G-W%V", "%Z%z%:z%::z%#z", "%.3f%3f%.9f", "%_d%-d%0d", "é😀", "%D%F%R%T%X%x",
    ]);
    match src.below(16) {
        0 => format!("{{{{ excerpt(${}, {}) }}}}", v, n),
        1 => format!("{{{{ timetoread(${}) }}}}", v),
        2 | 3 => format!("{{{{ dateformat(${}, \"{}\") }}}}", v, f),
        4 => format!("{{{{ ${} }}}}", v),
        5 => format!("{{{{ ifgt(${}, {}) }}}}x{{{{ else() }}}}y{{{{ end(ifgt) }}}}", v, n),
        6 => format!("{{{{ ifeq(${}, \"x\") }}}}x{{{{ end(ifeq) }}}}", v),
        7 => format!("{{{{ ifdefined(${}) }}}}{{{{ excerpt(${0}, {}) }}}}{{{{ end(ifdefined) }}}}", v, n),
        8 => format!("{{{{ ifdefined(${}) }}}}{{{{ dateformat(${0}, \"{}\") }}}}{{{{ end(ifdefined) }}}}", v, f),
        9 => format!("{{{{ for($x, ${}) }}}}.{{{{ ifdefined($x.title) }}}}{{{{ $x.title }}}}{{{{ end(ifdefined) }}}}{{{{ end(for) }}}}", v),
        10 => format!("{{{{ for($x, \"posts/\", sortby=$x.{}, skip={}) }}}}.{{{{ end(for) }}}}", v.replace('$', ""), n),
        11 => format!("{{{{ for($x, \"data.json\", limit={}, sortby=\"{}\", order=\"desc\") }}}}.{{{{ end(for) }}}}", n, v),
        12 => format!("{{{{ import($q, \"{}\") }}}}", src.pick(&["data.json", "d/list.json", "tags.json", "posts", "posts/", "", ".", "..", "../x", "/", "root.html", "data.json/x", "é.json"])),
        13 => format!("{{{{ insert(\"{}\") }}}}", v),
        14 => format!("{{{{ for($x, \"{}\") }}}}.{{{{ end(for) }}}}", src.pick(&["/", "./", "../", "posts/../posts/", "//", "posts", "data.json/", "nope/", "sub/", "a.json", ".json", "\\/", "é/"])),
        _ => format!("{{{{ begin(\"{}\") }}}}{{{{ ifeq(1, 1) }}}}{{{{ end(ifeq) }}}}{{{{ end(\"{0}\") }}}}", v),
    }
}

/// Values which functions over text, dates and numbers may trip over.
fn odd_value(src: &mut Src) -> Val {
    match src.below(8) {
        0 | 1 => {
            // Characters of one to four bytes, and markup.
            let n = src.usize(0, 24);
            let cs = ['a', ' ', 'é', '€', '😀', '\u{301}', '<', '>', '&', '\u{a0}', '\u{2003}', '\n', '-', 'ß', 'İ', '\u{0}'];
            let bias = *src.pick(&['é', '€', '😀', 'a']);
            Val::Str((0..n).map(|_| if src.chance(1, 3) { bias } else { *src.pick(&cs) }).collect())
        }
        2 => Val::Str(gen::text(src)),
        3 | 4 => Val::Str(
            src.pick(&[
                "9999-12-31", "10000-01-01", "+262142-12-31", "-262143-01-01", "262143-01-01T00:00:00Z", "2020-02-30", "0000-00-00",
                "1e30", "99999999999999999999", "-1", "-9223372036854775808", "9223372036854775807", "8210266876799", "8210266876800",
                "2020-01-01T23:59:60Z", "2020-01-01T00:00:00+99:99", "2020-01-01T00:00:00-23:59", "+262142-12-31T23:59:59-23:59",
                "-262143-01-01T00:00:00+23:59", "12:61", "24:00", "Thu, 01 Jan 1970 00:00:00 GMT", "1.5.2020", "é2020-01-01", "2020-01-0é",
                "１２", "", " ", "12:00 é", "Jan é", "2020/01/01 00:00:00.9999999999999 UTC", "-0001-01-01", "1970-01-01 00:00:00 +0000 +0000",
            ])
            .to_string(),
        ),
        5 => gen::val(src, 2),
        6 => Val::Str("x".repeat(src.usize(0, 5000)) + "é"),
        _ => Val::Str(format!("{}-{}-{} {}:{}", src.usize(0, 600000) as i64 - 300000, src.usize(0, 14), src.usize(0, 33), src.usize(0, 26), src.usize(0, 62))),
    }
}

/// Tags over the values of `zz.json`.
fn over_odd_values(src: &mut Src, n: usize) -> String {
    let mut s = String::from("{{ import($zz, \"zz.json\") }}");
    for _ in 0..src.usize(1, 3) {
        let v = format!("$zz.{}", src.below(n as u64 + 1));
        let f = src.pick(&["%Y-%m-%d", "%c", "%s", "%+", "%G-W%V-%u", "%Z", "%:z %Y", "%e %b %C%y", "%Q", "%f%.9f"]).to_string();
        let k = src.usize(0, 30);
        match src.below(8) {
            0..=2 => s.push_str(&format!("{{{{ excerpt({}, {}) }}}}", v, k)),
            3 => s.push_str(&format!("{{{{ timetoread({}) }}}}", v)),
            4 | 5 => s.push_str(&format!("{{{{ dateformat({}, \"{}\") }}}}", v, f)),
            6 => {
                let c = *src.pick(&["ifgt", "iflt", "ifge", "ifle", "ifeq", "ifne"]);
                let b = format!("$zz.{}", src.below(n as u64));
                s.push_str(&format!("{{{{ {}({}, {}) }}}}a{{{{ end({0}) }}}}", c, v, b))
            }
            _ => s.push_str(&format!(
                "{{{{ for($z, $zz, skip={}, limit={}, order=\"{}\"{}) }}}}{{{{ ifdefined($z.a) }}}}b{{{{ end(ifdefined) }}}}{{{{ end(for) }}}}",
                src.below(n as u64 + 2),
                src.below(n as u64 + 2),
                src.pick(&["asc", "desc", "random"]).to_owned(),
                src.pick(&["", ", sortby=$z", ", sortby=\"a\"", ", sortby=$z.a"]).to_owned(),
            )),
        }
    }
    s
}

pub fn c11(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let gentle = src.coin();
    let w = W {
        max_items: 3,
        depth: 3,
        md_files: 3,
        wrong: if gentle { 0 } else { 20 },
        odd: 12,
        ttr: 4,
        pages: if gentle { 1 } else { 3 },
        ..W::default()
    };
    let mut site = gen_site(src, &w);
    let mut n = 0;
    let mut extra = 0;
    let mut files;
    let names: Vec<String> = site.bytes.keys().cloned().collect();
    if gentle {
        o.class("well-formed");
        let k = src.usize(1, 2);
        let odd: Vec<Val> = (0..src.usize(1, 6)).map(|_| odd_value(src)).collect();
        let odd_n = odd.len();
        site.bytes.insert("zz.json".into(), Val::Arr(odd).json(src).into_bytes());
        for _ in 0..k {
            let mut total = 0usize;
            super::faults::all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
            let target = src.below(total as u64) as usize;
            let t = match src.below(10) {
                0 => format!("{}{}{}", gen::long(src), risky(src), gen::long(src)),
                1..=4 => over_odd_values(src, odd_n),
                _ => risky(src),
            };
            let mut i = 0;
            let mut path = String::new();
            super::faults::all_blocks(&mut site, &mut |p, b, _| {
                if path.is_empty() && target <= i + b.len() {
                    b.insert(target - i, crate::ast::Node::BadParse(t.clone()));
                    path = p.to_string();
                }
                i += b.len() + 1;
            });
            super::faults::rewrite(&mut site, &path, src, w.style);
            n += 1;
        }
        files = site.bytes.clone();
        if src.chance(1, 3) {
            // Other data than what the templates expect.
            let p = src.pick(&names).clone();
            if p.ends_with(".json") {
                let v = gen::val(src, 3);
                files.insert(p, v.json(src).into_bytes());
                o.class("other data");
            }
        }
    } else {
        files = site.bytes.clone();
        n = src.usize(0, 4);
        for _ in 0..n {
            let p = src.pick(&names).clone();
            let q = src.pick(&names).clone();
            let other = files[&q].clone();
            mutate(files.get_mut(&p).unwrap(), &other, src);
        }
        o.class_if(n > 0, "mutated files");
        extra = src.usize(0, 2);
        for _ in 0..extra {
            let k = src.weighted(&[50, 15, 20, 8, 7]);
            let b = match k {
                0 => soup(src),
                1 => bytes(src),
                2 => nested(src),
                3 => deep_json(src),
                _ => gen::text(src).into_bytes(),
            };
            let name = *src.pick(&[
                "soup.html", "posts/soup.md", "root.html", "md.html", "data.json", "posts/root.html", "sub/md.html",
                "x.txt", "y", ".html", ".md", ".json", "a.b.html", "posts/.md", "root.md", "md.md", "sub/root.json", "é.md",
                // Letters of several bytes where an extension might be cut off.
                "éab.c", "xé.jsn", "日本.c", "aéb.ht", "日.md", "é", "日本", "🦀", "a🦀b", "posts/éé.html", "日/x.html", "é.json",
            ]);
            files.insert(name.to_string(), b);
            o.class(["token soup", "random bytes", "deep nesting", "deep JSON", "odd text"][k]);
        }
        if src.chance(1, 10) {
            let name = src.pick(&names).clone();
            files.remove(&name);
            o.class("missing file");
        }
    }
    let strip = src.coin();
    o.hash = hash_files(&files);
    o.show = show_files(&files);
    if !tame(&files) {
        o.class("discarded");
        return o;
    }
    o.nontrivial = n + extra > 0;
    let dir = ctx.fresh();
    if ctx.stuart.is_some() && src.chance(1, 12) {
        o.class("command line");
        let mut settings = format!("strip_extensions = {}\nsave_metadata = {}\n", strip, src.coin());
        let mut toml_mutated = false;
        if src.chance(1, 3) {
            let mut b = settings.clone().into_bytes();
            mutate(&mut b, b"[dependencies]\n\"x\" = \"y\"\nname = 3\n[[a]]\n", src);
            settings = String::from_utf8_lossy(&b).into_owned();
            toml_mutated = true;
        }
        o.class_if(toml_mutated, "mutated manifest");
        let mut p = cli::project(&files, &settings);
        if src.coin() {
            p.insert("static/x.bin".into(), bytes(src));
        }
        o.show["(stuart.toml)"] = text(&p["stuart.toml"]).into();
        write_files(&dir, &p);
        if src.coin() {
            let bad = b"ab\xff\xfe.html";
            use std::os::unix::ffi::OsStrExt;
            std::fs::create_dir_all(dir.join("content")).unwrap();
            std::fs::write(dir.join("content").join(std::ffi::OsStr::from_bytes(bad)), soup(src)).unwrap();
            o.class("file name that is not UTF-8");
        }
        // A small project needs a small part of this.
        let env = cli::Env { memory: Some(1 << 30), ..cli::Env::default() };
        let r = cli::stuart(ctx, &dir, &["build"], &env);
        o.class(if r.ok() { "builds" } else { "fails" });
        if r.crashed() {
            o.fail("crash", r.describe());
        }
    } else {
        let content = dir.join("content");
        std::fs::create_dir_all(&content).unwrap();
        write_files(&content, &files);
        match build(&content, &dir.join("out"), config(strip)) {
            Built::Panic(p) => o.fail("panic", p),
            Built::Ok(_) => o.class("builds"),
            Built::Err(_) => o.class("fails"),
        }
    }
    o
}
