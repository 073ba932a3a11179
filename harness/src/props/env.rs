//! C26: `$env` is the environment of the build, with the `STUART_ENV` of the command.

use super::faults::{all_blocks, rewrite};
use super::model;
use crate::ast::*;
use crate::cli;
use crate::dev::Dev;
use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;
use crate::tgen::*;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

const NAMES: &[&str] = &[
    "A", "b", "BASE_URL", "STUART", "STUART_ENV2", "stuart_env", "_", "X1", "self", "env", "PATH2", "a_b", "title", "CI", "0", "GIT_X", "Content",
];

fn value(src: &mut Src) -> String {
    let s = match src.below(8) {
        0 if src.coin() => String::new(),
        0 => { let mut t = gen::mark(src); let at = src.usize(0, t.len()); t.insert_str(at, src.pick(gen::ODD)); t }
        1 => gen::string(src),
        2 => gen::text(src),
        3 => src.pick(&["production", "development", "benchmark", "true", "1", "{{ $a }}", "a=b=c", " padded ", "\\n", "line\nline", "$HOME", "\u{1b}[31mred\u{1b}[0m", "a\tb", "\u{7f}", "a\r\nb", "\u{1}", "\u{feff}x", "%s", "C:\\x", "'q'", "\"q\""]).to_string(),
        4 => format!("{}={}", gen::mark(src), gen::mark(src)),
        _ => gen::mark(src),
    };
    s.replace('\0', "")
}

pub fn c26(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W { wrong: 0, depth: 3, max_items: 4, md_files: 3, pages: 3, text: 20, odd: 1, section: 4, for_: 6, ifdef: 3, ..W::default() };
    let mut site = gen_site(src, &w);
    let command = match src.weighted(&[80, 17, 3]) {
        0 => "production",
        1 => "benchmark",
        _ => "development",
    };
    // The whole environment, and what of it is known.
    let mut e = cli::Env::default();
    let mut known: Vec<(String, String)> = vec![];
    for _ in 0..src.usize(0, 6) {
        let n = src.pick(NAMES).to_string();
        if known.iter().all(|(k, _)| *k != n) {
            let v = value(src);
            e = e.with(&n, &v);
            known.push((n, v));
        }
    }
    if src.chance(1, 25) {
        o.class("large");
        if src.coin() {
            for i in 0..src.usize(60, 700) {
                let (n, v) = (format!("BULK{}", i), format!("v{}", i * 7919 % 1009));
                e = e.with(&n, &v);
                known.push((n, v));
            }
        } else {
            let v = gen::mark(src).repeat(src.usize(100, 12_000));
            e = e.with("BULK", &v);
            known.push(("BULK".into(), v));
        }
    }
    let inherited = src.chance(1, 3);
    if inherited {
        let v = src.pick(&["production", "development", "benchmark", "staging", "", "0"]).to_string();
        if src.chance(1, 6) {
            e.set.push(("STUART_ENV".into(), OsString::from_vec(vec![b'x', 0xff])));
        } else {
            e = e.with("STUART_ENV", &v);
        }
    }
    let mut odd = vec![];
    if src.chance(1, 4) {
        o.class("not text");
        for i in 0..src.usize(1, 2) {
            let (n, v): (Vec<u8>, Vec<u8>) = match src.below(3) {
                0 => (format!("RAW{}", i).into_bytes(), vec![0xff, 0xfe, b'a']),
                1 => (vec![b'N', 0xc3, b'x'], b"value".to_vec()),
                _ => (vec![0xe9], vec![0xe9]),
            };
            odd.push(format!("{}={}", String::from_utf8_lossy(&n), String::from_utf8_lossy(&v)));
            e.set.push((OsString::from_vec(n), OsString::from_vec(v)));
        }
    }
    let fixed: Vec<(String, String)> = vec![
        ("PATH".into(), "/usr/local/bin:/usr/bin:/bin".into()),
        ("HOME".into(), ctx.work.display().to_string()),
        ("LANG".into(), "C.UTF-8".into()),
        ("TZ".into(), "UTC".into()),
        ("GIT_CONFIG_NOSYSTEM".into(), "1".into()),
    ];
    let mut all: Vec<(String, Val)> = known.iter().chain(&fixed).map(|(k, v)| (k.clone(), Val::Str(v.clone()))).collect();
    all.push(("STUART_ENV".into(), Val::Str(command.into())));
    let env = Val::Obj(all);

    let pick_name = |src: &mut Src| -> String {
        match src.weighted(&[40, 35, 10, 10]) {
            0 if !known.is_empty() => src.pick(&known).0.clone(),
            0 | 1 => "STUART_ENV".into(),
            2 => src.pick(&["PATH", "LANG", "TZ", "GIT_CONFIG_NOSYSTEM", "HOME"]).to_string(),
            _ => src.pick(NAMES).to_string(),
        }
    };
    let mut total = 0usize;
    all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
    let mut touched = std::collections::BTreeSet::new();
    let mut uses = 0;
    let wrong = src.chance(1, 12);
    for _ in 0..src.usize(1, 3 + src.size / 3) {
        let target = src.below(total as u64) as usize;
        let mut i = 0usize;
        let mut done = false;
        all_blocks(&mut site, &mut |p, b, _| {
            if !done && target < i + b.len() + 1 {
                done = true;
                let at = (target - i).min(b.len());
                let n = pick_name(src);
                let path = format!("env.{}", n);
                let set = env.get(&n).is_some();
                let text = |src: &mut Src| vec![Node::Text(gen::mark(src))];
                let node = match src.weighted(&[50, 20, 20, 5, 3]) {
                    0 if set || wrong => Node::Var(path),
                    0 | 1 => {
                        let t = if set { vec![Node::Var(path.clone())] } else { text(src) };
                        Node::IfDef(path, t, if src.coin() { Some(text(src)) } else { None })
                    }
                    2 if set => {
                        let s = if src.coin() {
                            Arg::Str(src.pick(&["production", "development", "benchmark", "x"]).to_string())
                        } else {
                            Arg::Var("env.STUART_ENV".into())
                        };
                        let (mut x, mut y) = (Arg::Var(path), s);
                        if src.coin() {
                            std::mem::swap(&mut x, &mut y);
                        }
                        Node::If(if src.coin() { Op::Eq } else { Op::Ne }, x, y, text(src), Some(text(src)))
                    }
                    3 if set => Node::Ttr(path),
                    // A part of a string, which is undefined.
                    4 => Node::IfDef(format!("{}.x", path), text(src), Some(text(src))),
                    _ => Node::IfDef("env".into(), text(src), None),
                };
                o.class(match base_of(p) {
                    "root.html" => "in a root template",
                    "md.html" => "in a Markdown template",
                    p if p.ends_with(".md") => "in Markdown",
                    _ => "in a page",
                });
                uses += 1;
                b.insert(at, node);
                touched.insert(p.to_string());
            }
            i += b.len() + 1;
        });
    }
    for p in &touched {
        match site.files.get_mut(p) {
            Some(File::Html(n)) => seal(n),
            Some(File::Md(m)) => seal(&mut m.body),
            _ => (),
        }
        rewrite(&mut site, p, src, w.style);
    }
    let want = expect(&site, &env, None);
    let files = cli::project(&site.bytes, "strip_extensions = false\n");
    let mut shown = show_files(&files);
    shown["(environment)"] = e.set.iter().map(|(k, v)| format!("{}={}", k.to_string_lossy(), v.to_string_lossy())).collect::<Vec<_>>().join("\n").into();
    shown["(command)"] = command.into();
    o.hash = fnv(hash_files(&files), shown.to_string().as_bytes());
    o.show = shown;
    o.nontrivial = uses > 0;
    if let Err(e) = &want {
        if e.contains("unspecified") || e.contains("model out of fuel") {
            o.class("discarded");
            o.nontrivial = false;
            return o;
        }
    }
    o.class(command);
    o.class_if(inherited, "inherited STUART_ENV");
    let dir = ctx.fresh();
    write_files(&dir, &files);
    if command == "development" {
        let mut d = match Dev::start(ctx, &dir, &[], &e) {
            Ok(d) => d,
            Err(m) => {
                o.fail("start", m);
                return o;
            }
        };
        if let Some(s) = d.ended() {
            o.fail("server", format!("{}\n{}", s, d.log()));
            return o;
        }
        match want {
            Ok(w) => model::compare(&w, &read_tree(&dir.join("dist"), false), &mut o),
            Err(w) if dir.join("dist").exists() => o.fail("accepted", format!("the build succeeds, but should fail: {}", w)),
            Err(_) => (),
        }
        return o;
    }
    let args: &[&str] = if command == "benchmark" { &["bench", "-i", "2"] } else { &["build"] };
    let r = cli::stuart(ctx, &dir, args, &e);
    match want {
        Err(w) => {
            o.class("fails");
            if r.ok() {
                o.fail("accepted", format!("the build succeeds, but should fail: {}", w));
            } else if !r.clean_error() {
                o.fail("crash", r.describe());
            }
        }
        Ok(w) => {
            o.class("builds");
            if !r.ok() {
                o.fail("rejected", r.describe());
            } else {
                model::compare(&w, &read_tree(&dir.join("dist"), false), &mut o);
            }
        }
    }
    o
}
