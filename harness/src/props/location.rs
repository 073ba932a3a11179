//! C12: errors point at the file and line of the tag at fault.

use super::faults::{all_blocks, rewrite, Parent, BAD_PARSE};
use super::model;
use crate::ast::*;
use crate::cli;
use crate::engine::*;
use crate::gen;
use crate::site::*;
use crate::tgen::*;
use stuart_core::Error;

/// Stands directly before the tag which the error should point at, until the file is written.
/// A character which no generator gives.
const MARK: char = '\u{f7a3c}';

/// Faults which show when they are executed; the guilty tag follows the mark.
const EXEC: &[&str] = &[
    "#{{ $zznope }}",
    "#{{ $zznope.a.0 }}",
    "#{{ $env }}",
    "#{{ $env.ZZNOPE }}",
    "#{{ $env.STUART_ENV.a }}",
    "#{{ import($zzq, \"nope.json\") }}",
    "#{{ import($zzq, \"root.html\") }}",
    "#{{ import($zzq, \"nope/nope.json\") }}",
    "{{ import($zzq, \"three.json\") }}\n#{{ import($zzq, \"three.json\") }}",
    "{{ import($zzq, \"three.json\") }}\n#{{ $zzq }}",
    "{{ import($zzq, \"three.json\") }}\n#{{ $zzq.0 }}",
    "{{ import($zzq, \"three.json\") }}\n\n#{{ $zzq.7 }}",
    "#{{ for($zzq, \"nope.json\") }}\nx\n{{ end(for) }}",
    "#{{ for($zzq, \"nope/\") }}\nx\n{{ end(for) }}",
    "#{{ for($zzq, $env) }}\nx\n{{ end(for) }}",
    "#{{ for($zzq, $zznope) }}x{{ end(for) }}",
    "{{ for($zzq, \"three.json\") }}\n#{{ $zzq }}\n{{ end(for) }}",
    "{{ for($zzq, \"three.json\") }}\n\n#{{ $zznope }}{{ end(for) }}",
    "#{{ ifeq($zznope, 1) }}\nx\n{{ end(ifeq) }}",
    "#{{ ifgt(1, $env) }}\nx\n{{ end(ifgt) }}",
    "{{ ifeq(1, 1) }}\n#{{ $zznope }}\n{{ end(ifeq) }}",
    "{{ ifeq(1, 2) }}\n{{ $zznope }}\n{{ else() }}\n\n#{{ $zznope }}\n{{ end(ifeq) }}",
    "{{ ifdefined($env) }}\n#{{ $zznope }}\n{{ end(ifdefined) }}",
    "{{ begin(\"zz\") }}\n#{{ $zznope }}\n{{ end(\"zz\") }}",
    "#{{ timetoread($zznope) }}",
    "#{{ timetoread($env) }}",
    "#{{ excerpt($zznope, 3) }}",
    "#{{ excerpt($env, 3) }}",
    "#{{ dateformat($zznope, \"%Y\") }}",
    "#{{ dateformat($env.STUART_ENV, \"%Y\") }}",
    "#{{ insert(\"zznope\") }}",
    "#{{ end(\"zz\") }}",
    "#{{ end(for) }}",
    "#{{ end(ifeq) }}",
    "{{ begin(\"zz\") }}x\n#{{ end(\"zy\") }}",
    "{{ begin(\"zz\") }}\n{{ end(\"zz\") }}\n#{{ end(\"zz\") }}",
    "{{ begin(\"zz\") }}\nx\n#{{ else() }}\ny{{ end(\"zz\") }}",
    "{{ for($zzq, \"three.json\") }}x{{ end(for) }}\n\n#{{ end(for) }}",
    "{{ ifeq(1, 1) }}x{{ end(ifeq) }}\n#{{ end(ifeq) }}",
];

/// Faults which are found when the file is parsed, and end within their own tag.
fn parse_faults() -> Vec<&'static str> {
    BAD_PARSE
        .iter()
        .copied()
        .filter(|f| {
            f.matches('"').count() % 2 == 0
                && f.matches('(').count() == f.matches(')').count()
                && f.ends_with("}}")
                && !f.contains("{{ {{")
                && *f != "{{ begin(for) }}"
        })
        .collect()
}

/// Writes the marked tag over several lines.
fn spread(src: &mut Src, t: &str) -> String {
    let start = t.find(MARK).unwrap();
    let end = start + t[start..].find("}}").unwrap();
    let nl = *src.pick(&["\n", "\r\n", "\n\n", " \n\t", "\n \n"]);
    let mut tag = t[start..end].to_string();
    for at in ["(", ", ", ")", " }"] {
        if src.coin() {
            tag = match at {
                ")" => tag.replace(')', &format!("{})", nl)),
                " }" => format!("{}{}", tag.trim_end(), nl),
                ", " => tag.replace(", ", &format!(",{}", nl)),
                _ => tag.replace('(', &format!("({}", nl)),
            };
        }
    }
    format!("{}{}{}", &t[..start], tag, &t[end..])
}

/// Whether the fault stands (within a conditional, within a loop).
fn surroundings(nodes: &[Node], cond: bool, looped: bool) -> Option<(bool, bool)> {
    for n in nodes {
        let r = match n {
            Node::BadExec(_) => Some((cond, looped)),
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                surroundings(t, true, looped).or_else(|| e.as_ref().and_then(|e| surroundings(e, true, looped)))
            }
            Node::For(_, _, _, b) => surroundings(b, cond, true),
            Node::Section(_, b) => surroundings(b, cond, looped),
            _ => None,
        };
        if r.is_some() {
            return r;
        }
    }
    None
}

pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W {
        wrong: 0,
        depth: 3,
        max_items: 3,
        md_files: 3,
        pages: 3,
        text: 24,
        odd: 6,
        section: 6,
        style: if src.coin() { Style::OneLine } else { Style::Free },
        ..W::default()
    };
    let mut site = gen_site(src, &w);
    site.bytes.insert("three.json".into(), b"[1,2,{}]".to_vec());
    site.files.insert(
        "three.json".into(),
        File::Json(gen::Val::Arr(vec![gen::Val::num(1.0), gen::Val::num(2.0), gen::Val::Obj(vec![])])),
    );
    if let Err(e) = expect(&site, &model::env(), None) {
        let _ = e;
        o.class("discarded");
        return o;
    }

    let kind = src.weighted(&[35, 55, 10]);
    let mut path = String::new();
    let mut fault = String::new();
    if kind == 2 {
        // A malformed line of frontmatter.
        let mds: Vec<String> = site.files.iter().filter(|(_, f)| matches!(f, File::Md(m) if !m.front.is_empty())).map(|(p, _)| p.clone()).collect();
        if mds.is_empty() {
            o.class("discarded");
            return o;
        }
        path = src.pick(&mds).clone();
        fault = src.pick(&["title", "title: x", "title: \"x", "", "title = \"x\"", "  ", "x: 'y'", ": \"", "- a: b"]).to_string();
        let t = text(&site.bytes[&path]);
        let mut lines: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
        let cr = lines[0].ends_with('\r');
        let end = lines.iter().skip(1).position(|l| l.starts_with("---")).unwrap() + 1;
        let at = src.usize(1, end);
        lines.insert(at, format!("{}{}{}", MARK, fault, if cr { "\r" } else { "" }));
        site.bytes.insert(path.clone(), lines.join("\n").into_bytes());
        o.class("in frontmatter");
    } else {
        let mut total = 0usize;
        all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
        let target = src.below(total as u64) as usize;
        let mut i = 0usize;
        let parse = parse_faults();
        all_blocks(&mut site, &mut |p, b, parent: Parent| {
            if path.is_empty() && target <= i + b.len() {
                path = p.to_string();
                fault = if kind == 0 {
                    format!("#{}", src.pick(&parse))
                } else if parent != Parent::If && src.chance(1, 12) {
                    "#{{ else() }}".into()
                } else {
                    // A stray end may close the block around it, and be blamed on a later tag.
                    let stray = |f: &str| f.contains("#{{ end(for)") || f.contains("#{{ end(ifeq)");
                    let ok: Vec<&str> =
                        EXEC.iter().copied().filter(|f| !stray(f) || !matches!(parent, Parent::If | Parent::For)).collect();
                    src.pick(&ok).to_string()
                };
                let t = fault.replacen('#', &MARK.to_string(), 1);
                // The line may be long.
                let t = match src.below(16) {
                    0 => format!("{}{}", gen::long(src), t),
                    1 => format!("{}{}", t, gen::long(src)),
                    2 => format!("{}{}{}", gen::long(src), t, gen::long(src)),
                    _ => t,
                };
                let t = if src.coin() { format!("\n{}", t) } else { t };
                // It may be a long way down.
                let t = if src.chance(1, 16) {
                    let n = *src.pick(&[5usize, 8, 95, 98, 250, 253, 254, 255, 256, 996, 998, 4095, 9_997, 65_533, 65_535]);
                    format!("{}{}", src.pick(&["\n", "x\n", "\r\n"]).repeat(n + src.usize(0, 3)), t)
                } else {
                    t
                };
                // A tag which spans lines is at the line where it starts.
                let t = if kind != 0 && src.chance(1, 4) { spread(src, &t) } else { t };
                b.insert(target - i, if kind == 0 { Node::BadParse(t) } else { Node::BadExec(t) });
            }
            i += b.len() + 1;
        });
        rewrite(&mut site, &path, src, w.style);
        // Where a branch with an unbalanced block is not taken at first, the blame is open.
        let open = fault.contains("{{ e") && !fault.contains("$zznope") && match &site.files[&path] {
            File::Html(n) => {
                let (cond, looped) = surroundings(n, false, false).unwrap_or((false, false));
                cond && (looped || matches!(base_of(&path), "root.html" | "md.html"))
            }
            File::Md(m) => surroundings(&m.body, false, false).map_or(false, |s| s.0 && s.1),
            _ => false,
        };
        if kind == 1 && open {
            o.class("discarded");
            return o;
        }
        o.class(if kind == 0 { "found by the parser" } else { "found when executed" });
        o.class(match base_of(&path) {
            "root.html" => "in a root template",
            "md.html" => "in a Markdown template",
            p if p.ends_with(".md") => "in a Markdown body",
            _ => "in a page",
        });
    }
    // Finds the line of the mark and removes it.
    let t = text(&site.bytes[&path]);
    let at = match t.find(MARK) {
        Some(i) => i,
        None => {
            o.class("discarded");
            return o;
        }
    };
    let line = t[..at].matches('\n').count() + 1;
    let t = t.replace(MARK, "");
    let line_text = t.split('\n').nth(line - 1).unwrap().trim_end_matches('\r').to_string();
    site.bytes.insert(path.clone(), t.into_bytes());
    o.class_if(line > 1, "below the first line");

    if kind != 2 {
        match expect(&site, &model::env(), None) {
            Err(e) if e.contains("malformed") || e.contains("fails:") => (),
            Err(e) => {
                // The model stops at something else, which can only be out of its own reach.
                let _ = e;
                o.class("discarded");
                return o;
            }
            Ok(_) => {
                o.class("fault not rendered");
                return o;
            }
        }
    }
    o.nontrivial = true;
    o.hash = hash_files(&site.bytes);
    let mut show = show_files(&site.bytes);
    show["(fault)"] = format!("{} at line {} of {}", fault, line, path).into();
    o.show = show;

    let dir = ctx.fresh();
    if ctx.stuart.is_some() && src.chance(1, 10) {
        o.class("command line");
        let p = cli::project(&site.bytes, "");
        write_files(&dir, &p);
        // The location is relative to the current directory if the file is in it.
        let inside = src.coin();
        let r = if inside {
            cli::stuart(ctx, &dir, &["build"], &cli::Env::default())
        } else {
            let m = dir.join("stuart.toml");
            let other = dir.join("static");
            std::fs::create_dir_all(&other).unwrap();
            cli::stuart(ctx, &other, &["build", "--manifest-path", m.to_str().unwrap()], &cli::Env::default())
        };
        if !r.clean_error() {
            o.fail("status", format!("expected a failure at {}:{}: {}", path, line, r.describe()));
            return o;
        }
        let content = dir.canonicalize().unwrap().join("content");
        let shown = if inside { format!("content/{}", path) } else { format!("{}/{}", content.display(), path) };
        let place = format!("--> {}:{}:", shown, line);
        if !r.stderr.contains(&place) {
            o.fail("location", format!("`{}` is not in the message: {}", place, r.describe()));
        } else if !cli::plain(&r.stderr).contains(&cli::plain(&format!("{} | {}\n", line, line_text))) {
            o.fail("text", format!("the text of line {} is not in the message: {}", line, r.describe()));
        }
    } else {
        let content = dir.join("content");
        write_files(&content, &site.bytes);
        let want = content.canonicalize().unwrap().join(&path);
        let r = guard(|| {
            let mut s = stuart_core::Stuart::new(&content).with_config(config(false));
            s.build("production".to_string())
        });
        let (p, l, k) = match r {
            Err(p) => {
                o.fail("panic", p);
                return o;
            }
            Ok(Ok(())) => {
                o.fail("accepted", format!("the build succeeds in spite of {} in {}", fault, path));
                return o;
            }
            Ok(Err(Error::Parse(e))) => (e.path, e.line, format!("{:?}", e.kind)),
            Ok(Err(Error::Process(e))) => (e.path, e.line, format!("{:?}", e.kind)),
            Ok(Err(e)) => {
                o.fail("unlocated", format!("{} at {}:{} gives an error without location: {:?}", fault, path, line, e));
                return o;
            }
        };
        if p != want || l as usize != line {
            o.fail(
                "location",
                format!("{} is at {}:{}, but the error ({}) is at {}:{}", fault, want.display(), line, k, p.display(), l),
            );
        }
    }
    o
}
