//! C30: the message of a failed build names what is at fault.

use super::faults::{all_blocks, rewrite, Parent};
use super::model;
use crate::ast::*;
use crate::cli;
use crate::engine::*;
use crate::gen::Val;
use crate::site::*;
use crate::tgen::*;
use stuart_core::Error;

/// What a failing tag must be blamed on: the name of the error's kind, what the message calls it,
/// and the names it must mention. `@` is a fresh name, `~` a fresh path.
struct Fault {
    text: &'static str,
    kind: &'static str,
    words: &'static str,
    names: &'static [&'static str],
    parse: bool,
}

const fn exec(text: &'static str, kind: &'static str, words: &'static str, names: &'static [&'static str]) -> Fault {
    Fault { text, kind, words, names, parse: false }
}

const fn parse(text: &'static str, kind: &'static str, words: &'static str, names: &'static [&'static str]) -> Fault {
    Fault { text, kind, words, names, parse: true }
}

const UNDEFINED: &str = "undefined variable";
const TYPE: &str = "type error in variable";

const FAULTS: &[Fault] = &[
    exec("{{ $@ }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ $@.a.0 }}", "UndefinedVariable", UNDEFINED, &["@.a.0"]),
    exec("{{ ifeq($@, 1) }}x{{ end(ifeq) }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ ifne(\"a\", $@.b) }}x{{ else() }}y{{ end(ifne) }}", "UndefinedVariable", UNDEFINED, &["@.b"]),
    exec("{{ ifgt(0, $@) }}x{{ end(ifgt) }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ ifle($env.STUART_ENV, $@) }}x{{ end(ifle) }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ timetoread($@) }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ excerpt($@.x, 10) }}", "UndefinedVariable", UNDEFINED, &["@.x"]),
    exec("{{ dateformat($@, \"%Y\") }}", "UndefinedVariable", UNDEFINED, &["@"]),
    exec("{{ $env.@ }}", "NullError", "null error", &["env.@"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.9 }}", "NullError", "null error", &["@.9"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.4 }}", "NullError", "null error", &["@.4"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@ }}", "InvalidDataType", TYPE, &["@", "array"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.0 }}", "InvalidDataType", TYPE, &["@.0", "number"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.1 }}", "InvalidDataType", TYPE, &["@.1", "bool"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.2 }}", "InvalidDataType", TYPE, &["@.2", "object"]),
    exec("{{ import($@, \"zz.json\") }}{{ $@.2.k }}", "InvalidDataType", TYPE, &["@.2.k", "array"]),
    exec("{{ for($@, \"zz.json\") }}{{ $@ }}{{ end(for) }}", "InvalidDataType", TYPE, &["@", "number"]),
    exec("{{ for($@, \"zz.json\", skip=2) }}{{ $@.k }}{{ end(for) }}", "InvalidDataType", TYPE, &["@.k", "array"]),
    exec("{{ $env }}", "InvalidDataType", TYPE, &["env", "object"]),
    exec("{{ import($@, \"zz.json\") }}{{ timetoread($@.0) }}", "InvalidDataType", TYPE, &["@.0", "string"]),
    exec("{{ import($@, \"zz.json\") }}{{ excerpt($@, 9) }}", "InvalidDataType", TYPE, &["@", "string"]),
    exec("{{ import($@, \"zz.json\") }}{{ dateformat($@.1, \"%Y\") }}", "InvalidDataType", TYPE, &["@.1", "string"]),
    exec("{{ import($@, \"zz.json\") }}{{ import($@, \"zz.json\") }}", "VariableAlreadyExists", "variable already exists", &["@"]),
    exec("{{ for($@, \"zz.json\") }}{{ import($@, \"zz.json\") }}{{ end(for) }}", "VariableAlreadyExists", "variable already exists", &["@"]),
    exec("{{ import($zzv, \"~.json\") }}", "NotFound", "not found", &["~.json"]),
    exec("{{ import($zzv, \"zz.json/~.json\") }}", "NotFound", "not found", &["zz.json/~.json"]),
    exec("{{ for($zzv, \"~.json\") }}x{{ end(for) }}", "NotFound", "not found", &["~.json"]),
    exec("{{ for($zzv, \"~/\") }}x{{ end(for) }}", "NotFound", "not found", &["~/"]),
    exec("{{ insert(\"@\") }}", "UndefinedSection", "undefined section", &["@"]),
    exec("{{ insert(\"@ @\") }}", "UndefinedSection", "undefined section", &["@ @"]),
    exec("{{ begin(\"zz\") }}{{ insert(\"zz\") }}{{ end(\"zz\") }}", "UndefinedSection", "undefined section", &["zz"]),
    exec("{{ import($zzv, \"zz.json\") }}{{ for($@, $zzv.2) }}x{{ end(for) }}", "NotJsonArray", "not a json array", &[]),
    exec("{{ import($zzv, \"zz.json\") }}{{ dateformat($zzv.5, \"%Y\") }}", "InvalidDate", "invalid date", &[]),
    exec("{{ begin(\"@\") }}x{{ end(\"zz\") }}", "EndWithoutBegin", "no matching `begin` for `end`", &[]),
    exec("{{ begin(\"@\") }}x{{ else() }}{{ end(\"@\") }}", "ElseWithoutIf", "no matching `if` for `else`", &[]),
    parse("{{ @() }}", "NonexistentFunction", "function does not exist", &["@"]),
    parse("{{ @($a, \"b\", 3, c=4) }}", "NonexistentFunction", "function does not exist", &["@"]),
    parse("{{ @::f(\"x\") }}", "NonexistentFunction", "function does not exist", &["@::f"]),
    parse("{{ ifdefined($@-x) }}", "InvalidVariableName", "invalid variable name", &["@-x"]),
    parse("{{ $@ @ }}", "Expected", "expected `}}`", &[]),
    parse("{{ for($@, limit=1, \"zz.json\") }}", "PositionalArgAfterNamedArg", "positional argument after named argument", &[]),
];

fn name(src: &mut Src) -> String {
    const CHARS: &[char] = &['a', 'b', 'n', 'x', 'Q', '0', '7', '_', 'é', 'ß', '語'];
    let mut s = "zz".to_string();
    for _ in 0..src.usize(1, 9) {
        s.push(*src.pick(CHARS));
    }
    s
}

fn is_template(p: &str) -> bool {
    matches!(base_of(p), "root.html" | "md.html")
}

/// The names which the message does not mention.
fn missing(message: &str, words: &str, names: &[String]) -> Option<String> {
    if !message.contains(words) {
        return Some(words.to_string());
    }
    names.iter().find(|n| !message.contains(n.as_str())).cloned()
}

pub fn c30(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W {
        wrong: 0,
        depth: 3,
        max_items: 3,
        md_files: 3,
        pages: 3,
        text: 16,
        odd: 6,
        section: 6,
        style: Style::OneLine,
        ..W::default()
    };
    let mut site = gen_site(src, &w);
    let zz = b"[1,true,{\"k\":[1]},[],null,\"no date\"]";
    site.bytes.insert("zz.json".into(), zz.to_vec());
    site.files.insert(
        "zz.json".into(),
        File::Json(Val::Arr(vec![
            Val::num(1.0),
            Val::Bool(true),
            Val::Obj(vec![("k".into(), Val::Arr(vec![Val::num(1.0)]))]),
            Val::Arr(vec![]),
            Val::Null,
            Val::Str("no date".into()),
        ])),
    );
    if expect(&site, &model::env(), None).is_err() {
        o.class("discarded");
        return o;
    }
    let pages: Vec<String> = site
        .files
        .iter()
        .filter(|(p, f)| matches!(f, File::Html(_) | File::Md(_)) && !is_template(p))
        .map(|(p, _)| p.clone())
        .collect();
    let mds: Vec<String> = pages.iter().filter(|p| p.ends_with(".md")).cloned().collect();

    // What the message must say: alternatives for a name are separated by line feeds.
    let mut names: Vec<String> = vec![];
    let mut words;
    let mut kind = String::new();
    let mut extra = Files::new();
    let what;
    match src.weighted(&[80, 6, 6, 8]) {
        0 => {
            let f = src.pick(FAULTS);
            let n = name(src);
            let mut path = name(src);
            if src.chance(1, 3) {
                path = format!("{}/{}", name(src), path);
            }
            let fill = |s: &str| s.replace('@', &n).replace('~', &path);
            what = fill(f.text);
            words = f.words.to_string();
            kind = f.kind.to_string();
            names = f.names.iter().map(|s| fill(s)).collect();
            let mut total = 0usize;
            all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
            let target = src.below(total as u64) as usize;
            let (mut i, mut file) = (0usize, String::new());
            all_blocks(&mut site, &mut |p, b, _: Parent| {
                if file.is_empty() && target <= i + b.len() {
                    file = p.to_string();
                    b.insert(target - i, if f.parse { Node::BadParse(what.clone()) } else { Node::BadExec(what.clone()) });
                }
                i += b.len() + 1;
            });
            rewrite(&mut site, &file, src, w.style);
            match expect(&site, &model::env(), None) {
                Err(e) if e.contains("malformed") || e.contains("fails:") => (),
                Err(_) => {
                    o.class("discarded");
                    return o;
                }
                Ok(_) => {
                    o.class("fault not rendered");
                    return o;
                }
            }
            o.class(f.kind);
        }
        1 => {
            // Pages without a template.
            let md = !mds.is_empty() && src.coin();
            let base = if md { "md.html" } else { "root.html" };
            let pages = if md { &mds } else { &pages };
            if pages.is_empty() {
                o.class("discarded");
                return o;
            }
            site.bytes.retain(|p, _| base_of(p) != base);
            what = format!("no {}", base);
            words = format!("`{}`", base);
            names.push(pages.iter().map(|p| format!("/{}", p)).collect::<Vec<_>>().join("\n"));
            kind = if md { "MissingMarkdownRoot" } else { "MissingHtmlRoot" }.into();
            o.class("missing template");
        }
        2 => {
            let dir = src.pick(&["", "a/", "zz/b/"]);
            let p = format!("{}{}.json", dir, name(src));
            let bad = src.pick(&["{", "[1,]", "", "nope", "{\"a\":1}}", "\"", "[1 2]"]);
            site.bytes.insert(p.clone(), bad.as_bytes().to_vec());
            what = format!("{}: {}", p, bad);
            names.push(format!("/{}", p));
            kind = "InvalidJson".into();
            words = "invalid json".into();
            o.class("malformed JSON");
        }
        _ => {
            if pages.is_empty() {
                o.class("discarded");
                return o;
            }
            let p = src.pick(&pages).clone();
            let out = match p.strip_suffix(".md") {
                Some(s) => format!("{}.html", s),
                None => p.clone(),
            };
            let dir = src.pick(&["static", "temp"]);
            let clash = if src.chance(1, 3) { format!("{}/x", out) } else { out.clone() };
            extra.insert(format!("{}/{}", dir, clash), b"x".to_vec());
            names.push(format!("content/{}", p));
            names.push(format!("{}/{}", dir, out));
            what = format!("{} and {}", names[0], names[1]);
            words = "conflict".into();
            o.class("conflict");
        }
    }
    o.nontrivial = true;
    o.hash = hash_files(&site.bytes) ^ hash_files(&extra);
    let mut show = show_files(&site.bytes);
    show["(fault)"] = what.clone().into();
    o.show = show;

    let dir = ctx.fresh();
    let message;
    if kind.is_empty() || (ctx.stuart.is_some() && src.chance(1, 6)) {
        o.class("command line");
        if ctx.stuart.is_none() {
            o.nontrivial = false;
            return o;
        }
        let mut p = cli::project(&site.bytes, "");
        p.extend(extra);
        write_files(&dir, &p);
        let r = cli::stuart(ctx, &dir, &["build"], &cli::Env::default());
        if !r.clean_error() {
            o.fail("status", format!("expected a failure because of {}: {}", what, r.describe()));
            return o;
        }
        // Only the message itself counts, not the line of the file.
        let lines: Vec<&str> = r.stderr.lines().collect();
        let at = lines.iter().position(|l| l.starts_with("error:")).unwrap_or(0);
        message = lines[at..].iter().take(2).copied().collect::<Vec<_>>().join("\n");
    } else {
        let content = dir.join("content");
        write_files(&content, &site.bytes);
        let r = guard(|| {
            let mut s = stuart_core::Stuart::new(&content).with_config(config(false));
            s.build("production".to_string())
        });
        let (path, k) = match r {
            Err(p) => {
                o.fail("panic", p);
                return o;
            }
            Ok(Ok(())) => {
                o.fail("accepted", format!("the build succeeds in spite of {}", what));
                return o;
            }
            Ok(Err(Error::Parse(e))) => (e.path, format!("{:?}", e.kind)),
            Ok(Err(Error::Process(e))) => (e.path, format!("{:?}", e.kind)),
            Ok(Err(e)) => {
                o.fail("kind", format!("{} gives {:?}", what, e));
                return o;
            }
        };
        if !kind.split('|').any(|x| k.starts_with(x)) {
            o.fail("kind", format!("{} gives {} and not {}", what, k, kind));
            return o;
        }
        words = String::new();
        message = format!("{} {}", k, path.display());
    }
    for n in &names {
        if n.split('\n').all(|n| missing(&message, "", &[n.to_string()]).is_some()) {
            o.fail("name", format!("`{}` is not named in the message for {}: {}", n, what, message));
            return o;
        }
    }
    if let Some(m) = missing(&message, &words, &[]) {
        o.fail("words", format!("`{}` is not in the message for {}: {}", m, what, message));
    }
    o
}
