//! C07: unbalanced blocks and malformed tags fail the build.

use super::model;
use crate::ast::*;
use crate::engine::*;
use crate::site::*;
use crate::tgen::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Parent {
    Top,
    Section,
    For,
    /// A branch of a conditional.
    If,
}

/// Calls `f` for every list of nodes.
pub fn blocks<'a>(nodes: &'a mut Vec<Node>, parent: Parent, f: &mut dyn FnMut(&mut Vec<Node>, Parent)) {
    f(nodes, parent);
    for n in nodes.iter_mut() {
        match n {
            Node::Section(_, b) => blocks(b, Parent::Section, f),
            Node::For(_, _, _, b) => blocks(b, Parent::For, f),
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                blocks(t, Parent::If, f);
                if let Some(e) = e {
                    blocks(e, Parent::If, f);
                }
            }
            _ => (),
        }
    }
}

pub fn all_blocks(site: &mut Site, f: &mut dyn FnMut(&str, &mut Vec<Node>, Parent)) {
    for (p, file) in site.files.iter_mut() {
        match file {
            File::Html(n) => blocks(n, Parent::Top, &mut |b, q| f(p, b, q)),
            File::Md(m) => blocks(&mut m.body, Parent::Top, &mut |b, q| f(p, b, q)),
            _ => (),
        }
    }
}

/// Writes the file again after its tree was changed.
pub fn rewrite(site: &mut Site, path: &str, src: &mut Src, style: Style) {
    let t = match site.files.get_mut(path) {
        Some(File::Html(n)) => write(n, src, style),
        Some(File::Md(m)) => write_md(m, src, style, false),
        _ => return,
    };
    site.bytes.insert(path.to_string(), t.into_bytes());
}

pub const BAD_PARSE: &[&str] = &[
    "{{ nosuch() }}",
    "{{ nosuch($a, \"b\") }}",
    "{{ p::f(\"x\") }}",
    "{{ begins(\"x\") }}",
    "{{ Begin(\"x\") }}",
    "{{ ifeqq(1, 1) }}",
    "{{ begin() }}",
    "{{ begin($a) }}",
    "{{ begin(1) }}",
    "{{ begin(\"a\", \"b\") }}",
    "{{ begin(label=\"a\") }}",
    "{{ begin(\"a\", x=1) }}",
    "{{ begin(abc) }}",
    "{{ begin(for) }}",
    "{{ begin(\"a\"b\") }}",
    "{{ begin(\"a\" \"b\") }}",
    "{{ end() }}",
    "{{ end($x) }}",
    "{{ end(1) }}",
    "{{ end(nosuch) }}",
    "{{ end(for, for) }}",
    "{{ end(for, x=1) }}",
    "{{ import($zz) }}",
    "{{ import(\"zz\", \"data.json\") }}",
    "{{ import($zz, $zy) }}",
    "{{ import($zz, \"data.json\", \"x\") }}",
    "{{ import($zz, \"data.json\", x=1) }}",
    "{{ import(a=$zz, \"data.json\") }}",
    "{{ import($z-z, \"data.json\") }}",
    "{{ insert() }}",
    "{{ insert($a) }}",
    "{{ insert(begin) }}",
    "{{ insert(\"a\", \"b\") }}",
    "{{ for($zz) }}",
    "{{ for(\"zz\", $env) }}",
    "{{ for($zz, 3) }}",
    "{{ for($zz, \"data\") }}",
    "{{ for($zz, \"data.json\", foo=1) }}",
    "{{ for($zz, \"data.json\", skip=\"1\") }}",
    "{{ for($zz, \"data.json\", skip=-1) }}",
    "{{ for($zz, \"data.json\", limit=$a) }}",
    "{{ for($zz, \"data.json\", limit=-1) }}",
    "{{ for($zz, \"data.json\", limit=1, limit=2) }}",
    "{{ for($zz, \"data.json\", order=\"asc\", order=\"desc\") }}",
    "{{ for($zz, \"data.json\", order=\"asc\", sortby=\"a\", order=\"asc\") }}",
    "{{ for($zz, \"data.json\", order=\"up\") }}",
    "{{ for($zz, \"data.json\", order=asc) }}",
    "{{ for($zz, \"data.json\", sortby=3) }}",
    "{{ for($zz, \"data.json\", limit=) }}",
    "{{ for($zz, \"data.json\", =1) }}",
    "{{ for($zz, \"data.json\", limit=1, 2) }}",
    "{{ else(1) }}",
    "{{ else(x=1) }}",
    "{{ ifeq(1) }}",
    "{{ ifeq() }}",
    "{{ ifeq(1, 2, 3) }}",
    "{{ ifne(1, x=2) }}",
    "{{ ifgt(for, 2) }}",
    "{{ iflt(1, abc) }}",
    "{{ ifge(1.5, 1) }}",
    "{{ ifle(99999999999, 1) }}",
    "{{ ifdefined() }}",
    "{{ ifdefined(\"a\") }}",
    "{{ ifdefined($a, $b) }}",
    "{{ ifdefined(1) }}",
    "{{ timetoread() }}",
    "{{ timetoread(\"a b\") }}",
    "{{ timetoread($a, 2) }}",
    "{{ excerpt($a) }}",
    "{{ excerpt($a, \"3\") }}",
    "{{ excerpt($a, -1) }}",
    "{{ excerpt(\"abc\", 2) }}",
    "{{ excerpt($a, 2, 3) }}",
    "{{ dateformat($a) }}",
    "{{ dateformat(\"2020-01-01\", \"%Y\") }}",
    "{{ dateformat($a, 3) }}",
    "{{ dateformat($a, \"%Y\", \"x\") }}",
    "{{ $ }}",
    "{{ $a b }}",
    "{{ $a-b }}",
    "{{ $$a }}",
    "{{ $a() }}",
    "{{ $a $b }}",
    "{{ }}",
    "{{}}",
    "{{ () }}",
    "{{ 12 }}",
    "{{ \"x\" }}",
    "{{ begin }}",
    "{{ begin \"a\" }}",
    "{{ begin(\"a\") x }}",
    "{{ begin(\"a\") }",
    "{{ begin(\"a\") } }",
    "{{ begin(\"a\" }}",
    "{{ $a }",
    "{{ $a } }",
    "{{ $a ",
    "{{ if(1) }}",
    "{{ {{ $a }} }}",
    "{{ -begin(\"a\") }}",
    "{{ begin[\"a\"] }}",
    "{{ insert(\"a\")) }}",
    "{{ insert((\"a\")) }}",
    "{{ insert('a') }}",
];

/// Only at the very end of a file.
pub const BAD_TAIL: &[&str] = &[
    "{{", "{{ ", "{{ $", "{{ $a", "{{ $a }", "{{ begin", "{{ begin(", "{{ begin(\"", "{{ begin(\"a", "{{ begin(\"a\"",
    "{{ begin(\"a\")", "{{ begin(\"a\") }", "{{ import($a,", "{{ end(for", "{{ \n", "{{ begin(\"a\" , ",
    // But for being left open, these would do.
    "{{ $env.STUART_ENV", "{{ $env.STUART_ENV }", "{{$env.STUART_ENV\n", "{{ import($zz, \"three.json\")", "{{ import($zz, \"three.json\") }",
    "{{ import($zz, \"three.json\") \n", "{{ timetoread($env.STUART_ENV)", "{{ excerpt($env.STUART_ENV, 3) ", "{{ begin(\"zz\") }}{{ end(\"zz\")",
    "{{ begin(\"zz\") }}{{ end(\"zz\") }", "{{ ifeq(1, 1) }}x{{ end(ifeq)", "{{ for($zz, \"three.json\") }}x{{ end(for) \n",
    "{{ ifeq(1, 2) }}x{{ else() }}y{{ end(ifeq) }",
];

/// Faults which only show when they are executed.
fn bad_exec(src: &mut Src, parent: Parent) -> &'static str {
    let any: &[&str] = &[
        "{{ end(for) }}",
        "{{ end(ifeq) }}",
        "{{ end(ifdefined) }}",
        "{{ end(\"zz\") }}",
        "{{ end(import) }}",
        "{{ end(end) }}",
        "{{ begin(\"zz\") }}",
        "{{ begin(\"zz\") }}x",
        "{{ ifdefined($env) }}x",
        "{{ ifdefined($nope) }}x",
        "{{ ifeq(1, 1) }}x",
        "{{ ifeq(1, 2) }}x",
        "{{ ifgt(1, 2) }}x{{ else() }}y",
        "{{ for($zz, \"three.json\") }}x",
        "{{ for($zz, \"three.json\", limit=0) }}x",
        "{{ begin(\"zz\") }}x{{ end(\"zy\") }}",
        "{{ begin(\"zz\") }}x{{ end(\"z\") }}",
        "{{ begin(\"zz\") }}x{{ end(\"zzz\") }}",
        "{{ begin(\"zz\") }}x{{ end(for) }}",
        "{{ begin(\"for\") }}x{{ end(for) }}",
        "{{ for($zz, \"three.json\") }}x{{ end(\"zz\") }}",
        "{{ for($zz, \"three.json\") }}x{{ end(\"for\") }}",
        "{{ for($zz, \"three.json\") }}x{{ end(ifeq) }}",
        "{{ ifeq(1, 1) }}x{{ end(ifne) }}",
        "{{ ifeq(1, 1) }}x{{ end(\"ifeq\") }}",
        "{{ ifdefined($env) }}x{{ end(ifeq) }}",
        "{{ ifeq(2, 1) }}x{{ else() }}y{{ end(for) }}",
        "{{ begin(\"zz\") }}x{{ end(\"zz\") }}{{ end(\"zz\") }}",
        "{{ for($zz, \"three.json\") }}x{{ end(for) }}{{ end(for) }}",
        "{{ ifeq(1, 1) }}x{{ end(ifeq) }}{{ end(ifeq) }}",
        "{{ ifeq(1, 2) }}x{{ end(ifeq) }}{{ end(ifeq) }}",
        "{{ begin(\"zz\") }}{{ ifeq(1, 1) }}x{{ end(\"zz\") }}{{ end(ifeq) }}",
        "{{ begin(\"zz\") }}{{ for($zz, \"three.json\") }}x{{ end(\"zz\") }}{{ end(for) }}",
        "{{ for($zz, \"three.json\") }}{{ begin(\"zz\") }}x{{ end(for) }}{{ end(\"zz\") }}",
        "{{ begin(\"zz\") }}{{ begin(\"zy\") }}x{{ end(\"zz\") }}{{ end(\"zy\") }}",
        "{{ begin(\"zz\") }}x{{ else() }}y{{ end(\"zz\") }}",
        "{{ for($zz, \"three.json\") }}x{{ else() }}y{{ end(for) }}",
        "{{ ifeq(1, 1) }}{{ begin(\"zz\") }}x{{ else() }}y{{ end(\"zz\") }}{{ end(ifeq) }}",
        "{{ ifeq(1, 1) }}{{ for($zz, \"three.json\") }}{{ else() }}{{ end(for) }}{{ end(ifeq) }}",
        "{{ begin(\"if\") }}x{{ else() }}y{{ end(\"if\") }}",
    ];
    if parent != Parent::If && src.chance(1, 8) {
        return "{{ else() }}";
    }
    *src.pick(any)
}

/// What a positional argument of a function may be.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Var,
    Str,
    Num,
    /// A bare word.
    Word,
}

use Kind::*;

const FUNCTIONS: &[(&str, &[&[Kind]])] = &[
    ("begin", &[&[Str]]),
    ("end", &[&[Str, Word]]),
    ("import", &[&[Var], &[Str]]),
    ("insert", &[&[Str]]),
    ("for", &[&[Var], &[Var, Str]]),
    ("else", &[]),
    ("ifeq", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("ifne", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("ifgt", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("ifge", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("iflt", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("ifle", &[&[Var, Str, Num], &[Var, Str, Num]]),
    ("ifdefined", &[&[Var]]),
    ("timetoread", &[&[Var]]),
    ("excerpt", &[&[Var], &[Num]]),
    ("dateformat", &[&[Var], &[Str]]),
];

/// A name close to another one.
fn near(src: &mut Src, name: &str) -> String {
    let c: Vec<char> = name.chars().collect();
    let n = c.len();
    match src.below(10) {
        0 => c[..n - 1].iter().collect(),
        1 => c[1..].iter().collect(),
        2 => c[..src.usize(0, n)].iter().collect(),
        3 => format!("{}{}", name, src.pick(&["s", "_", "2", "s", "é", "x", "for", "if"])),
        4 => format!("{}{}", src.pick(&["x", "end", "un", "_", "if"]), name),
        5 => name.to_uppercase(),
        6 => format!("{}{}", c[0].to_uppercase(), c[1..].iter().collect::<String>()),
        7 => c.iter().rev().collect(),
        8 => format!("{}::{}", src.pick(&["stuart", "p", "core", ""]), name),
        _ => format!("{}{}", name, name),
    }
}

fn argument(src: &mut Src, k: Kind, file: bool) -> String {
    match k {
        Var => src.pick(&["$zz", "$env", "$a.b"]).to_string(),
        Str if file => "\"three.json\"".into(),
        Str => src.pick(&["\"zz\"", "\"\"", "\"%Y\"", "\"1\""]).to_string(),
        Num => src.pick(&["1", "0", "22"]).to_string(),
        Word => src.pick(&["for", "ifeq", "zz", "begin"]).to_string(),
    }
}

/// A call which differs in one thing from a valid one.
fn bad_call(src: &mut Src) -> String {
    let &(name, params) = src.pick(FUNCTIONS);
    let mut name = name.to_string();
    let file = matches!(&name[..], "import" | "for");
    let mut args: Vec<String> = vec![];
    for (i, ks) in params.iter().enumerate() {
        let k = *src.pick(ks);
        args.push(if name == "end" && k == Word { "for".into() } else { argument(src, k, file && i == 1) });
    }
    let i = src.below(params.len().max(1) as u64) as usize;
    match src.below(if args.is_empty() { 3 } else { 7 }) {
        0 => {
            let n = near(src, &name);
            if FUNCTIONS.iter().all(|f| f.0 != n) {
                name = n;
            } else {
                name = "nosuch".into();
            }
        }
        1 => {
            let k = *src.pick(&[Var, Str, Num, Word]);
            let a = argument(src, k, false);
            args.push(a);
        }
        2 => {
            let k = *src.pick(&[Var, Str, Num]);
            let n = *src.pick(&["x", "name", "label", "value", "Limit", "limits"]);
            let a = argument(src, k, false);
            args.push(format!("{}={}", n, a));
        }
        3 => {
            args.remove(i);
        }
        4 => args[i] = format!("{}={}", src.pick(&["x", "name", "limit"]), args[i]),
        _ => {
            let wrong: Vec<Kind> = [Var, Str, Num, Word].iter().filter(|k| !params[i].contains(k)).cloned().collect();
            match src.pick(&wrong) {
                // A bare word is the name of a function, if anything.
                _ if wrong.is_empty() || (name == "end" && src.coin()) => {
                    args[i] = near(src, "ifeq");
                    if FUNCTIONS.iter().any(|f| f.0 == args[i]) {
                        args[i] = "nosuch".into();
                    }
                }
                k => args[i] = argument(src, *k, false),
            }
        }
    }
    let sep = *src.pick(&[", ", ",", " , "]);
    format!("{{{{ {}({}) }}}}", name, args.join(sep))
}

/// A call, complete with the block it opens, but for its arguments: a number no integer can be, a
/// positional argument after a named one, and so on.
fn bad_arguments(src: &mut Src) -> String {
    let number = |src: &mut Src| -> String {
        match src.below(4) {
            0 => src.pick(&["2147483648", "-2147483649", "4294967296", "4294967295", "9223372036854775807", "9223372036854775808"]).to_string(),
            1 => src.pick(&["18446744073709551616", "340282366920938463463374607431768211456", "-99999999999", "99999999999999999999999999999999999999999999"]).to_string(),
            2 => src.pick(&["1.0", "1.5", ".5", "1e3", "0x10", "1,000", "--1", "1-", "1 0", "- 1", "\u{ff11}", "\u{661}", "1%", "#1", "'1'"]).to_string(),
            _ => format!("{}{}", src.range(1, 999_999), src.range(100_000_000, 999_999_999)),
        }
    };
    let tag = |s: String| format!("{{{{ {} }}}}", s);
    let end = |n: &str| format!("x{{{{ end({}) }}}}", n);
    let op = *src.pick(&["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"]);
    match src.below(10) {
        // One named argument given twice.
        9 => {
            let value = |src: &mut Src, n: &str| match n {
                "order" => src.pick(&["\"asc\"", "\"desc\""]).to_string(),
                "sortby" => src.pick(&["$zz", "$zz.a", "\"a\""]).to_string(),
                _ => src.range(0, 3).to_string(),
            };
            let names = ["skip", "limit", "order", "sortby"];
            let twice = *src.pick(&names);
            let mut all: Vec<&str> = names.into_iter().filter(|n| *n == twice || src.coin()).collect();
            let at = src.usize(0, all.len());
            all.insert(at, twice);
            let args: Vec<String> = all.iter().map(|n| format!("{}={}", n, value(src, n))).collect();
            format!("{}{}", tag(format!("for($zz, \"three.json\", {})", args.join(", "))), end("for"))
        }
        0 => format!("{}{}", tag(format!("for($zz, \"three.json\", {}={})", src.pick(&["limit", "skip"]), number(src))), end("for")),
        1 => tag(format!("excerpt($env.STUART_ENV, {})", number(src))),
        2 | 3 => {
            let mut a = [src.pick(&["1", "$env.STUART_ENV", "\"x\""]).to_string(), number(src)];
            if src.coin() {
                a.swap(0, 1);
            }
            format!("{}{}", tag(format!("{}({}, {})", op, a[0], a[1])), end(op))
        }
        // Positional arguments after named ones.
        4 | 5 => {
            let pos = ["$zz".to_string(), "\"three.json\"".to_string()];
            let all = [
                ("skip", src.range(0, 2).to_string()),
                ("limit", src.range(1, 3).to_string()),
                ("order", src.pick(&["\"asc\"", "\"desc\""]).to_string()),
                ("sortby", "$zz".to_string()),
            ];
            let n = src.usize(1, 4);
            let mut args: Vec<String> = vec![];
            let (mut i, mut j) = (0, 0);
            let mut wrong = false;
            while i < 2 || j < n {
                // The last one is positional.
                if j == n || (i < 2 && (i == 0 && !wrong || j > 0) && src.coin()) {
                    if i == 2 {
                        break;
                    }
                    wrong |= j > 0;
                    args.push(pos[i].clone());
                    i += 1;
                } else {
                    args.push(format!("{}={}", all[j].0, all[j].1));
                    j += 1;
                    // Leave one for the end.
                    if i == 2 && !wrong {
                        i = 1;
                        args.retain(|a| *a != pos[1]);
                    }
                }
            }
            if !wrong {
                args = vec![pos[0].clone(), "limit=2".into(), pos[1].clone()];
            }
            format!("{}{}", tag(format!("for({})", args.join(", "))), end("for"))
        }
        6 => {
            let (f, a, b) = *src.pick(&[
                ("excerpt", "$env.STUART_ENV", "3"),
                ("dateformat", "$env.STUART_ENV", "\"%Y\""),
                ("import", "$zz", "\"three.json\""),
            ]);
            tag(match src.below(4) {
                0 => format!("{}(x={}, {})", f, a, b),
                1 => format!("{}({}, x={})", f, a, b),
                2 => format!("{}(x=1, {}, {})", f, a, b),
                _ => format!("{}({}, x=1, {})", f, a, b),
            })
        }
        7 => {
            let a = src.pick(&["1", "\"x\"", "$env.STUART_ENV"]).to_string();
            let args = match src.below(4) {
                0 => format!("x=1, {}, {}", a, a),
                1 => format!("{}, x=1, {}", a, a),
                2 => format!("{}, {}, x=1", a, a),
                _ => format!("x={}, {}", a, a),
            };
            format!("{}{}", tag(format!("{}({})", op, args)), end(op))
        }
        _ => match src.below(4) {
            0 => format!("{}{}", tag("begin(x=1, \"zz\")".into()), end("\"zz\"")),
            1 => format!("{}{}", tag("begin(\"zz\", x=1)".into()), end("\"zz\"")),
            2 => format!("{}{}", tag(format!("begin(\"zz\")")), format!("x{{{{ end({}) }}}}", src.pick(&["x=1, \"zz\"", "\"zz\", x=1", "x=\"zz\"", "\"zz\", \"zz\""]))),
            _ => format!("{}{}", tag(src.pick(&["ifdefined(x=1, $env)", "ifdefined($env, x=1)", "ifdefined(x=$env)"]).to_string()), end("ifdefined")),
        },
    }
}

/// A block whose end is missing, doubled or another one's.
fn bad_block(src: &mut Src) -> String {
    let opener = |src: &mut Src| -> (String, String) {
        match src.below(5) {
            0 | 1 => {
                let l = src.pick(&["zz", "if", "for", "zz zz", "é", "a:b", "begin", "z", "Zz"]).to_string();
                (format!("{{{{ begin(\"{}\") }}}}", l), format!("\"{}\"", l))
            }
            2 => (format!("{{{{ for($z{}, \"three.json\") }}}}", src.below(9)), "for".into()),
            3 => {
                let op = *src.pick(&["ifeq", "ifne", "ifge", "ifle"]);
                (format!("{{{{ {}({}, 1) }}}}", op, src.range(0, 1)), op.into())
            }
            _ => (format!("{{{{ ifdefined(${}) }}}}", src.pick(&["env", "nope"])), "ifdefined".into()),
        }
    };
    let (open, close) = opener(src);
    let (open2, close2) = opener(src);
    let end = |c: &str| format!("{{{{ end({}) }}}}", c);
    let wrong = match src.below(3) {
        0 if close.starts_with('"') => {
            let inner = close.trim_matches('"').to_string();
            let n = near(src, &inner);
            format!("\"{}\"", if n == inner { "nosuch".to_string() } else { n })
        }
        0 if src.chance(1, 2) => {
            // The name of the function, cut short or gone on with.
            match src.below(4) {
                0 | 1 => close[..1 + src.below(close.len() as u64 - 1) as usize].to_string(),
                2 => close[1..].to_string(),
                _ => format!("{}{}", close, src.pick(&["s", "_", "x", "1"])),
            }
        }
        0 => {
            let n = src.pick(FUNCTIONS).0;
            if n == close { "\"zz\"".into() } else { n.to_string() }
        }
        1 if close.starts_with('"') => format!("\"{}{}\"", close.trim_matches('"'), src.pick(&[" ", ":", "\t", ".", "\u{301}"])),
        1 => format!("\"{}\"", close),
        _ if close2 != close => close2.clone(),
        _ => "import".into(),
    };
    match src.below(8) {
        0 => format!("{}x", open),
        1 => format!("{}x{}{}", open, end(&close), end(&close)),
        2 => format!("{}x{}", open, end(&wrong)),
        3 => format!("{}x{}{}", open, end(&wrong), end(&close)),
        4 if close != close2 => format!("{}x{}y{}z{}", open, open2, end(&close), end(&close2)),
        5 => format!("{}x{}y{}", open, open2, end(&close2)),
        6 if !close.starts_with("if") => format!("{}x{{{{ else() }}}}y{}", open, end(&close)),
        7 if close2 != close => end(&close2),
        _ => format!("{}x{}y{}z{}{}", open, open2, end(&close2), end(&close), end(&close)),
    }
}

pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W { wrong: 0, depth: 3, max_items: 4, md_files: 2, pages: 2, text: 20, section: 6, if_: 8, for_: 8, ..W::default() };
    let mut site = gen_site(src, &w);
    let three = crate::gen::Val::Arr((1..4).map(|i| crate::gen::Val::num(i as f64)).collect());
    site.bytes.insert("three.json".into(), b"[1,2,3]".to_vec());
    site.files.insert("three.json".into(), File::Json(three));

    // Where the fault goes.
    let mut n = 0usize;
    all_blocks(&mut site, &mut |_, b, _| n += b.len() + 1);
    let target = src.below(n as u64) as usize;
    let kind = src.weighted(&[45, 10, 45]);
    let mut path = String::new();
    let mut fault = String::new();
    if kind == 1 {
        let ps: Vec<String> =
            site.files.iter().filter(|(_, f)| matches!(f, File::Html(_) | File::Md(_))).map(|(p, _)| p.clone()).collect();
        path = src.pick(&ps).clone();
        fault = src.pick(BAD_TAIL).to_string();
        match site.files.get_mut(&path) {
            Some(File::Html(n)) => n.push(Node::BadParse(fault.clone())),
            Some(File::Md(m)) => m.body.push(Node::BadParse(fault.clone())),
            _ => (),
        }
        o.class("malformed tag at the end of a file");
    } else {
        let mut i = 0usize;
        all_blocks(&mut site, &mut |p, b, parent| {
            if target >= i && target <= i + b.len() {
                let at = target - i;
                if fault.is_empty() {
                    path = p.to_string();
                    fault = if kind == 0 {
                        match src.below(3) {
                            0 => bad_call(src),
                            1 => bad_arguments(src),
                            _ => src.pick(BAD_PARSE).to_string(),
                        }
                    } else if src.coin() {
                        bad_block(src)
                    } else {
                        bad_exec(src, parent).to_string()
                    };
                    let node = if kind == 0 { Node::BadParse(fault.clone()) } else { Node::BadExec(fault.clone()) };
                    b.insert(at, node);
                }
            }
            i += b.len() + 1;
        });
        o.class(if kind == 0 { "malformed tag" } else { "unbalanced block" });
    }
    rewrite(&mut site, &path, src, w.style);
    o.class(match crate::ast::base_of(&path) {
        "root.html" => "in a root template",
        "md.html" => "in a Markdown template",
        p if p.ends_with(".md") => "in a Markdown body",
        _ => "in a page",
    });
    o.hash = hash_files(&site.bytes);
    let mut show = show_files(&site.bytes);
    show["(fault)"] = format!("{} in {}", fault, path).into();
    o.show = show;

    let exp = expect(&site, &model::env(), None);
    let dir = ctx.fresh();
    let content = dir.join("content");
    write_files(&content, &site.bytes);
    let built = build(&content, &dir.join("out"), config(false));
    if let Built::Panic(p) = &built {
        o.fail("panic", p.clone());
        return o;
    }
    match exp {
        Err(e) if e.contains("malformed") || e.contains("fails:") => {
            o.nontrivial = true;
            if let Built::Ok(_) = built {
                o.fail("accepted", format!("the build succeeds in spite of {} in {}", fault, path));
            }
        }
        _ => o.class("fault not rendered"),
    }
    o
}
