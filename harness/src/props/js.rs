//! C19: JavaScript plugins exchange values with templates faithfully.

use super::faults::{all_blocks, rewrite, Parent};
use super::model;
use crate::ast::*;
use crate::cli;
use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;
use crate::tgen::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// What both plugins start with.
const COMMON: &str = r#"
const canon = (v) => {
  if (Array.isArray(v)) return "[" + v.map(canon).join(",") + "]";
  if (v !== null && typeof v === "object")
    return "{" + Object.getOwnPropertyNames(v).sort().map((k) => JSON.stringify(k) + ":" + canon(v[k])).join(",") + "}";
  return v === undefined ? "undefined" : JSON.stringify(v);
};
const holes = (v, f) => {
  if (Array.isArray(v)) v.forEach((x, i) => { if (x === null) f(v, i); else holes(x, f); });
  else if (v !== null && typeof v === "object") Object.values(v).forEach((x) => holes(x, f));
  return v;
};
let counts = {};
let saved, got, put;
globalThis.total = globalThis.total || 0;
"#;

/// Ways to call `STUART.get` and `STUART.set`: the property does not depend on how a plugin reaches them.
const WAYS: [(&str, &str); 7] = [
    ("STUART.get(", "STUART.set("),
    ("STUART[\"get\"](", "STUART[\"set\"]("),
    ("(0, STUART.get)(", "(0, STUART.set)("),
    ("((...a) => { const { get } = STUART; return get(...a); })(", "((...a) => { const { set } = STUART; set(...a); })("),
    ("(saved = saved || STUART).get(", "(saved = saved || STUART).set("),
    ("(got = got || STUART.get)(", "(put = put || STUART.set)("),
    ("STUART.get.call(null, ", "STUART.set.bind({ a: 1 })("),
];

fn functions(suffix: &str, way: (&str, &str)) -> String {
    let f = [
        ("show", "(...args) => args.map(canon).join(\";\")"),
        ("id", "(x) => x"),
        ("lit", "(i) => LITS[i]"),
        ("get", "(n) => canon(STUART.get(n))"),
        ("set", "(n, v) => { STUART.set(n, v); }"),
        ("setlit", "(n, i) => { STUART.set(n, LITS[i]); }"),
        ("add", "(n, s) => { const v = STUART.get(n); STUART.set(n, (typeof v === \"string\" ? v : \"\") + s); return undefined; }"),
        ("inc", "(k) => { counts[k] = (counts[k] || 0) + 1; globalThis.seen = (globalThis.seen || []).concat([k]); return counts[k]; }"),
        ("seen", "(k) => (globalThis.seen || []).filter((x) => x === k).length"),
        ("spoil", "(x) => { if (Array.isArray(x)) x.push(1); else if (x && typeof x === \"object\") { x.zz = 1; for (const k of Object.keys(x)) x[k] = 0; } }"),
        ("count", "(...args) => args.length"),
    ];
    f.iter()
        .map(|(n, b)| (n, b.replace("STUART.get(", way.0).replace("STUART.set(", way.1)))
        .map(|(n, b)| format!("    {{ name: \"{}{}\", fn: {} }},\n", n, suffix, b))
        .collect()
}

fn js_quote(s: &str) -> String {
    serde_json::to_string(s).unwrap().replace('\u{2028}', "\\u2028").replace('\u{2029}', "\\u2029")
}

fn plugin(name: &str, lits: &[Val], common: bool, way: (&str, &str)) -> String {
    // Elements of arrays which are undefined, or not there at all, are null.
    let l: Vec<String> = lits
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let j = format!("JSON.parse({})", js_quote(&v.to_serde().to_string()));
            match (i + way.0.len()) % 3 {
                0 => j,
                1 => format!("holes({}, (a, i) => {{ a[i] = undefined; }})", j),
                _ => format!("holes({}, (a, i) => {{ delete a[i]; }})", j),
            }
        })
        .collect();
    format!(
        "{}\nconst LITS = [{}];\nexport default {{\n  name: \"{}\",\n  version: \"1.0.0\",\n  functions: [\n{}{}  ]\n}}\n",
        COMMON,
        l.join(", "),
        name,
        if common { functions("", way) } else { String::new() },
        functions(&format!("_{}", name), way)
    )
}

pub fn js_number(n: f64) -> String {
    if n == 0.0 {
        "0".into()
    } else if n.abs() >= 1e21 || n.abs() < 1e-6 {
        let s = format!("{:e}", n);
        let (m, e) = s.split_once('e').unwrap();
        format!("{}e{}{}", m, if e.starts_with('-') { "" } else { "+" }, e)
    } else {
        format!("{}", n)
    }
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn canon(v: &Val) -> String {
    match v {
        Val::Null => "null".into(),
        Val::Bool(b) => b.to_string(),
        Val::Num(n, _) => js_number(*n),
        Val::Str(s) => json_str(s),
        Val::Arr(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        Val::Obj(o) => {
            let mut o: Vec<&(String, Val)> = o.iter().collect();
            o.sort_by(|a, b| a.0.cmp(&b.0));
            format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", json_str(k), canon(v))).collect::<Vec<_>>().join(","))
        }
    }
}

/// What JavaScript's `String` makes of the value.
fn string_of(v: &Val) -> String {
    match v {
        Val::Null => "null".into(),
        Val::Bool(b) => b.to_string(),
        Val::Num(n, _) => js_number(*n),
        Val::Str(s) => s.clone(),
        Val::Arr(a) => a
            .iter()
            .map(|v| if let Val::Null = v { String::new() } else { string_of(v) })
            .collect::<Vec<_>>()
            .join(","),
        Val::Obj(_) => "[object Object]".into(),
    }
}

type State = RefCell<BTreeMap<(String, String), u32>>;

fn set(it: &mut Interp, name: &str, v: Val) {
    let f = it.frames.last_mut().unwrap();
    f.retain(|(n, _)| n != name);
    f.push((name.to_string(), v));
}

fn call(lits: &[Val], state: &State, name: &str, args: &[Arg], it: &mut Interp) -> Result<String, Bad> {
    let (plugin, f) = match name.split_once("::") {
        Some((p, f)) => (p.to_string(), f.to_string()),
        None => match name.rsplit_once('_') {
            Some((_, p)) => (p.to_string(), name.to_string()),
            None => ("pa".to_string(), name.to_string()),
        },
    };
    let f = f.trim_end_matches(&format!("_{}", plugin)).to_string();
    let mut v: Vec<Val> = vec![];
    for a in args {
        v.push(match a {
            Arg::Str(s) => Val::Str(s.clone()),
            Arg::Int(i) => Val::num(*i as f64),
            Arg::Var(p) => it.lookup(p).ok_or(format!("undefined ${}", p))?,
            Arg::Ident(_) => unreachable!(),
        });
    }
    let s = |i: usize| match &v[i] {
        Val::Str(s) => s.clone(),
        _ => unreachable!(),
    };
    let lit = |i: usize| match &v[i] {
        Val::Num(n, _) => lits[*n as usize].clone(),
        _ => unreachable!(),
    };
    Ok(match f.as_str() {
        "show" => v.iter().map(canon).collect::<Vec<_>>().join(";"),
        "id" => string_of(&v[0]),
        "lit" => string_of(&lit(0)),
        "get" => it.lookup(&s(0)).map(|v| canon(&v)).unwrap_or("undefined".into()),
        "set" => {
            set(it, &s(0), v[1].clone());
            String::new()
        }
        "setlit" => {
            set(it, &s(0), lit(1));
            String::new()
        }
        "add" => {
            let old = match it.lookup(&s(0)) {
                Some(Val::Str(s)) => s,
                _ => String::new(),
            };
            if old.len() > 20_000 {
                return Err("model out of fuel".into());
            }
            set(it, &s(0), Val::Str(old + &s(1)));
            String::new()
        }
        "inc" => {
            let mut st = state.borrow_mut();
            let c = st.entry((plugin, s(0))).or_insert(0);
            *c += 1;
            c.to_string()
        }
        "seen" => state.borrow().get(&(plugin, s(0))).copied().unwrap_or(0).to_string(),
        "spoil" => String::new(),
        "count" => v.len().to_string(),
        _ => unreachable!("{}", f),
    })
}

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W { wrong: 0, depth: 3, max_items: 4, md_files: 3, pages: 2, text: 20, odd: 2, section: 4, for_: 10, ifdef: 6, ..W::default() };
    let mut site = gen_site(src, &w);
    // Data with keys which mean something in JavaScript.
    let odd = Val::Obj(vec![
        ("constructor".into(), gen::val(src, 1)),
        ("length".into(), Val::num(3.0)),
        ("10".into(), Val::Str("ten".into())),
        ("9".into(), gen::val(src, 1)),
        ("__proto__".into(), if src.chance(1, 8) { gen::val(src, 1) } else { Val::Null }),
        ("".into(), Val::Str("empty".into())),
        ("deep".into(), gen::val(src, 3)),
        ("s".into(), Val::Str(gen::text(src))),
    ]);
    let odd = match odd {
        Val::Obj(mut v) => {
            v.retain(|(k, x)| k != "__proto__" || *x != Val::Null);
            Val::Obj(v)
        }
        _ => unreachable!(),
    };
    site.bytes.insert("odd.json".into(), odd.json(src).into_bytes());
    site.files.insert("odd.json".into(), File::Json(odd));
    let mut lits: Vec<Val> = (0..4).map(|_| gen::val(src, 3)).collect();
    if src.chance(1, 12) {
        o.class("large values");
        let n = *src.pick(&[100usize, 128, 255, 256, 257, 1000, 1024, 4097]);
        lits[src.below(4) as usize] = match src.below(3) {
            0 => Val::Arr((0..n).map(|i| Val::num(i as f64)).collect()),
            1 => Val::Obj((0..n).map(|i| (format!("k{}", i), Val::num(i as f64))).collect()),
            _ => Val::Str(gen::mark(src).repeat(n)),
        };
    }
    let jsons: Vec<(String, Val)> = site
        .files
        .iter()
        .filter_map(|(k, f)| match f {
            File::Json(v) => Some((k.clone(), v.clone())),
            _ => None,
        })
        .collect();

    let mut total = 0usize;
    all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
    let mut touched = std::collections::BTreeSet::new();
    let mut uses = 0;
    for k in 0..src.usize(1, 3 + src.size / 3) {
        let target = src.below(total as u64) as usize;
        let mut i = 0usize;
        let mut done = false;
        all_blocks(&mut site, &mut |p, b, parent| {
            if !done && target < i + b.len() + 1 {
                done = true;
                let at = (target - i).min(b.len());
                let new = group(src, k, p, &jsons, parent, &mut o);
                uses += new.iter().filter(|n| matches!(n, Node::Call(..))).count();
                for (j, n) in new.into_iter().enumerate() {
                    b.insert(at + j, n);
                }
                touched.insert(p.to_string());
            }
            i += b.len() + 1;
        });
    }
    for p in &touched {
        match site.files.get_mut(p) {
            Some(File::Html(n)) => seal(n),
            Some(File::Md(m)) => seal(&mut m.body),
            _ => (),
        }
        rewrite(&mut site, p, src, w.style);
    }
    let state: State = RefCell::new(BTreeMap::new());
    let f = |n: &str, a: &[Arg], _: &[(String, Arg)], it: &mut Interp| call(&lits, &state, n, a, it);
    let want = expect(&site, &model::env(), Some(&f));

    let ways = [WAYS[src.weighted(&[6, 1, 1, 1, 1, 1, 1])], WAYS[src.weighted(&[6, 1, 1, 1, 1, 1, 1])]];
    let a_name = *src.pick(&["pa.js", "pa.mjs"]);
    let mut files = cli::project(&site.bytes, "strip_extensions = false\n");
    let mut m = text(&files["stuart.toml"]);
    m.push_str(&format!("\n[dependencies]\nfirst = \"plugins/{}\"\nsecond = \"plugins/pb.mjs\"\n", a_name));
    files.insert("stuart.toml".into(), m.into_bytes());
    files.insert(format!("plugins/{}", a_name), plugin("pa", &lits, true, ways[0]).into_bytes());
    files.insert("plugins/pb.mjs".into(), plugin("pb", &lits, false, ways[1]).into_bytes());
    o.hash = hash_files(&files);
    o.show = show_files(&files);
    o.nontrivial = uses > 0;
    if let Err(e) = &want {
        if e.contains("unspecified") || e.contains("model out of fuel") {
            o.class("discarded");
            o.nontrivial = false;
            return o;
        }
    }
    let dir = ctx.fresh();
    write_files(&dir, &files);
    let r = cli::stuart(ctx, &dir, &["build"], &cli::Env::default());
    match want {
        Err(e) => {
            o.class("fails");
            if r.ok() {
                o.fail("accepted", format!("the build succeeds, but should fail: {}", e));
            } else if !r.clean_error() {
                o.fail("crash", r.describe());
            }
        }
        Ok(e) => {
            o.class("builds");
            if !r.ok() {
                o.fail("rejected", r.describe());
            } else {
                model::compare(&e, &read_tree(&dir.join("dist"), false), &mut o);
            }
        }
    }
    o
}

/// Some calls, with what they need.
fn group(src: &mut Src, k: usize, file: &str, jsons: &[(String, Val)], parent: Parent, o: &mut Outcome) -> Vec<Node> {
    let mut out = vec![];
    let p = *src.pick(&["pa", "pb"]);
    let name = |src: &mut Src, f: &str| match src.below(4) {
        0 if p == "pa" => f.to_string(),
        1 => format!("{}_{}", f, p),
        2 => format!("{}::{}_{}", p, f, p),
        _ if p == "pb" => format!("pb::{}_pb", f),
        _ => format!("{}::{}", p, f),
    };
    let lit_str = |src: &mut Src| {
        let mut s = gen::string(src);
        // Lines of Markdown bodies end in LF, whatever the file has.
        s.retain(|c| c != '"' && (c != '\r' || !file.ends_with(".md")));
        Arg::Str(s)
    };
    let c = |n: String, a: Vec<Arg>| Node::Call(n, a, vec![]);
    let text = |src: &mut Src| Node::Text(format!(" {} ", gen::mark(src)));
    let var = format!("js{}", k);
    let import = |src: &mut Src| {
        let (f, v) = src.pick(jsons).clone();
        let paths: Vec<String> = v.paths().iter().map(|(p, _)| p.clone()).collect();
        let q = src.pick(&paths).clone();
        let path = if q.is_empty() { var.clone() } else { format!("{}.{}", var, q) };
        (Node::Import(var.clone(), f), path)
    };
    let some_name = |src: &mut Src| -> String {
        let mut n = match src.below(5) {
            0 => "self".to_string(),
            1 => format!("js{}", src.below(4)),
            _ => src.pick(VARS).to_string(),
        };
        if src.coin() {
            n = format!("{}.{}", n, src.pick(gen::KEYS));
        }
        n
    };
    let own = || format!("jv{}", k % 3);
    match src.weighted(&[20, 12, 10, 14, 14, 14, 10, 6, 5, 5]) {
        0 => {
            o.class("arguments");
            let (i, path) = import(src);
            out.push(i);
            let mut args = vec![Arg::Var(path)];
            for _ in 0..src.usize(0, 3) {
                args.push(match src.below(3) {
                    0 => Arg::Int(src.range(-100, 100) as i32),
                    1 => lit_str(src),
                    _ => args[0].clone(),
                });
            }
            src.shuffle(&mut args);
            out.push(c(name(src, "show"), args));
        }
        1 => {
            o.class("results");
            let (i, path) = import(src);
            out.push(i);
            out.push(c(name(src, "id"), vec![Arg::Var(path)]));
        }
        2 => {
            o.class("results");
            out.push(c(name(src, "lit"), vec![Arg::Int(src.below(4) as i32)]));
        }
        3 => {
            o.class("get");
            let n = some_name(src);
            out.push(c(name(src, "get"), vec![Arg::Str(n)]));
        }
        4 => {
            o.class("set");
            let n = own();
            let f = name(src, "setlit");
            out.push(c(f, vec![Arg::Str(n.clone()), Arg::Int(src.below(4) as i32)]));
            out.push(text(src));
            let g = src.pick(&["pa::show", "pb::show_pb"]).to_string();
            out.push(c(g, vec![Arg::Var(n)]));
        }
        5 => {
            o.class("set");
            let n = if src.chance(1, 6) { src.pick(VARS).to_string() } else { own() };
            let a = match src.below(3) {
                0 => Arg::Int(src.range(-9, 9) as i32),
                _ => lit_str(src),
            };
            let is_str = matches!(a, Arg::Str(_));
            out.push(c(name(src, "set"), vec![Arg::Str(n.clone()), a]));
            if is_str {
                out.push(Node::Var(n));
            } else {
                out.push(c(name(src, "get"), vec![Arg::Str(n)]));
            }
        }
        6 => {
            o.class("replace");
            let n = own();
            for _ in 0..src.usize(1, 3) {
                out.push(c(name(src, "add"), vec![Arg::Str(n.clone()), Arg::Str(gen::mark(src))]));
            }
            out.push(Node::Var(n));
        }
        7 => {
            let (i, path) = import(src);
            out.push(i);
            o.class("changed arguments");
            out.push(c(name(src, "spoil"), vec![Arg::Var(path.clone())]));
            out.push(c(name(src, "show"), vec![Arg::Var(path)]));
        }
        8 => {
            // Counted per plugin; the order of pages is open, so that the key is that of the page.
            let shared = matches!(base_of(file), "root.html" | "md.html");
            if shared || !matches!(parent, Parent::Top | Parent::Section) {
                out.push(c(name(src, "count"), vec![]));
            } else {
                o.class("state");
                let key = Arg::Str(file.to_string());
                for _ in 0..src.usize(1, 3) {
                    let q = src.pick(&["pa::inc", "pb::inc_pb", "pa::seen", "pb::seen_pb"]).to_string();
                    out.push(c(q, vec![key.clone()]));
                    out.push(text(src));
                }
            }
        }
        _ => {
            o.class("undefined argument");
            out.push(c(name(src, "show"), vec![Arg::Var(some_name(src))]));
        }
    }
    out
}
