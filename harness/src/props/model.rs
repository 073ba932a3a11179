//! C01, C02, C04, C05, C06: whole sites against the reference model, each property with its own
//! emphasis and its own rule for what is a non-trivial case.

use super::plugins;
use crate::ast::*;
use crate::engine::*;
use crate::gen::Val;
use crate::site::*;
use crate::tgen::*;

pub fn env() -> Val {
    Val::Obj(vec![("STUART_ENV".into(), Val::Str("production".into()))])
}

/// Builds the site and compares everything with the model. Returns the model's pages if it builds.
pub fn check(site: &Site, ctx: &mut Ctx, o: &mut Outcome) -> Option<Expected> {
    o.hash = hash_files(&site.bytes);
    o.show = show_files(&site.bytes);
    let exp = expect(site, &env(), Some(&plugins::dump_call));
    if let Err(e) = &exp {
        if e.contains("unspecified") || e.contains("model out of fuel") {
            o.class("discarded");
            return None;
        }
    }
    let dir = ctx.fresh();
    let content = dir.join("content");
    write_files(&content, &site.bytes);
    let built = build_with(&content, &dir.join("out"), config(false), |s| s.with_plugins(vec![plugins::dump_plugin()]), None);
    match (exp, built) {
        (_, Built::Panic(p)) => {
            o.fail("panic", p);
            None
        }
        (Ok(e), Built::Err(x)) => {
            o.fail("rejected", format!("the build fails, but should succeed: {}", x));
            let _ = e;
            None
        }
        (Err(e), Built::Ok(_)) => {
            o.fail("accepted", format!("the build succeeds, but should fail: {}", e));
            None
        }
        (Err(_), Built::Err(_)) => {
            o.class("fails");
            None
        }
        (Ok(e), Built::Ok(files)) => {
            o.class("builds");
            compare(&e, &files, o);
            Some(e)
        }
    }
}

pub fn compare(e: &Expected, files: &Files, o: &mut Outcome) {
    for (p, pieces) in &e.pages {
        match files.get(p) {
            None => o.fail("missing-page", format!("{} is not in the output", p)),
            Some(b) => {
                let ok = std::str::from_utf8(b).map(|t| matches(pieces, t)).unwrap_or(false);
                if !ok {
                    o.fail(
                        "output",
                        format!("{}:\n--- expected\n{}\n--- actual\n{}", p, show(pieces), text(b)),
                    );
                }
            }
        }
    }
    for p in files.keys() {
        if !e.pages.contains_key(p) {
            o.fail("extra-file", format!("{} should not be in the output", p));
        }
    }
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let w = W { text: 30, odd: 45, var: 12, import: 4, section: 4, for_: 4, if_: 4, ifdef: 2, wrong: 0, tail: true, ..W::default() };
    let site = gen_site(src, &w);
    let mut o = Outcome::new();
    let e = check(&site, ctx, &mut o);
    let odd = site.files.values().any(|f| match f {
        File::Html(n) => has_odd(n),
        _ => false,
    });
    o.nontrivial = e.is_some() && odd;
    o.class_if(site.bytes.values().any(|b| text(b).contains("\\{{")), "escapes");
    o.class_if(site.bytes.values().any(|b| text(b).contains('\r')), "CR");
    o.class_if(site.bytes.values().any(|b| !b.is_ascii()), "non-ASCII");
    o
}

fn has_odd(n: &[Node]) -> bool {
    n.iter().any(|n| match n {
        Node::Text(t) => t.chars().any(|c| !c.is_ascii() || "{}\\\r$\"".contains(c) || (c < ' ' && c != '\n')),
        Node::Section(_, b) | Node::For(_, _, _, b) => has_odd(b),
        Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => has_odd(t) || e.as_ref().map(|e| has_odd(e)).unwrap_or(false),
        _ => false,
    })
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let w = W { text: 30, odd: 2, var: 8, import: 3, section: 22, for_: 3, if_: 6, ifdef: 2, wrong: 6, pages: 4, drop: 6, ..W::default() };
    let mut site = gen_site(src, &w);
    let mut o = Outcome::new();
    if src.chance(1, 20) {
        add_blocks(src, &mut site, true);
        o.class("many sections");
    }
    let e = check(&site, ctx, &mut o);
    let s = site_stats(&site);
    o.nontrivial = s.sections >= 2 && s.inserts >= 2;
    o.class_if(s.nested_sections > 0, "nested sections");
    o.class_if(e.map(|e| e.pages.len() > 1).unwrap_or(false), "several pages");
    o
}

/// Adds a large file of data to a page, and uses of it: items far down an array, keys of an object
/// with many, long paths, and loops over all of it.
fn add_large(src: &mut Src, site: &mut Site, loops: bool, style: Style) -> bool {
    let mut path = None;
    for (p, f) in &site.files {
        if let File::Html(n) = f {
            let page = !matches!(base_of(p), "root.html" | "md.html");
            if page && n.iter().any(|n| matches!(n, Node::Section(..))) {
                path = Some(p.clone());
                break;
            }
        }
    }
    let path = match path {
        Some(p) => p,
        None => return false,
    };
    let n = match src.below(4) {
        0 => src.usize(20, 700),
        1 => *src.pick(&[1000, 1024, 2048, 4097]),
        _ => *src.pick(&[64, 65, 127, 128, 129, 199, 255, 256, 257, 258, 300, 512]),
    };
    let item = |i: usize| Val::Str(format!("<{}>", i));
    let keys = src.usize(1, 5);
    let objects = loops || src.coin();
    let list = Val::Arr(
        (0..n)
            .map(|i| {
                if objects {
                    Val::Obj(vec![("v".into(), item(i)), ("k".into(), Val::num(((i * 7919) % (keys * 97)) as f64))])
                } else {
                    item(i)
                }
            })
            .collect(),
    );
    let wide = Val::Obj((0..n).map(|i| (format!("k{}", i), item(i))).collect());
    let levels = src.usize(2, 100);
    let mut deep = item(0);
    for l in 0..levels {
        deep = if l % 3 == 2 { Val::Arr(vec![Val::Null, deep]) } else { Val::Obj(vec![("a".into(), deep)]) };
    }
    let mut deep_path = String::from("lg.deep");
    for l in (0..levels).rev() {
        deep_path.push_str(if l % 3 == 2 { ".1" } else { ".a" });
    }
    let data = Val::Obj(vec![("list".into(), list), ("wide".into(), wide), ("deep".into(), deep)]);
    site.bytes.insert("large/all.json".into(), data.json(src).into_bytes());
    site.files.insert("large/all.json".into(), File::Json(data));

    let mut add = vec![Node::Import("lg".into(), "large/all.json".into())];
    for _ in 0..src.usize(1, 4) {
        let i = match src.below(3) {
            0 => n - 1,
            1 => n - 1 - src.usize(0, 9.min(n - 1)),
            _ => src.usize(0, n - 1),
        };
        add.push(Node::Text(format!(" {} ", i)));
        add.push(match src.below(4) {
            0 => Node::Var(format!("lg.wide.k{}", i)),
            1 => Node::Var(deep_path.clone()),
            2 => Node::IfDef(
                format!("lg.list.{}", *src.pick(&[i, n, n + 1, n + 256, n + 65536, i + (1 << 32)])),
                vec![Node::Text("defined".into())],
                Some(vec![Node::Text("undefined".into())]),
            ),
            _ => Node::Var(format!("lg.list.{}{}", i, if objects { ".v" } else { "" })),
        });
    }
    if loops {
        let near = |src: &mut Src| match src.below(3) {
            0 => src.range(0, n as i64 + 2) as i32,
            1 => (n as i64 - src.range(-2, 5)).max(0) as i32,
            _ => *src.pick(&[128, 255, 256, 257, 65536, 65537, i32::MAX]),
        };
        let args = ForArgs {
            skip: if src.coin() { Some(near(src)) } else { None },
            limit: if src.coin() { Some(near(src)) } else { None },
            sort: if src.coin() { Some(("lx.k".into(), false)) } else { None },
            desc: *src.pick(&[None, Some(false), Some(true)]),
        };
        add.push(Node::For("lx".into(), ForSrc::Var("lg.list".into()), args, vec![Node::Var("lx.v".into())]));
    }
    add.push(Node::Text("\n".into()));
    if let Some(File::Html(nodes)) = site.files.get_mut(&path) {
        for n in nodes.iter_mut() {
            if let Node::Section(_, b) = n {
                let at = b.iter().take_while(|n| !matches!(n, Node::BadParse(_) | Node::BadExec(_))).count();
                let at = at.min(b.len());
                b.splice(at..at, add);
                break;
            }
        }
    }
    super::faults::rewrite(site, &path, src, style);
    true
}

/// Adds a page of many blocks, within or after each other, and a root template of its own.
fn add_blocks(src: &mut Src, site: &mut Site, sections: bool) {
    let nested = src.coin();
    let n = if nested { src.usize(10, 260) } else { *src.pick(&[60, 128, 255, 256, 257, 300, 520]) };
    let mut body: Vec<Node> = vec![];
    for i in (0..n).rev() {
        let mut inner = vec![Node::Text(format!("<{}", i))];
        if nested {
            inner.append(&mut body);
        }
        inner.push(Node::Text(format!("{}>", i)));
        let node = if sections {
            Node::Section(format!("s{}", i), inner)
        } else {
            let (a, b) = (src.range(0, 2) as i32, src.range(0, 2) as i32);
            let op = *src.pick(&[Op::Eq, Op::Ne, Op::Gt, Op::Ge, Op::Lt, Op::Le]);
            let other = vec![Node::Text(format!("-{}", i))];
            // Nested blocks are mostly rendered.
            let holds = match op {
                Op::Eq => a == b,
                Op::Ne => a != b,
                Op::Gt => a > b,
                Op::Ge => a >= b,
                Op::Lt => a < b,
                Op::Le => a <= b,
            };
            let swap = holds == src.chance(1, 150);
            let other = if src.coin() || swap { Some(other) } else { None };
            match other {
                Some(other) if swap => Node::If(op, Arg::Int(a), Arg::Int(b), other, Some(inner)),
                other => Node::If(op, Arg::Int(a), Arg::Int(b), inner, other),
            }
        };
        body.push(node);
    }
    if !nested {
        body.reverse();
    }
    if !sections {
        body = vec![Node::Section("s0".into(), body)];
    }
    let mut root = vec![];
    for _ in 0..src.usize(1, 12) {
        root.push(Node::Insert(if sections { format!("s{}", src.below(n as u64)) } else { "s0".into() }));
        root.push(Node::Text("|".into()));
    }
    for (name, nodes) in [("zmany/root.html", root), ("zmany/p.html", body)] {
        site.bytes.insert(name.into(), write(&nodes, src, Style::Plain).into_bytes());
        site.files.insert(name.into(), File::Html(nodes));
    }
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let w = W { text: 14, odd: 1, var: 40, dump: 6, import: 16, section: 4, for_: 8, if_: 5, ifdef: 3, wrong: 18, ..W::default() };
    let mut site = gen_site(src, &w);
    let mut o = Outcome::new();
    if src.chance(1, 20) && add_large(src, &mut site, false, w.style) {
        o.class("large data");
    }
    let e = check(&site, ctx, &mut o);
    let s = site_stats(&site);
    o.nontrivial = s.vars >= 2 && (s.imports >= 1 || s.fors >= 1);
    o.class_if(s.fors > 0, "loops");
    o.class_if(e.is_some() && s.imports > 1, "imports");
    o
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let w = W { text: 18, odd: 1, var: 22, dump: 4, import: 8, section: 2, for_: 34, if_: 5, ifdef: 3, wrong: 6, md_files: 7, max_items: 20, ..W::default() };
    let mut site = gen_site(src, &w);
    let mut o = Outcome::new();
    if src.chance(1, 20) && add_large(src, &mut site, true, w.style) {
        o.class("large data");
    }
    check(&site, ctx, &mut o);
    let s = site_stats(&site);
    o.nontrivial = s.fors >= 1;
    o.class_if(s.nested_fors > 0, "nested loops");
    for f in site.files.values() {
        if let File::Html(n) = f {
            walk(n, &mut |n| {
                if let Node::For(_, s, a, _) = n {
                    o.class(match s {
                        ForSrc::Dir(_) => "over directory",
                        ForSrc::Json(_) => "over file",
                        ForSrc::Var(_) => "over variable",
                    });
                    o.class_if(a.sort.is_some(), "sortby");
                    o.class_if(a.desc == Some(true), "desc");
                    o.class_if(a.skip.is_some(), "skip");
                    o.class_if(a.limit.is_some(), "limit");
                    o.class_if(a.limit == Some(0), "nothing selected");
                }
            });
        }
    }
    o
}

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let w = W { text: 22, odd: 1, var: 10, dump: 2, import: 10, section: 4, for_: 8, if_: 30, ifdef: 14, wrong: 5, depth: 5, ..W::default() };
    let mut site = gen_site(src, &w);
    let mut o = Outcome::new();
    if src.chance(1, 20) {
        add_blocks(src, &mut site, false);
        o.class("many conditionals");
    }
    check(&site, ctx, &mut o);
    let s = site_stats(&site);
    o.nontrivial = s.ifs >= 1;
    o.class_if(s.nested_ifs > 0, "nested conditionals");
    o.class_if(s.blocks_in_ifs > 0, "blocks within conditionals");
    o
}

pub fn walk(nodes: &[Node], f: &mut impl FnMut(&Node)) {
    for n in nodes {
        f(n);
        match n {
            Node::Section(_, b) | Node::For(_, _, _, b) => walk(b, f),
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                walk(t, f);
                if let Some(e) = e {
                    walk(e, f);
                }
            }
            _ => (),
        }
    }
}
