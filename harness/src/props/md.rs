//! C08: frontmatter and content of Markdown pages.

use super::{model, plugins};
use crate::ast::*;
use crate::engine::*;
use crate::gen;
use crate::site::*;
use crate::tgen::*;
use std::collections::BTreeMap;

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W { md_tags: true, wrong: 0, depth: 3, dump: 1, ..W::default() };
    let json = gen_json(src, 1, 5);
    let mut site = Site::default();
    let mut md: BTreeMap<String, Md> = BTreeMap::new();
    let n = src.usize(1, 4);
    let mut tags = false;
    for i in 0..n {
        let dir = *src.pick(&["posts/", "posts/", "", "posts/x/"]);
        let mut body = vec![];
        let parts = src.usize(0, 3);
        for _ in 0..parts {
            match src.below(3) {
                0 => {
                    let mut g = TGen::new(&w, &json, &md);
                    g.in_md = true;
                    g.avoid_cr = true;
                    g.budget = 8;
                    g.frames = vec![vec![]];
                    // Names imported by one part are not known to the next.
                    let b = g.block(src, 2);
                    tags = true;
                    body.push(Node::If(Op::Eq, Arg::Int(1), Arg::Int(1), b, None));
                }
                1 => {
                    // Lines which look like frontmatter, or are not plain Markdown.
                    let t = *src.pick(&[
                        "---\ntitle: \"no\"\n---\n",
                        "\n\n",
                        "  indented\n",
                        "    code { } }}\n",
                        "trailing  \nbreak\n",
                        "key: \"value\"\n",
                        "\\{ \\} \\* \\# \\\\ x\n",
                        "&copy; &lt; <br>\n",
                        "* a\n  * b\n    * c\n",
                        "Term[^1] and ~~s~~ -- ... \"quotes\" 'single'\n\n[^1]: note\n",
                        "# Heading {#id .class}\n",
                        "| a | b |\n|:--|--:|\n| 1 | 2 |\n",
                        "- [ ] todo\n- [x] done\n",
                        "> quote\n\n1. one\n2. two\n",
                        "```rust\nfn main() {}\n```\n",
                        "<script>let x = {a: {b: 1} };</script>\n",
                        "tab\there\n",
                        "x\u{2028}y\u{b}z\u{c}w\n",
                        "$self.title\n",
                        "\u{feff}bom\n",
                    ]);
                    body.push(Node::Text(t.into()));
                }
                _ => body.push(Node::Text(md_text(src))),
            }
        }
        seal(&mut body);
        // Whether newlines at the end belong to the body is not specified.
        if let Some(Node::Text(t)) = body.last_mut() {
            *t = t.trim_end_matches('\n').to_string();
            if t.is_empty() {
                body.pop();
            }
        }
        let mut m = Md { front: gen_front(src, i), body, source: String::new() };
        if src.chance(1, 6) {
            m.front.clear();
        }
        if src.chance(1, 6) {
            let k = src.pick(&["markdown2", "contents", "a.b", "a b", "self", "-", "k\"y", "#x", "x-y"]).to_string();
            m.front.push((k, gen::mark(src)));
        }
        if src.chance(1, 12) {
            m.front.push((src.pick(&["content", "markdown"]).to_string(), gen::mark(src)));
        }
        if src.chance(1, 40) {
            // More than fits into a byte, or a number of 16 bits.
            o.class("large");
            match src.below(3) {
                0 => {
                    let n = src.usize(60, 700);
                    m.front.extend((0..n).map(|i| (format!("bulk{}", i), format!("v{}", i))));
                }
                1 => m.front.push(("bulk".into(), gen::mark(src).repeat(src.usize(50, 15_000)))),
                _ => {
                    let t = format!("\n\n*{}* {}\n\n", gen::mark(src), gen::mark(src)).repeat(src.usize(60, 1000));
                    m.body.insert(0, Node::Text(t + "x"));
                }
            }
        }
        let force = src.chance(1, 4);
        let text = write_md(&mut m, src, w.style, force);
        let path = format!("{}m{}.md", dir, i);
        site.bytes.insert(path.clone(), text.into_bytes());
        md.insert(path, m);
    }

    // A frontmatter which is not one.
    let mut broken = None;
    if src.chance(1, 5) {
        let p = src.pick(&md.keys().cloned().collect::<Vec<_>>()).clone();
        let bad = *src.pick(&[
            "---\ntitle\n---\nbody",
            "---\ntitle: value\n---\nbody",
            "---\ntitle: \"value\n---\nbody",
            "---\ntitle: value\"\n---\nbody",
            "---\ntitle \"value\"\n---\nbody",
            "---\ntitle: \"a\"\ndate: 2020\n---\nbody",
            "---\ntitle: \"a\"\n: b\n---\nbody",
            "---\ntitle: \"a\"",
            "---\ntitle: \"a\"\n",
            "---\n",
            "---\ntitle: \"a\"\n--\nbody\n",
            "---\ntitle: \"a\"\n --- \nbody\n",
            "---\ntitle: 'a'\n---\nbody",
            "---\ntitle:\n---\nbody",
            "---\ntitle: \"\n---\nbody",
            "---\ntitle: \"a\" # comment\n---\nbody",
        ]);
        let bad = if src.chance(1, 4) { bad.replace('\n', "\r\n") } else { bad.to_string() };
        site.bytes.insert(p.clone(), bad.clone().into_bytes());
        broken = Some((p, bad));
    }

    // The template shows everything there is to see.
    let probe = |var: &str, keys: &[String], body: bool| -> Vec<Node> {
        let mut out = vec![];
        for k in keys {
            let p = format!("{}.{}", var, k);
            out.push(Node::IfDef(
                p.clone(),
                vec![Node::Text(format!("<{}=", k)), Node::Var(p), Node::Text(">\n".into())],
                Some(vec![Node::Text(format!("<no {}>\n", k))]),
            ));
        }
        if body {
            out.push(Node::Text("<content=".into()));
            out.push(Node::Var(format!("{}.content", var)));
        }
        out.push(Node::Text("><markdown=".into()));
        out.push(Node::Var(format!("{}.markdown", var)));
        out.push(Node::Text(">\n".into()));
        out.push(Node::Call("dump".into(), vec![Arg::Var(var.to_string())], vec![]));
        out
    };
    let mut keys: Vec<String> = md.values().flat_map(|m| m.front.iter().map(|(k, _)| k.clone())).collect();
    keys.extend(["title", "nothing"].map(String::from));
    keys.retain(|k| {
        k.chars().all(|c| c.is_alphanumeric() || c == '_') && !k.is_empty() && !k.starts_with("bulk") && k != "content" && k != "markdown"
    });
    keys.sort();
    keys.dedup();
    let put = |site: &mut Site, src: &mut Src, p: &str, nodes: Vec<Node>| {
        let t = write(&nodes, src, Style::Plain);
        site.bytes.insert(p.to_string(), t.into_bytes());
        site.files.insert(p.to_string(), File::Html(nodes));
    };
    put(&mut site, src, "root.html", vec![Node::Insert("s".into())]);
    put(&mut site, src, "md.html", vec![Node::Section("s".into(), probe("self", &keys, true))]);
    if src.chance(1, 3) {
        put(&mut site, src, "posts/md.html", vec![Node::Section("s".into(), {
            let mut b = probe("self", &keys, true);
            b.insert(0, Node::Text("nested ".into()));
            b
        })]);
    }
    let dirs: Vec<String> = {
        let mut d: Vec<String> = md.keys().filter_map(|k| k.rfind('/').map(|i| k[..i + 1].to_string())).collect();
        d.sort();
        d.dedup();
        d
    };
    let mut list = vec![];
    for d in &dirs {
        let mut a = ForArgs::default();
        if src.coin() && keys.contains(&"title".to_string()) {
            a.sort = Some(("title".into(), src.coin()));
        }
        list.push(Node::For("p".into(), ForSrc::Dir(d.clone()), a, probe("p", &keys, true)));
    }
    put(&mut site, src, "list.html", vec![Node::Section("s".into(), list)]);
    for (k, v) in &json {
        site.bytes.insert(k.clone(), v.json(src).into_bytes());
        site.files.insert(k.clone(), File::Json(v.clone()));
    }
    for (k, m) in &md {
        site.files.insert(k.clone(), File::Md(m.clone()));
    }
    if let Some((p, bad)) = broken {
        // Nothing else is at fault.
        if expect(&site, &model::env(), Some(&plugins::dump_call)).is_err() {
            o.class("discarded");
            return o;
        }
        o.hash = hash_files(&site.bytes);
        o.show = show_files(&site.bytes);
        o.nontrivial = true;
        o.class("malformed frontmatter");
        let dir = ctx.fresh();
        write_files(&dir.join("content"), &site.bytes);
        match build_with(&dir.join("content"), &dir.join("out"), config(false), |s| s.with_plugins(vec![plugins::dump_plugin()]), None) {
            Built::Panic(x) => o.fail("panic", x),
            Built::Ok(_) => o.fail("accepted", format!("the build succeeds in spite of the frontmatter of {}: {:?}", p, bad)),
            Built::Err(_) => (),
        }
        return o;
    }
    let e = model::check(&site, ctx, &mut o);
    o.nontrivial = e.is_some() && md.values().any(|m| !m.front.is_empty() && !m.body.is_empty());
    o.class_if(tags, "template tags in bodies");
    o.class_if(md.values().any(|m| m.front.is_empty()), "without frontmatter");
    o.class_if(site.bytes.values().any(|b| text(b).contains('\r')), "CRLF");
    o
}
