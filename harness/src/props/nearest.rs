//! C03: which root.html and md.html apply.

use super::model;
use crate::ast::*;
use crate::engine::*;
use crate::gen;
use crate::site::*;
use std::collections::BTreeMap;

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut site = Site::default();
    let ndirs = src.usize(1, 2 + src.size / 2);
    let mut dirs: Vec<String> = vec![String::new()];
    for i in 0..ndirs {
        let parent = src.pick(&dirs).clone();
        let name = match src.below(6) {
            0 => src.pick(&["root", "md", "a", "z", "A", "index", "posts", "0", "root.html.d", "é", "root.html", "md.html", "root.html", "md.html"]).to_string(),
            _ => format!("{}{}", gen::word(src), i),
        };
        let d = if parent.is_empty() { name } else { format!("{}/{}", parent, name) };
        if !dirs.contains(&d) && d.matches('/').count() < 6 {
            dirs.push(d);
        }
    }
    // Directories may be called like templates, but are none.
    let taken = dirs.clone();
    let put = |site: &mut Site, src: &mut Src, d: &str, n: &str, nodes: Vec<Node>| {
        let p = if d.is_empty() { n.to_string() } else { format!("{}/{}", d, n) };
        if taken.contains(&p) {
            return;
        }
        let t = write(&nodes, src, Style::Plain);
        site.bytes.insert(p.clone(), t.into_bytes());
        site.files.insert(p, File::Html(nodes));
    };
    let labels = ["s", "t"];
    let mut templates = 0;
    let mut id = 0;
    for (i, d) in dirs.clone().iter().enumerate() {
        let (r, m) = if i == 0 { (11, 9) } else { (5, 5) };
        if src.below(12) < r {
            id += 1;
            templates += 1;
            let mut n = vec![Node::Text(format!("R{}[", id)), Node::Insert("s".into()), Node::Text("]".into())];
            if src.chance(1, 3) {
                n.push(Node::Insert("t".into()));
                n.push(Node::Text(format!("/R{}", id)));
            }
            if src.chance(1, 6) {
                // Empty templates and ones without sections are templates, too.
                n = if src.coin() { vec![] } else { vec![Node::Text(format!("R{}", id))] };
                o.class("template without sections");
            }
            put(&mut site, src, d, "root.html", n);
        }
        if src.below(12) < m {
            id += 1;
            templates += 1;
            let mut n = vec![];
            for l in labels {
                n.push(Node::Section(
                    l.into(),
                    vec![Node::Text(format!("M{}{}:", id, l)), Node::Var("self.title".into())],
                ));
            }
            if src.chance(1, 8) {
                n = if src.coin() { vec![] } else { vec![Node::Text(format!("M{}", id))] };
                o.class("template without sections");
            }
            put(&mut site, src, d, "md.html", n);
        }
        let pages = src.usize(0, 2);
        for _ in 0..pages {
            id += 1;
            let name = match src.below(5) {
                0 => src
                    .pick(&["index.html", "xroot.html", "root.html.html", "roots.html", "Root.html", "MD.html", "amd.html", "md.html.html", "0.html", "zzz.html", "md_.html", "md.md.html"])
                    .to_string(),
                _ => format!("p{}.html", id),
            };
            let n = labels
                .iter()
                .map(|l| Node::Section(l.to_string(), vec![Node::Text(format!("P{}{}", id, l))]))
                .collect();
            put(&mut site, src, d, &name, n);
        }
        let mds = src.usize(0, 2);
        for _ in 0..mds {
            id += 1;
            let mut m = Md {
                front: vec![("title".into(), format!("T{}", id))],
                body: vec![Node::Text(format!("B{}", id))],
                source: String::new(),
            };
            let name = match src.below(5) {
                0 => src.pick(&["index.md", "root.md", "md.md", "a.md"]).to_string(),
                _ => format!("m{}.md", id),
            };
            let p = if d.is_empty() { name } else { format!("{}/{}", d, name) };
            // root.md and md.md produce pages called root.html and md.html: only where there's no such template.
            let clash = site.files.contains_key(&format!("{}.html", p.trim_end_matches(".md")));
            if clash || taken.contains(&p) || taken.contains(&format!("{}.html", p.trim_end_matches(".md"))) {
                continue;
            }
            let t = crate::tgen::write_md(&mut m, src, Style::Plain, false);
            site.bytes.insert(p.clone(), t.into_bytes());
            site.files.insert(p, File::Md(m));
        }
    }
    if site.files.is_empty() {
        site.bytes.insert("x.txt".into(), vec![]);
        site.files.insert("x.txt".into(), File::Other);
    }
    o.hash = hash_files(&site.bytes);
    o.show = show_files(&site.bytes);

    // The order in which the files come into being.
    let mut order: Vec<(&String, &Vec<u8>)> = site.bytes.iter().collect();
    src.shuffle(&mut order);
    let dir = ctx.fresh();
    let content = dir.join("content");
    for (p, b) in order {
        let mut one = BTreeMap::new();
        one.insert(p.clone(), b.clone());
        write_files(&content, &one);
    }
    let pages = site
        .files
        .keys()
        .filter(|p| !matches!(base_of(p), "root.html" | "md.html") && (p.ends_with(".html") || p.ends_with(".md")))
        .count();
    let exp = expect(&site, &model::env(), None);
    o.nontrivial = pages >= 1 && templates >= 2;
    o.class_if(site.files.keys().any(|p| p.contains("root.html/") || p.contains("md.html/")), "directories called like templates");
    o.class_if(pages >= 1 && templates >= 3, "three templates or more");
    let mut files_out = None;
    match (exp, build(&content, &dir.join("out"), config(false))) {
        (_, Built::Panic(p)) => o.fail("panic", p),
        (Ok(_), Built::Err(x)) => o.fail("rejected", format!("the build should succeed: {}", x)),
        (Err(e), Built::Ok(_)) => o.fail("accepted", format!("the build should fail: {}", e)),
        (Err(_), Built::Err(_)) => o.class("a template is missing"),
        (Ok(e), Built::Ok(f)) => {
            o.class("builds");
            let f: Files = f.into_iter().filter(|(k, _)| k != "x.txt").collect();
            model::compare(&e, &f, &mut o);
            files_out = Some(f);
        }
    }
    o.class_if(files_out.is_some() && site.files.iter().any(|(p, f)| matches!(f, File::Md(_)) && nearest(&site, p, "md.html").map(std::ptr::from_ref) != site.files.get("md.html").and_then(|f| match f { File::Html(n) => Some(std::ptr::from_ref(n)), _ => None })), "nested md.html used");
    o
}
