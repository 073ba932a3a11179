//! C16: pages do not influence each other. A project builds exactly if each of its pages builds
//! without the other pages, and then every page has the output it has on its own.

use super::model;
use crate::ast::*;
use crate::engine::*;
use crate::gen;
use crate::site::*;
use crate::tgen::*;
use std::collections::BTreeSet;

/// Whether the page may depend on the order in which a directory lists its files.
fn unordered(site: &Site, page: &str) -> bool {
    site.files.iter().any(|(p, f)| {
        let b = base_of(p);
        if p != page && b != "root.html" && (b != "md.html" || !page.ends_with(".md")) {
            return false;
        }
        let mut found = false;
        let n = match f {
            File::Html(n) => n,
            File::Md(m) => &m.body,
            _ => return false,
        };
        model::walk(n, &mut |n| found |= matches!(n, Node::For(_, ForSrc::Dir(_), _, _)));
        found
    })
}

fn loop_dirs(site: &Site) -> BTreeSet<String> {
    let mut dirs = BTreeSet::new();
    for f in site.files.values() {
        let n = match f {
            File::Html(n) => n,
            File::Md(m) => &m.body,
            _ => continue,
        };
        model::walk(n, &mut |n| {
            if let Node::For(_, ForSrc::Dir(d), _, _) = n {
                dirs.insert(d.trim_matches('/').to_string());
            }
        });
    }
    dirs
}

pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W {
        pages: 4,
        md_files: 4,
        wrong: if src.coin() { 0 } else { 6 },
        drop: if src.coin() { 0 } else { 10 },
        ifdef: 8,
        import: 10,
        section: 8,
        max_items: 4,
        depth: 3,
        ..W::default()
    };
    let site = gen_site(src, &w);
    // More pages, among them copies which lack a part, or use what others define.
    let mut files = site.bytes.clone();
    let want = expect(&site, &model::env(), None);
    if let Err(e) = &want {
        if e.contains("unspecified") || e.contains("fuel") {
            o.class("discarded");
            return o;
        }
    }
    let dirs = loop_dirs(&site);
    let mut pages: BTreeSet<String> = BTreeSet::new();
    for (p, f) in &site.files {
        let b = base_of(p);
        match f {
            File::Html(_) if b != "root.html" && b != "md.html" => {
                pages.insert(p.clone());
            }
            File::Md(_) => {
                let d = p.rfind('/').map(|i| &p[..i]).unwrap_or("");
                if !dirs.contains(d) && !dirs.contains("") {
                    pages.insert(p.clone());
                }
            }
            _ => (),
        }
    }
    let vars: Vec<String> = VARS.iter().map(|v| v.to_string()).collect();
    let labels: BTreeSet<String> = {
        let mut l = BTreeSet::new();
        for f in site.files.values() {
            if let File::Html(n) = f {
                model::walk(n, &mut |n| {
                    if let Node::Section(s, _) = n {
                        l.insert(s.clone());
                    }
                });
            }
        }
        l
    };
    let probes = src.usize(0, 2);
    for i in 0..probes {
        // Pages which show whether names of other pages are visible.
        let mut t = String::new();
        let mut keep: Vec<&String> = labels.iter().collect();
        if src.coin() && !keep.is_empty() {
            let i = src.below(keep.len() as u64) as usize;
            keep.remove(i);
        }
        for l in &keep {
            t.push_str(&format!("{{{{ begin(\"{}\") }}}}", l));
            let v = src.pick(&vars).clone();
            match src.below(4) {
                0 => t.push_str(&format!("{{{{ ifdefined(${0}) }}}}LEAK {0}{{{{ else() }}}}fine{{{{ end(ifdefined) }}}}", v)),
                1 => t.push_str(&format!("{{{{ import(${}, \"data.json\") }}}}ok", v)),
                _ => t.push_str(&gen::mark(src)),
            }
            t.push_str(&format!("{{{{ end(\"{}\") }}}}", l));
        }
        let p = format!("{}probe-{}.html", src.pick(&["", "sub/", "zz/"]), i);
        files.insert(p.clone(), t.into_bytes());
        pages.insert(p);
    }
    if src.chance(1, 4) {
        // Pages which are alike but for a digit, with data of the same shape and lengths.
        o.class("twins");
        let k = src.usize(1, 900);
        let units = ["ab  ", "a b ", "abcd", "<b> ", "\u{a0}xy", "éé", "😀"];
        let same = src.pick(&["2021-03-04", "1 Jan 2020", "1600000000"]).to_string();
        let n = src.usize(2, 4);
        for i in 0..n {
            let list: Vec<String> = (0..src.usize(3, 3)).map(|_| format!("{{\"k\":{},\"v\":\"{}\"}}", src.below(10), src.below(10))).collect();
            let date = if src.chance(1, 3) { same.clone() } else { format!("20{}-0{}-1{}", 10 + src.below(90), 1 + src.below(9), src.below(10)) };
            let t = format!("{{\"t\":\"{}\",\"d\":\"{}\",\"l\":[{}]}}", src.pick(&units).repeat(k), date, list.join(","));
            files.insert(format!("twins{}/twin.json", i), t.into_bytes());
            let mut t = format!("{{{{ import($tw, \"twins{}/twin.json\") }}}}", i);
            for l in &labels {
                t.push_str(&format!("{{{{ begin(\"{}\") }}}}", l));
                t.push_str("{{ timetoread($tw.t) }}|{{ excerpt($tw.t, 5) }}|{{ dateformat($tw.d, \"%c\") }}|");
                t.push_str("{{ for($x, $tw.l, sortby=\"v\") }}{{ $x.v }}{{ ifgt($x.k, 4) }}+{{ else() }}-{{ end(ifgt) }}{{ end(for) }}");
                t.push_str(&format!("{{{{ end(\"{}\") }}}}", l));
            }
            let p = format!("twins{}/twin.html", i);
            files.insert(p.clone(), t.into_bytes());
            pages.insert(p);
        }
    }
    // Things which concern no page.
    let mut extra = Files::new();
    for i in 0..src.usize(0, 3) {
        match src.below(5) {
            0 => extra.insert(format!("assets/{}{}.css", gen::word(src), i), gen::text(src).into_bytes()),
            1 => extra.insert(format!("unref-{}.json", i), gen::val(src, 2).json(src).into_bytes()),
            2 => extra.insert(format!("other{}/root.html", i), b"other {{ insert(\"zz\") }}".to_vec()),
            3 => {
                extra.insert(format!("fresh{}/md.html", i), b"{{ begin(\"head\") }}{{ end(\"head\") }}".to_vec());
                extra.insert(format!("fresh{}/md2/root.html", i), b"fresh".to_vec())
            }
            _ => extra.insert(format!("{}{}.bin", gen::word(src), i), vec![0, 255, src.below(256) as u8]),
        };
    }
    o.show = show_files(&files);
    o.hash = hash_files(&files);

    let base: Files = files.iter().filter(|(p, _)| !pages.contains(*p)).map(|(p, b)| (p.clone(), b.clone())).collect();
    let seed = o.hash;
    let dir = ctx.fresh();
    let mut n = 0;
    let mut run = |files: &Files, o: &mut Outcome| -> Option<Result<Files, String>> {
        n += 1;
        let content = dir.join(format!("content{}", n));
        std::fs::create_dir_all(&content).unwrap();
        write_files_in_order(&content, files, seed);
        // In a thread of its own, so that nothing can be left from another build.
        let out = dir.join(format!("out{}", n));
        let built = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || build(&content, &out, config(false)))
                .unwrap()
                .join()
                .unwrap()
        });
        match built {
            Built::Panic(p) => {
                o.fail("panic", p);
                None
            }
            Built::Ok(f) => Some(Ok(f)),
            Built::Err(e) => Some(Err(e)),
        }
    };
    match run(&base, &mut o) {
        Some(Ok(_)) => (),
        Some(Err(_)) => {
            o.class("shared parts fail");
            return o;
        }
        None => return o,
    }
    let mut alone = vec![];
    for p in &pages {
        let mut f = base.clone();
        f.insert(p.clone(), files[p].clone());
        let out = match p.strip_suffix(".md") {
            Some(s) => format!("{}.html", s),
            None => p.clone(),
        };
        match run(&f, &mut o) {
            None => return o,
            Some(r) => alone.push((p.clone(), out.clone(), r.map(|f| f.get(&out).cloned()))),
        }
    }
    let mut all = files.clone();
    all.extend(extra.clone());
    let full = match run(&all, &mut o) {
        None => return o,
        Some(r) => r,
    };
    let failing: Vec<&String> = alone.iter().filter(|a| a.2.is_err()).map(|a| &a.0).collect();
    o.nontrivial = pages.len() >= 2;
    o.class_if(!failing.is_empty(), "a page fails on its own");
    o.class_if(failing.is_empty(), "all pages build");
    o.class_if(!extra.is_empty(), "unrelated files");
    o.class_if(pages.iter().any(|p| p.ends_with(".md")), "Markdown pages");
    match full {
        Ok(out) => {
            if !failing.is_empty() {
                o.fail("accepted", format!("{:?} do not build on their own, but do among the other pages", failing));
                return o;
            }
            if let Ok(e) = &want {
                // The pages of the site are those of the model, whatever was added.
                let mut some = out.clone();
                some.retain(|p, _| e.pages.contains_key(p));
                model::compare(e, &some, &mut o);
                if o.fail.is_some() {
                    return o;
                }
                o.class("as the model");
            }
            for (p, at, r) in &alone {
                let one = r.as_ref().unwrap();
                if one.as_ref() != out.get(at) {
                    if unordered(&site, p) {
                        o.class("unordered page skipped");
                        continue;
                    }
                    let t = |b: Option<&Vec<u8>>| b.map(|b| text(b)).unwrap_or_else(|| "(missing)".into());
                    o.fail(
                        "influence",
                        format!("{}:\n--- on its own\n{}\n--- among others\n{}", p, t(one.as_ref()), t(out.get(at))),
                    );
                }
            }
        }
        Err(e) => {
            if failing.is_empty() {
                o.fail("rejected", format!("every page builds on its own, but not together: {}", e));
            }
        }
    }
    o
}
