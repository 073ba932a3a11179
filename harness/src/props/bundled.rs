//! C34: the plugins in `plugins/`, loaded by the binary. `imgopt` is built with a stand-in for the
//! PNG library it uses (`bundled/oxipng`), which is not there.

use super::faults::{all_blocks, rewrite};
use super::model;
use crate::ast::*;
use crate::cli;
use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;
use crate::tgen::*;

const DEMO: &str = "<p>This was written by the demo function!</p>";
const MAGIC: &[u8] = b"\x89PNG\r\n\x1a\n";

/// What the stand-in makes of an image.
fn optimised(b: &[u8]) -> Option<Vec<u8>> {
    let rest = b.strip_prefix(MAGIC)?;
    if rest.ends_with(b"broken") {
        return None;
    }
    let mut out = MAGIC.to_vec();
    out.extend_from_slice(b"optimised:");
    out.extend(rest.iter().rev());
    Some(out)
}

fn image(src: &mut Src) -> Vec<u8> {
    let mut b = MAGIC.to_vec();
    match src.below(4) {
        0 => b.extend((0..src.usize(0, 40)).map(|_| src.below(256) as u8)),
        1 => b.extend(gen::text(src).into_bytes()),
        2 => b.extend(b"{{ nosuch() }}{{ begin("),
        _ => b.extend(gen::mark(src).into_bytes()),
    }
    if b.ends_with(b"broken") {
        b.push(0);
    }
    b
}

pub fn c34(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = W { wrong: 0, depth: 3, max_items: 4, md_files: 2, pages: 3, text: 20, odd: 1, section: 4, for_: 5, ifdef: 3, ..W::default() };
    let mut site = gen_site(src, &w);
    let (demo, imgopt) = match src.weighted(&[60, 15, 15, 5]) {
        0 => (true, true),
        1 => (true, false),
        2 => (false, true),
        _ => (false, false),
    };

    // Calls of the function.
    let mut total = 0usize;
    all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
    let mut touched = std::collections::BTreeSet::new();
    let (mut calls, mut wrong) = (0, false);
    let calling = if demo { src.usize(0, 4) } else { src.chance(1, 10) as usize };
    for _ in 0..calling {
        let target = src.below(total as u64) as usize;
        let (mut i, mut done) = (0usize, false);
        all_blocks(&mut site, &mut |p, b, _| {
            if !done && target < i + b.len() + 1 {
                done = true;
                let at = (target - i).min(b.len());
                let (mut args, mut named) = (vec![], vec![]);
                if src.chance(1, 12) {
                    wrong = true;
                    let arg = match src.below(4) {
                        0 => Arg::Str("x".into()),
                        1 => Arg::Str(String::new()),
                        2 => Arg::Int(1),
                        _ => Arg::Var("env".into()),
                    };
                    let n = src.usize(1, 2);
                    if src.coin() {
                        args = vec![arg; n];
                    } else {
                        named = (0..n).map(|i| (["x", "y"][i].to_string(), arg.clone())).collect();
                    }
                }
                let name = *src.pick(&["demo::demo", "demo"]);
                b.insert(at, Node::Call(name.into(), args, named));
                if src.coin() {
                    b.insert(at, Node::Text(format!(" {} ", gen::mark(src))));
                }
                calls += 1;
                touched.insert(p.to_string());
            }
            i += b.len() + 1;
        });
    }
    for p in &touched {
        match site.files.get_mut(p) {
            Some(File::Html(n)) => seal(n),
            Some(File::Md(m)) => seal(&mut m.body),
            _ => (),
        }
        rewrite(&mut site, p, src, w.style);
    }
    let env = Val::Obj(vec![("STUART_ENV".into(), Val::Str("production".into()))]);
    let call = |_: &str, _: &[Arg], _: &[(String, Arg)], _: &mut Interp| Ok(DEMO.to_string());
    let want = expect(&site, &env, Some(&call));

    // Images, and what only looks like one.
    let mut files = cli::project(&site.bytes, "strip_extensions = false\n");
    let mut images = Files::new();
    let mut broken = false;
    let mut n_images = 0;
    for i in 0..src.usize(0, 4) {
        let d = *src.pick(&["", "", "img/", "img/a b/", "x.png/"]);
        let (name, png) = match src.below(8) {
            0 => (format!("{}image {}.jpg", d, i), false),
            7 => {
                // Other kinds of images, and other files.
                let e = src.pick(&["apng", "PNG", "Png", "jpeg", "gif", "webp", "svg", "avif", "mng", "jng", "pngx", "pn", "ico", "bmp", "tiff", "png~", "png "]);
                (format!("{}other {}.{}", d, i, e), false)
            }
            1 => (format!("{}{}.png.bak", d, i), false),
            2 => (format!("{}png-{}", d, i), false),
            3 => (format!("{}é.{}.png", d, i), true),
            _ => (format!("{}image-{}.png", d, i), true),
        };
        let mut b = image(src);
        if src.chance(1, 20) {
            b = src.pick(&[&b""[..], b"GIF89a", b"\x89PN", b"not an image"]).to_vec();
        } else if src.chance(1, 25) {
            b.extend_from_slice(b"broken");
        }
        let out = if png && imgopt {
            match optimised(&b) {
                Some(x) => x,
                None => {
                    broken = true;
                    vec![]
                }
            }
        } else {
            b.clone()
        };
        n_images += png as usize;
        files.insert(format!("content/{}", name), b);
        images.insert(name, out);
    }
    // The static files are not the plugins' business.
    if src.chance(1, 4) {
        let b = image(src);
        files.insert("static/static.png".into(), b.clone());
        images.insert("static.png".into(), b);
    }

    let aux = ctx.aux.clone().expect("--aux");
    let mut manifest = files["stuart.toml"].clone();
    let mut deps: Vec<(&str, &str)> = vec![];
    if demo {
        deps.push(("demo", "libdemo.so"));
    }
    if imgopt {
        deps.push(("imgopt", "libimgopt.so"));
    }
    src.shuffle(&mut deps);
    if !deps.is_empty() {
        manifest.extend_from_slice(b"\n[dependencies]\n");
    }
    for (n, f) in &deps {
        manifest.extend_from_slice(format!("{} = \"{}\"\n", n, aux.join(f).display()).as_bytes());
    }
    let mut shown = show_files(&files);
    shown["(plugins)"] = deps.iter().map(|(n, _)| *n).collect::<Vec<_>>().join(", ").into();
    files.insert("stuart.toml".into(), manifest);
    o.hash = fnv(hash_files(&files), b"");
    o.show = shown;
    if let Err(e) = &want {
        if e.contains("unspecified") || e.contains("model out of fuel") {
            o.class("discarded");
            return o;
        }
    }
    o.nontrivial = (demo && calls > 0) || (imgopt && n_images > 0);
    o.class_if(demo && calls > 0, "demo is called");
    o.class_if(demo && wrong, "demo is called with arguments");
    o.class_if(!demo && calls > 0, "demo is not there");
    o.class_if(imgopt && n_images > 0, "images are optimised");
    o.class_if(broken, "an image is broken");
    o.class_if(!imgopt && n_images > 0, "imgopt is not there");
    let fails = match &want {
        Err(e) => Some(e.to_string()),
        Ok(_) if wrong && demo => Some("demo takes no arguments".into()),
        Ok(_) if calls > 0 && !demo => Some("there is no such function".into()),
        Ok(_) if broken => Some("an image cannot be optimised".into()),
        Ok(_) => None,
    };
    let dir = ctx.fresh();
    write_files(&dir, &files);
    let r = cli::stuart(ctx, &dir, &["build"], &cli::Env::default());
    if r.crashed() {
        o.fail("crash", r.describe());
        return o;
    }
    match (fails, want) {
        (Some(w), _) => {
            o.class("fails");
            if r.ok() {
                o.fail("accepted", format!("the build succeeds, but should fail: {}", w));
            }
        }
        (None, Ok(w)) => {
            o.class("builds");
            if !r.ok() {
                o.fail("rejected", r.describe());
                return o;
            }
            let mut tree = read_tree(&dir.join("dist"), false);
            for (n, b) in &images {
                match tree.remove(n) {
                    None => o.fail("missing", format!("{} is not in the output", n)),
                    Some(x) if x != *b => o.fail("image", format!("{} is {:?}, not {:?}", n, text(&x), text(b))),
                    _ => (),
                }
            }
            model::compare(&w, &tree, &mut o);
        }
        _ => unreachable!(),
    }
    o
}
