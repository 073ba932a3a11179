//! C22: the development server serves exactly the files of the output directory.

use crate::cli;
use crate::dev::{self, Dev, Reply};
use crate::engine::*;
use crate::gen;
use crate::proj;
use crate::site::*;

const SECRET: &str = "not-for-visitors-7f3a";

const ODD: &[&str] = &[
    " ", "%", "?", "#", "&", "+", "..", ":", "é", "日", "\"", "'", ";", "=", "~", "{", "}", "<", ">", "|", "^", "`", "*", "[", "]", "(", ",", "@", "!", "$",
    "\\", "%20", "%2e", "\u{1f600}", "\n", "\t", ".", "-", "_", "%2F",
];

/// A name for a file or directory, without an extension.
fn name(src: &mut Src) -> String {
    loop {
        let mut s = String::new();
        for _ in 0..src.usize(1, 3) {
            if src.chance(2, 5) {
                s.push_str(*src.pick(ODD));
            } else {
                s.push_str(&gen::word(src));
            }
        }
        // A component of two dots between backslashes leaves the directory on other systems.
        if s != "." && s != ".." && !s.split('\\').any(|c| c == "..") && s.len() < 60 {
            return s;
        }
    }
}

fn html(src: &mut Src) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..src.usize(0, 4) {
        s.push_str(*src.pick(&[
            "</body>", "<p>text</p>", "</BODY>", "</body", "body>", "</ body>", "<body>", "é\r\n", "</html>", "<!-- </body> -->", "</bod", "<</body>>",
            "<script>let a = \"</body>\";</script>",
        ]));
        if src.chance(1, 3) {
            s.push_str(&gen::text(src));
        }
    }
    let mut b = s.into_bytes();
    if src.chance(1, 10) {
        b.push(255);
    }
    b
}

fn any_bytes(src: &mut Src) -> Vec<u8> {
    match src.below(5) {
        0 => vec![],
        1 => html(src),
        2 => (0..src.usize(1, 40)).map(|_| src.below(256) as u8).collect(),
        3 if src.chance(1, 3) => large(src),
        3 => vec![b'x'; src.usize(1000, 300_000)],
        _ => gen::text(src).into_bytes(),
    }
}

/// A text longer than some buffer, no two parts of which are alike.
fn large(src: &mut Src) -> Vec<u8> {
    let n = *src.pick(&[1usize << 12, 1 << 13, 1 << 16, 1 << 17, 1 << 20, 3 << 20, 5 << 20]) - 1 + src.usize(0, 2);
    let mut out = Vec::with_capacity(n + 16);
    let mut i = 0;
    while out.len() < n {
        out.extend_from_slice(format!("{:x}\n", i * 7).as_bytes());
        i += 1;
    }
    out.truncate(n);
    if src.coin() {
        out.extend_from_slice(b"</body>");
    }
    out
}

fn encode(path: &str, src: &mut Src) -> Vec<u8> {
    let style = src.below(4);
    let mut out = vec![b'/'];
    for b in path.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-_.~".contains(&b);
        if b == b'/' || (plain && style != 1) || (style == 2 && b"!$&'()*+,;=@:\\\"".contains(&b)) {
            out.push(b);
        } else if style == 3 {
            out.extend_from_slice(format!("%{:02x}", b).as_bytes());
        } else {
            out.extend_from_slice(format!("%{:02X}", b).as_bytes());
        }
    }
    out
}

/// Where the reload script belongs.
pub fn body_end(path: &str, bytes: &[u8]) -> Option<usize> {
    let ext = proj::file_of(path).rsplit_once('.').map(|x| if x.0.is_empty() { "" } else { x.1 }).unwrap_or("");
    if ext != "html" && ext != "htm" {
        return None;
    }
    bytes.windows(7).position(|w| w == b"</body>")
}

fn has_secret(r: &Reply) -> bool {
    r.body.windows(SECRET.len()).any(|w| w == SECRET.as_bytes())
}

fn show(t: &[u8]) -> String {
    String::from_utf8_lossy(t).into_owned()
}

/// A known finding: a literal asterisk in the request is not matched by the route of the server.
fn asterisk(target: &[u8], r: &Reply, o: &mut Outcome) -> bool {
    let path = target.split(|b| *b == b'?').next().unwrap();
    if r.status == 404 && path.contains(&b'*') {
        o.known.push("asterisk-in-request-path");
        return true;
    }
    false
}

struct Judge {
    script: Option<Vec<u8>>,
}

impl Judge {
    fn file(&mut self, path: &str, bytes: &[u8], target: &[u8], r: &Reply, o: &mut Outcome) {
        if r.status != 200 {
            o.fail("status", format!("{} is in the output, but GET {} answers {}", path, show(target), r.status));
            return;
        }
        if let Some(l) = r.header("Content-Length") {
            if l != r.body.len().to_string() {
                o.fail("length", format!("GET {}: Content-Length {} with {} bytes", show(target), l, r.body.len()));
            }
        }
        // Browsers go by the type.
        let t = r.header("Content-Type").unwrap_or("").split(';').next().unwrap().trim().to_ascii_lowercase();
        let name = proj::file_of(path);
        let ok = match name.rfind('.').filter(|i| *i > 0).map(|i| &name[i + 1..]) {
            Some("html" | "htm") => t == "text/html",
            Some("css") => t == "text/css",
            Some("js") => t.ends_with("/javascript"),
            Some("json") => t == "application/json",
            Some("png") => t == "image/png",
            Some("svg") => t.starts_with("image/svg"),
            Some("txt") => t == "text/plain",
            // No other file is a page.
            _ => t != "text/html",
        };
        if !ok {
            o.fail("type", format!("GET {}: {} has the type {:?}", show(target), path, t));
        }
        let differs = |o: &mut Outcome| {
            o.fail(
                "bytes",
                format!(
                    "GET {} differs from the file {}:\n--- file\n{}\n--- response\n{}",
                    show(target),
                    path,
                    clip(&show(bytes), 600),
                    clip(&show(&r.body), 900)
                ),
            )
        };
        match body_end(path, bytes) {
            None => {
                if r.body != bytes {
                    differs(o);
                }
            }
            Some(i) => {
                let (a, b) = bytes.split_at(i);
                if r.body.len() <= bytes.len() || !r.body.starts_with(a) || !r.body.ends_with(b) {
                    differs(o);
                    return;
                }
                let s = &r.body[a.len()..r.body.len() - b.len()];
                match &self.script {
                    None => {
                        let t = show(s);
                        let t = t.trim();
                        if !t.starts_with("<script") || !t.ends_with("</script>") || !t.contains("__ws") || !t.contains("reload") {
                            o.fail("script", format!("GET {}: this is inserted: {}", show(target), t));
                        }
                        self.script = Some(s.to_vec());
                    }
                    Some(known) if known != s => differs(o),
                    _ => (),
                }
            }
        }
    }
}

pub fn c22(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mut p = Files::new();
    let strip = src.coin();
    p.insert("stuart.toml".into(), cli::manifest(SECRET, &format!("strip_extensions = {}\n", strip)));
    p.insert("content/root.html".into(), b"<html><body>{{ insert(\"a\") }}</body></html>".to_vec());
    for i in 0..src.usize(0, 3) {
        let d = *src.pick(&["", "pages/", "pages/deep/"]);
        let n = if src.chance(1, 3) { "index".into() } else { format!("{}{}", gen::word(src), i) };
        p.insert(format!("content/{}{}.html", d, n), format!("{{{{ begin(\"a\") }}}}{}{{{{ end(\"a\") }}}}", gen::mark(src)).into_bytes());
    }
    // Files and directories of all names.
    let mut dirs: Vec<String> = vec!["".into()];
    for _ in 0..src.usize(0, 3) {
        let d = format!("{}{}/", src.pick(&dirs), name(src));
        dirs.push(d);
    }
    for _ in 0..src.usize(1, 6) {
        let d = src.pick(&dirs).clone();
        let ext = *src.pick(&["html", "htm", "css", "js", "json", "txt", "svg", "bin", "", "mjs", "png", "xml"]);
        let n = if ext == "html" && src.chance(1, 3) { "index".into() } else { name(src) };
        let n = if ext.is_empty() { n } else { format!("{}.{}", n, ext) };
        let b = if ext == "html" || ext == "htm" || src.chance(1, 4) { html(src) } else { any_bytes(src) };
        p.insert(format!("static/{}{}", d, n), b);
    }
    p.insert("secret.html".into(), SECRET.as_bytes().to_vec());
    p.insert("content/hidden.json".into(), format!("\"{}\"", SECRET).into_bytes());
    o.hash = hash_files(&p);
    let out = *src.pick(&["dist", "dist", "dist", "build/out", "../site", "./a/../b"]);
    let mut shown = show_files(&p);
    shown["(output)"] = out.into();
    o.show = shown;

    let case = ctx.fresh();
    let dir = case.join("p");
    std::fs::create_dir_all(&dir).unwrap();
    // Conflicting names are another matter.
    for (k, v) in &p {
        let path = dir.join(k);
        if std::fs::create_dir_all(path.parent().unwrap()).is_err() || path.is_dir() || std::fs::write(&path, v).is_err() {
            o.class("discarded");
            return o;
        }
    }
    // Neighbours of the output directory whose names begin like it.
    let dist = dir.join(out);
    for sfx in ["2", "-old"] {
        let mut n = dist.clone().into_os_string();
        n.push(sfx);
        std::fs::create_dir_all(&n).ok();
        std::fs::write(std::path::Path::new(&n).join("page.html"), SECRET).ok();
    }
    if out == "./a/../b" {
        std::fs::create_dir_all(dir.join("a")).unwrap();
    }
    let r = cli::stuart(ctx, &dir, &["build", "-o", out], &cli::Env::default());
    if !r.ok() {
        o.class("discarded");
        return o;
    }
    let mut d = match Dev::start(ctx, &dir, &["-o", out], &cli::Env::default()) {
        Ok(d) => d,
        Err(e) => {
            o.fail("start", e);
            return o;
        }
    };
    let tree = read_tree(&dist, true);
    let mut judge = Judge { script: None };
    let mut n = 0;
    let mut run = |t: &[u8], o: &mut Outcome| -> Option<Reply> {
        n += 1;
        match dev::get(t) {
            Ok(r) => {
                if has_secret(&r) {
                    o.fail("disclosure", format!("GET {} discloses a file outside the output directory", show(t)));
                }
                Some(r)
            }
            Err(e) => {
                o.fail("no answer", format!("GET {}: {}", show(t), e));
                None
            }
        }
    };
    let mut missing = 0;
    let root = match tree.get("index.html") {
        Some(b) => Some(("index.html".to_string(), b.clone())),
        None => None,
    };
    for (path, bytes) in &tree {
        if o.fail.is_some() {
            break;
        }
        if let Some(dp) = path.strip_suffix('/') {
            let mut t = encode(dp, src);
            let query = src.chance(1, 5);
            if query {
                t.extend_from_slice(b"?a=/b&c=..");
            }
            let r = match run(&t, &mut o) {
                Some(r) => r,
                None => return o,
            };
            if asterisk(&t, &r, &mut o) {
                continue;
            }
            let loc = r.header("Location").unwrap_or("").to_string();
            if !(301..=308).contains(&r.status) || !loc.split('?').next().unwrap().ends_with('/') {
                o.fail("redirect", format!("{} is a directory, but GET {} answers {} to {:?}", dp, show(&t), r.status, loc));
                return o;
            }
            o.class("directories");
            for target in [loc.into_bytes(), [encode(dp, src), b"/".to_vec()].concat()] {
                let r = match run(&target, &mut o) {
                    Some(r) => r,
                    None => return o,
                };
                if asterisk(&target, &r, &mut o) {
                    continue;
                }
                let index = format!("{}index.html", path);
                match tree.get(&index) {
                    Some(b) => {
                        o.class("indices");
                        judge.file(&index, b, &target, &r, &mut o)
                    }
                    None if r.status == 404 => (),
                    None => o.fail("no index", format!("{} has no index, but GET {} answers {}", dp, show(&target), r.status)),
                }
            }
        } else {
            for k in 0..2 {
                let mut t = encode(path, src);
                if k == 1 && src.coin() {
                    t.extend_from_slice(*src.pick(&[&b"?"[..], b"?x", b"?a=1&b=../..", b"?/../stuart.toml", b"?%00"]));
                }
                let r = match run(&t, &mut o) {
                    Some(r) => r,
                    None => return o,
                };
                if !asterisk(&t, &r, &mut o) {
                    judge.file(path, bytes, &t, &r, &mut o);
                }
            }
            o.class_if(body_end(path, bytes).is_some(), "script inserted");
            o.class_if(body_end(path, bytes).is_none() && bytes.windows(7).any(|w| w == b"</body>"), "not HTML with </body>");
            o.class_if(path.contains("..") || path.contains(':'), "dots and colons");
        }
    }
    // The root.
    if let Some(r) = run(b"/", &mut o) {
        match &root {
            Some((p, b)) => judge.file(p, b, b"/", &r, &mut o),
            None if r.status == 404 => (),
            None => o.fail("no index", format!("there is no index.html, but GET / answers {}", r.status)),
        }
    }
    // What is not there.
    let paths: Vec<String> = tree.keys().cloned().collect();
    for _ in 0..src.usize(4, 16) {
        if o.fail.is_some() {
            return o;
        }
        let known = src.pick(&paths).clone();
        let abs = dir.canonicalize().unwrap().display().to_string();
        let (t, strict): (Vec<u8>, bool) = match src.below(9) {
            0 => {
                let mut q = known.trim_end_matches('/').to_string();
                match src.below(4) {
                    0 => q.push_str(".html"),
                    1 => q.push('x'),
                    2 => {
                        q.pop();
                    }
                    _ => q = format!("{}/{}", q, gen::word(src)),
                }
                if q.is_empty() || q.ends_with('/') || tree.contains_key(&q) || tree.contains_key(&format!("{}/", q)) || q.contains("//") || q == "." {
                    continue;
                }
                // A lone dot as a component changes nothing.
                if q.split('/').any(|c| c == "." || c == "..") {
                    continue;
                }
                (encode(&q, src), true)
            }
            1 => {
                let up = *src.pick(&["..", "%2e%2e", ".%2e", "%2E%2E", "%2e."]);
                let sep = *src.pick(&["/", "%2f", "%2F"]);
                let what = *src.pick(&["stuart.toml", "secret.html", "content/hidden.json", "p/stuart.toml", "", "dist/", "dist2/page.html", "p/secret.html"]);
                let k = src.usize(1, 6);
                let mut t = src.pick(&["/", "//", "/./", "/%2e/", "/zz/../"]).to_string();
                for _ in 0..k {
                    t.push_str(up);
                    t.push_str(sep);
                }
                t.push_str(what);
                (t.into_bytes(), true)
            }
            2 => {
                // Through a directory which is there, and out again.
                let d = paths.iter().find(|p| p.ends_with('/')).cloned().unwrap_or("zz/".into());
                let ups = d.matches('/').count() + 1;
                let mut t = encode(&d, src);
                for _ in 0..ups {
                    t.extend_from_slice(*src.pick(&[&b"../"[..], b"%2e%2e/", b"..%2f"]));
                }
                t.extend_from_slice(*src.pick(&[&b"stuart.toml"[..], b"secret.html", b""]));
                (t, true)
            }
            3 => (format!("/{}/{}", abs, src.pick(&["stuart.toml", "secret.html"])).into_bytes(), true),
            4 => (format!("/%2F{}/secret.html", abs.trim_start_matches('/').replace('/', "%2F")).into_bytes(), true),
            5 => (src.pick(&[&b"/%00"[..], b"/index.html%00", b"/%", b"/%2", b"/%zz", b"/%ff%fe", b"/index.html%ff"]).to_vec(), true),
            6 => (src.pick(&[&b"/..\\stuart.toml"[..], b"/..%5cstuart.toml", b"/a\\..\\..\\stuart.toml", b"/%2e%2e%5Csecret.html"]).to_vec(), true),
            7 => {
                let q = *src.pick(&["stuart.toml", "secret.html", "content/root.html", "content", "static/", "content/hidden.json", "hidden.json", "root.html", "dist2/page.html", "metadata.json"]);
                if tree.contains_key(q) || tree.contains_key(&format!("{}/", q)) {
                    continue;
                }
                (encode(q, src), true)
            }
            _ => {
                // Back to the same place: not leaving, but not a plain name either.
                if known.ends_with('/') {
                    continue;
                }
                let mut t = b"/zz/..".to_vec();
                t.extend_from_slice(&encode(&known, src));
                (t, false)
            }
        };
        let r = match run(&t, &mut o) {
            Some(r) => r,
            None => return o,
        };
        missing += 1;
        if strict && r.status != 404 {
            o.fail("not found", format!("GET {} answers {} {:?}:\n{}", show(&t), r.status, r.header("Location"), clip(&show(&r.body), 300)));
        } else if !strict && r.status == 200 && !r.body.is_empty() {
            judge.file(&known, &tree[&known], &t, &r, &mut o);
        }
    }
    // Several browsers at the same time, each with a connection which it keeps.
    let files: Vec<&String> = tree.keys().filter(|p| !p.ends_with('/') && !p.contains('*')).collect();
    if o.fail.is_none() && !files.is_empty() && src.coin() {
        o.class("at the same time");
        let plans: Vec<Vec<(Option<&String>, Vec<u8>)>> = (0..src.usize(2, 6))
            .map(|_| {
                (0..src.usize(1, 5))
                    .map(|_| match src.chance(1, 6) {
                        true => (None, format!("/not there/{}", gen::mark(src)).replace(' ', "%20").into_bytes()),
                        false => {
                            let p = *src.pick(&files);
                            (Some(p), encode(p, src))
                        }
                    })
                    .collect()
            })
            .collect();
        let replies: Vec<Result<Vec<Reply>, String>> = std::thread::scope(|s| {
            let t: Vec<_> = plans
                .iter()
                .map(|p| s.spawn(move || dev::get_kept(&p.iter().map(|x| x.1.clone()).collect::<Vec<_>>())))
                .collect();
            t.into_iter().map(|t| t.join().unwrap()).collect()
        });
        for (plan, r) in plans.iter().zip(replies) {
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    let t: Vec<String> = plan.iter().map(|x| show(&x.1)).collect();
                    o.fail("no answer", format!("GET {:?} over one of {} connections: {}", t, plans.len(), e));
                    break;
                }
            };
            for ((p, t), r) in plan.iter().zip(r) {
                match p {
                    _ if o.fail.is_some() => (),
                    Some(p) => judge.file(p, &tree[*p], t, &r, &mut o),
                    None if r.status == 404 => (),
                    None => o.fail("not found", format!("GET {} answers {}", show(t), r.status)),
                }
            }
        }
    }
    o.nontrivial = tree.len() >= 3 && missing >= 2;
    if let Some(e) = d.ended() {
        o.fail("server", format!("the server ended: {}\n{}", e, d.log()));
    } else if read_tree(&dist, true) != tree {
        o.fail("output", "the output directory changed while it was served".to_string());
    }
    o
}
