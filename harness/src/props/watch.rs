//! C23: the development server rebuilds after every edit, tells the browsers, and settles.

use super::history;
use super::server;
use crate::cli::Env;
use crate::dev::{self, Dev, Ws};
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// One change of the file system, after which nothing of the edit is half done.
#[derive(Clone, Debug)]
enum Op {
    /// Makes these files and directories aside and moves the topmost one here.
    MoveIn(String, Files, BTreeSet<String>),
    MoveOut(String),
    Unlink(String),
    Rename(String, String),
    /// Writes over the beginning of a file, in one call.
    Overwrite(String, Vec<u8>),
    Mkdir(String),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::MoveIn(p, f, _) if f.contains_key(p) => format!("replace {} by {:?}", p, clip(&text(&f[p]), 80)),
            Op::MoveIn(p, f, _) => format!("move in {}/ with {:?}", p, f.keys().collect::<Vec<_>>()),
            Op::MoveOut(p) => format!("move out {}", p),
            Op::Unlink(p) => format!("remove {}", p),
            Op::Rename(a, b) => format!("rename {} to {}", a, b),
            Op::Overwrite(p, b) => format!("write {:?} into {}", clip(&text(b), 80), p),
            Op::Mkdir(p) => format!("make {}/", p),
        }
    }

    fn apply(&self, dir: &Path, stage: &Path, n: &mut u32) {
        *n += 1;
        let aside = stage.join(format!("s{}", n));
        match self {
            Op::MoveIn(p, files, dirs) => {
                let rel = |x: &str| {
                    let r = &x[p.len()..];
                    if r.is_empty() { aside.clone() } else { aside.join(&r[1..]) }
                };
                for d in dirs {
                    fs::create_dir_all(rel(d)).unwrap();
                }
                for (f, b) in files {
                    let to = rel(f);
                    fs::create_dir_all(to.parent().unwrap()).unwrap();
                    fs::write(to, b).unwrap();
                }
                fs::rename(&aside, dir.join(p)).unwrap();
            }
            Op::MoveOut(p) => fs::rename(dir.join(p), &aside).unwrap(),
            Op::Unlink(p) => fs::remove_file(dir.join(p)).unwrap(),
            Op::Rename(a, b) => fs::rename(dir.join(a), dir.join(b)).unwrap(),
            Op::Overwrite(p, b) => {
                use std::io::Write;
                let mut f = fs::OpenOptions::new().write(true).open(dir.join(p)).unwrap();
                f.write_all(b).unwrap();
            }
            Op::Mkdir(p) => fs::create_dir(dir.join(p)).unwrap(),
        }
    }
}

fn parents(p: &str) -> impl Iterator<Item = &str> {
    p.match_indices('/').map(move |(i, _)| &p[..i])
}

fn disk(p: &Proj) -> (Files, BTreeSet<String>) {
    let mut f = p.files();
    f.remove("stuart.toml");
    f.retain(|k, _| !k.starts_with("temp/"));
    let mut d: BTreeSet<String> = p.dirs.iter().filter(|d| *d != "temp" && !d.starts_with("temp/")).cloned().collect();
    d.insert("content".into());
    for k in f.keys().cloned().chain(d.clone()).collect::<Vec<_>>() {
        d.extend(parents(&k).map(|s| s.to_string()));
    }
    (f, d)
}

fn below(top: &str, p: &str) -> bool {
    p == top || (p.starts_with(top) && p.as_bytes().get(top.len()) == Some(&b'/'))
}

fn topmost(d: &BTreeSet<String>) -> Vec<String> {
    d.iter().filter(|x| !parents(x).any(|p| d.contains(p))).cloned().collect()
}

/// The steps from one state of the project to the next.
fn steps(a: &Proj, b: &Proj, src: &mut Src) -> Vec<Op> {
    let (af, ad) = disk(a);
    let (bf, bd) = disk(b);
    let mut out = vec![];
    let gone: Vec<&String> = af.keys().filter(|k| !bf.contains_key(*k)).collect();
    let come: Vec<&String> = bf.keys().filter(|k| !af.contains_key(*k)).collect();
    if ad == bd && gone.len() == 1 && come.len() == 1 && af[gone[0]] == bf[come[0]] && af.iter().all(|(k, v)| k == gone[0] || bf.get(k) == Some(v)) {
        return vec![Op::Rename(gone[0].clone(), come[0].clone())];
    }
    let lost: BTreeSet<String> = ad.difference(&bd).cloned().collect();
    let tops = topmost(&lost);
    for t in &tops {
        out.push(Op::MoveOut(t.clone()));
    }
    for g in gone {
        if !tops.iter().any(|t| below(t, g)) {
            out.push(if src.coin() { Op::Unlink(g.clone()) } else { Op::MoveOut(g.clone()) });
        }
    }
    let new: BTreeSet<String> = bd.difference(&ad).cloned().collect();
    let mut tops = topmost(&new);
    if src.chance(1, 5) {
        // One by one.
        tops.clear();
        for d in &new {
            out.push(Op::Mkdir(d.clone()));
        }
    }
    for t in &tops {
        let f: Files = bf.iter().filter(|(k, _)| below(t, k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let d: BTreeSet<String> = bd.iter().filter(|k| below(t, k)).cloned().collect();
        out.push(Op::MoveIn(t.clone(), f, d));
    }
    for (k, v) in &bf {
        let old = af.get(k);
        if old == Some(v) || tops.iter().any(|t| below(t, k)) {
            continue;
        }
        if old.map_or(false, |o| !o.is_empty() && o.len() <= v.len()) && src.coin() {
            out.push(Op::Overwrite(k.clone(), v.clone()));
        } else {
            out.push(Op::MoveIn(k.clone(), Files::from([(k.clone(), v.clone())]), BTreeSet::new()));
        }
    }
    out
}

/// What happens while the server runs.
#[derive(Clone, Debug)]
enum Act {
    /// Every step is followed by a pause; what is wanted at the end.
    Edit(Vec<Op>, Want),
    /// Something which is no part of the site.
    Unrelated(String, Vec<u8>),
    Connect,
    Disconnect(usize),
    /// Two edits, the second while the build after the first is running.
    During(Op, Op, Want),
    /// An edit among more changes than can be kept track of while the server does not run.
    Storm(Op, Want),
}

/// Suspends the server, or lets it go on.
fn signal(pid: u32, name: &str) {
    std::process::Command::new("kill").args([&format!("-{}", name), &pid.to_string()]).status().expect("cannot run kill");
    // It is suspended a little later.
    let stat = format!("/proc/{}/stat", pid);
    let t0 = Instant::now();
    while name == "STOP" && t0.elapsed() < Duration::from_secs(1) {
        let s = fs::read_to_string(&stat).unwrap_or_default();
        if s.rsplit(") ").next().map_or(true, |s| s.starts_with(['T', 't', 'Z']) || s.is_empty()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

#[derive(Debug)]
struct Scenario {
    p: Proj,
    want: Want,
    /// The name of a file which the pre-build script puts in `temp`, and its text.
    gen: Option<(String, String)>,
    /// The file which that text is read from.
    input: Option<String>,
    /// The text of a file which appears while the first build is running, and what is wanted then.
    early: Option<(String, Want)>,
    args: Vec<String>,
    cwd: PathBuf,
    acts: Vec<Act>,
    /// Whether a page is open in a browser during the edits.
    page: Option<String>,
}

/// A file which is never edited.
const PAGE: &str = "open in a browser.html";
const PAGE_TEXT: &[u8] = b"<html><body><p>page</p></body></html>";

/// One edit which changes what is on the disk.
fn next(src: &mut Src, p: &Proj) -> Option<(Proj, Vec<Op>)> {
    for _ in 0..6 {
        let mut q = p.clone();
        if src.chance(1, 8) {
            // Another name for a page or asset.
            let keys: Vec<String> = q.stat.keys().cloned().collect();
            if let Some(k) = (!keys.is_empty()).then(|| src.pick(&keys).clone()) {
                let d = parent_of(&k);
                let n = format!("{}{}{}.txt", d, if d.is_empty() { "" } else { "/" }, gen::mark(src));
                let b = q.stat.remove(&k).unwrap();
                q.stat.insert(n, b);
            }
        } else {
            history::edit(src, &mut q, false);
        }
        q.temp = p.temp.clone();
        if p.stat.contains_key(PAGE) {
            q.stat.insert(PAGE.into(), PAGE_TEXT.to_vec());
        }
        if src.coin() {
            // Directories which are not needed may stay.
            let (_, ad) = disk(p);
            let (bf, bd) = disk(&q);
            for d in ad.difference(&bd) {
                if !bf.contains_key(d) && !parents(d).any(|x| bf.contains_key(x)) {
                    q.dirs.insert(d.clone());
                }
            }
        }
        if matches!(q.want(), Want::Unspecified) {
            continue;
        }
        let s = steps(p, &q, src);
        if !s.is_empty() {
            return Some((q, s));
        }
    }
    None
}

fn scenario(src: &mut Src, dir: &Path, base: &Path) -> Option<Scenario> {
    let mut p = gen_proj(src, &PW { clash: 2, max_files: 6, bad: 1, temp: false });
    p.temp.clear();
    let mut input = None;
    let gen = if src.chance(1, 3) {
        let g = (format!("{}.txt", gen::mark(src)), gen::mark(src));
        p.temp.insert(g.0.clone(), g.1.clone().into_bytes());
        if src.chance(2, 3) {
            // What the script makes depends on another file of the project.
            input = Some(src.pick(&["templates/in.txt", "temperature", "temp.txt", "distx", "metadata.json.in", "src/temp/in.txt", "in.txt"]).to_string());
        }
        Some(g)
    } else {
        None
    };
    p.meta = Some(src.coin());
    let page = src.chance(1, 5).then(|| {
        let at = src.pick(&["/", "/a/", "/a/page.html", "/open%20in%20a%20browser.html", "/a.b/c%20d/"]);
        format!("{}{}{}", at, src.pick(&["", "", "?b", "?b=c/d"]), src.pick(&["", "", "#c"]))
    });
    if page.is_some() {
        p.stat.insert(PAGE.into(), PAGE_TEXT.to_vec());
    }
    let want = p.want();
    if matches!(want, Want::Unspecified) {
        return None;
    }
    let mut args: Vec<String> = vec![];
    let out = match src.weighted(&[40, 12, 10, 10, 10, 8, 5]) {
        0 => None,
        1 => Some("out".to_string()),
        2 => Some("../site".into()),
        3 => Some(base.join("abs out").display().to_string()),
        4 => Some(format!("../{}/dist", dir.file_name().unwrap().to_str().unwrap())),
        5 => Some("./temp2/./web".into()),
        _ => Some(dir.join("dist").display().to_string()),
    };
    let mut cwd = dir.to_path_buf();
    if src.chance(1, 3) {
        cwd = src.pick(&[base.to_path_buf(), dir.join("content"), base.join("stage")]).clone();
        let m = if src.coin() || !cwd.starts_with(base) {
            dir.join("stuart.toml").display().to_string()
        } else if cwd == base {
            format!("{}/stuart.toml", dir.file_name().unwrap().to_str().unwrap())
        } else if cwd.starts_with(dir) {
            "../stuart.toml".into()
        } else {
            format!("../{}/stuart.toml", dir.file_name().unwrap().to_str().unwrap())
        };
        args.extend(["--manifest-path".to_string(), m]);
    }
    if let Some(o) = out {
        args.extend(["-o".to_string(), o]);
    }
    let mut acts = vec![];
    let mut q = p.clone();
    let mut early = None;
    if src.chance(1, 3) && matches!(want, Want::Ok(_)) {
        let t = gen::mark(src);
        let mut r = q.clone();
        r.content.insert("early.txt".into(), Cf::Other(t.clone().into_bytes()));
        if matches!(r.want(), Want::Ok(_)) {
            early = Some((t, r.want()));
            q = r;
        }
    }
    let mut clients = 0usize;
    for _ in 0..src.usize(0, 2) {
        acts.push(Act::Connect);
        clients += 1;
    }
    for _ in 0..src.usize(1, 3 + src.size / 3) {
        match src.weighted(&[70, 8, 12, 8, 2, 4, if input.is_some() { 25 } else { 0 }]) {
            6 => {
                let (n, (g, _)) = (input.clone().unwrap(), gen.clone().unwrap());
                let t = gen::mark(src).into_bytes();
                let mut r = q.clone();
                r.temp.insert(g, t.clone());
                if !matches!(r.want(), Want::Unspecified) {
                    acts.push(Act::Edit(vec![Op::MoveIn(n.clone(), Files::from([(n, t)]), BTreeSet::new())], r.want()));
                    q = r;
                }
            }
            0 => {
                if let Some((r, s)) = next(src, &q) {
                    acts.push(Act::Edit(s, r.want()));
                    q = r;
                }
            }
            1 => {
                let n = *src.pick(&["notes.txt", "stuart.toml", "metadata.json.bak", "scripts/helper.sh", "temp2/x", "distx"]);
                let b = if n == "stuart.toml" {
                    let mut b = p.manifest();
                    b.extend_from_slice(format!("# {}\n", gen::mark(src)).as_bytes());
                    b
                } else {
                    gen::mark(src).into_bytes()
                };
                if input.as_deref() != Some(n) {
                    acts.push(Act::Unrelated(n.into(), b));
                }
            }
            2 if clients < 4 => {
                acts.push(Act::Connect);
                clients += 1;
            }
            2 | 3 => {
                if clients > 0 {
                    acts.push(Act::Disconnect(src.below(clients as u64) as usize));
                    clients -= 1;
                }
            }
            x => {
                if !matches!(q.want(), Want::Ok(_)) {
                    continue;
                }
                if x == 5 {
                    // The directory is new, and changes in it have to be noticed from then on.
                    let mut put = |q: &mut Proj, n: &str| {
                        let t = gen::mark(src);
                        q.content.insert(n.into(), Cf::Other(t.clone().into_bytes()));
                        Files::from([(format!("content/{}", n), t.into_bytes())])
                    };
                    let d = format!("many {}", acts.len());
                    let f = put(&mut q, &format!("{}/first.txt", d));
                    acts.push(Act::Storm(Op::MoveIn(format!("content/{}", d), f, BTreeSet::new()), q.want()));
                    let f = put(&mut q, &format!("{}/second.txt", d));
                    acts.push(Act::Edit(vec![Op::MoveIn(format!("content/{}/second.txt", d), f, BTreeSet::new())], q.want()));
                    continue;
                }
                let op = |n: &str, b: &str| Op::MoveIn(format!("content/{}", n), Files::from([(format!("content/{}", n), b.as_bytes().to_vec())]), BTreeSet::new());
                let (a, b) = (gen::mark(src), gen::mark(src));
                let mut r = q.clone();
                r.content.insert("during 1.txt".into(), Cf::Other(a.clone().into_bytes()));
                r.content.insert("during 2.txt".into(), Cf::Other(b.clone().into_bytes()));
                acts.push(Act::During(op("during 1.txt", &a), op("during 2.txt", &b), r.want()));
                q = r;
            }
        }
    }
    Some(Scenario { p, want, gen, input, early, args, cwd, acts, page })
}

struct Run<'a> {
    d: Dev,
    out: PathBuf,
    dir: &'a Path,
    stage: &'a Path,
    count: PathBuf,
    hold: PathBuf,
    factor: u32,
    clients: Vec<Ws>,
    n: u32,
    /// What the server adds to pages, and the page which is open.
    script: Option<(String, String)>,
}

type Fails = Result<(), (&'static str, String)>;

impl Run<'_> {
    fn builds(&self) -> u64 {
        fs::metadata(&self.count).map(|m| m.len()).unwrap_or(0)
    }

    fn alive(&mut self) -> Fails {
        match self.d.ended() {
            Some(s) => Err(("server", format!("{}\n{}", s, self.d.log()))),
            None => Ok(()),
        }
    }

    fn limit(&self) -> Duration {
        Duration::from_secs(if self.factor == 1 { 5 } else { 10 })
    }

    /// Waits until nothing happens any more.
    fn quiet(&mut self) -> Fails {
        let window = Duration::from_millis(60) * self.factor;
        let t0 = Instant::now();
        let state = |r: &Self| (r.builds(), r.d.out.lock().unwrap().len());
        let mut last = state(self);
        let mut since = Instant::now();
        while since.elapsed() < window {
            std::thread::sleep(Duration::from_millis(3));
            let now = state(self);
            if now != last {
                last = now;
                since = Instant::now();
            }
            if t0.elapsed() > self.limit() + window {
                self.alive()?;
                return Err(("loop", format!("the server does not settle: {} builds\n{}", last.0, self.d.log())));
            }
        }
        self.alive()
    }

    /// Waits for a build after this many.
    fn started(&mut self, before: u64, what: &str) -> Fails {
        let t0 = Instant::now();
        while self.builds() <= before {
            self.alive()?;
            if t0.elapsed() > self.limit() {
                return Err(("no rebuild", format!("{} does not cause a build\n{}", what, self.d.log())));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        Ok(())
    }

    fn tree(&self) -> Files {
        // A build may be about to replace it.
        for _ in 0..3 {
            if let Ok(t) = guard(|| read_tree(&self.out, true)) {
                return t;
            }
            std::thread::sleep(Duration::from_millis(30));
        }
        Files::from([("(unreadable)".into(), vec![])])
    }

    fn check(&mut self, want: &Want, before: &Files, what: &str) -> Fails {
        match want {
            Want::Ok(w) => {
                if let Some(d) = diff(w, &self.tree()) {
                    return Err(("output", format!("{}: {}\n{}", what, d, self.d.log())));
                }
            }
            Want::Fail(true, why) => {
                if let Some(d) = diff(before, &self.tree()) {
                    return Err(("failure", format!("{} ({}) changes the output: {}\n{}", what, why, d, self.d.log())));
                }
            }
            _ => (),
        }
        // It still serves what is there.
        let now = self.tree();
        let keys: Vec<&String> = now.keys().filter(|k| !k.ends_with('/')).collect();
        let picked: Vec<&String> = match keys.len() {
            0 => vec![],
            n => vec![keys[self.n as usize % n], keys[n - 1]],
        };
        for k in picked {
            let t: Vec<u8> = std::iter::once(b'/').chain(k.bytes()).collect();
            let enc: Vec<u8> = t.iter().flat_map(|b| if b.is_ascii_alphanumeric() || *b == b'/' || *b == b'.' { vec![*b] } else { format!("%{:02X}", b).into_bytes() }).collect();
            let r = dev::get(&enc).map_err(|e| ("request", format!("{} after {}: {}\n{}", k, what, e, self.d.log())))?;
            let plain = server::body_end(k, &now[k]).is_none();
            if r.status != 200 || (plain && r.body != now[k]) || (!plain && r.body.len() <= now[k].len()) {
                return Err(("request", format!("{} after {}: {} {:?}", k, what, r.status, clip(&text(&r.body), 200))));
            }
        }
        self.alive()
    }

    fn reloaded(&mut self, what: &str) -> Fails {
        let limit = self.limit();
        for (i, c) in self.clients.iter_mut().enumerate() {
            match c.next(limit) {
                Ok(Some(m)) if m == b"reload" => (),
                Ok(Some(m)) => return Err(("message", format!("client {} gets {:?}", i, text(&m)))),
                Ok(None) => return Err(("no reload", format!("client {} gets no message after {}\n{}", i, what, self.d.log()))),
                Err(e) => return Err(("no reload", format!("client {}: {} after {}\n{}", i, e, what, self.d.log()))),
            }
        }
        Ok(())
    }

    /// The script which is put in a page.
    fn script_of_page(&self) -> Result<Option<String>, (&'static str, String)> {
        let path = format!("/{}", PAGE.replace(' ', "%20"));
        let r = dev::get(path.as_bytes()).map_err(|e| ("request", e))?;
        let t = text(&r.body);
        match t.split_once("<script").and_then(|(_, t)| t.split_once('>')).and_then(|(_, t)| t.split_once("</script>")) {
            Some((s, _)) => Ok(Some(s.to_string())),
            None => Err(("script", format!("there is no script in {}", t))),
        }
    }

    /// Opens the page in a browser.
    fn browse(&mut self) -> Result<Option<dev::Browser>, (&'static str, String)> {
        let Some(b) = self.script.as_ref().and_then(|(s, at)| dev::Browser::open(s, at)) else { return Ok(None) };
        if !b.says("open", self.limit()) {
            return Err(("page", format!("the script does not connect: {}\n{}", b.log(), self.d.log())));
        }
        std::thread::sleep(Duration::from_millis(5) * self.factor);
        if b.says("reload", Duration::from_millis(1)) {
            return Err(("page", "the page reloads without an edit".into()));
        }
        Ok(Some(b))
    }

    fn drain(&mut self) -> Fails {
        for c in self.clients.iter_mut() {
            loop {
                match c.next(Duration::from_millis(2)) {
                    Ok(Some(m)) if m == b"reload" => (),
                    Ok(Some(m)) => return Err(("message", text(&m))),
                    Ok(None) => break,
                    Err(e) => return Err(("connection", e)),
                }
            }
        }
        Ok(())
    }
}

fn play(s: &Scenario, ctx: &mut Ctx, base: &Path, factor: u32, known: &mut bool) -> Fails {
    for x in ["project", "stage", "site", "abs out", "count", "hold"] {
        let p = base.join(x);
        if p.is_dir() {
            fs::remove_dir_all(p).unwrap();
        } else if p.exists() {
            fs::remove_file(p).unwrap();
        }
    }
    let dir = base.join("project");
    let stage = base.join("stage");
    fs::create_dir_all(&stage).unwrap();
    s.p.write(&dir);
    if dir.join("temp").exists() {
        fs::remove_dir_all(dir.join("temp")).unwrap();
    }
    let (count, hold) = (base.join("count"), base.join("hold"));
    fs::create_dir_all(dir.join("scripts")).unwrap();
    fs::create_dir_all(dir.join("temp2")).unwrap();
    let mut pre = format!("printf x >> '{}'\n", count.display());
    if let Some((n, t)) = &s.gen {
        match &s.input {
            None => pre.push_str(&format!("mkdir -p \"$STUART_TEMP_DIR\"\nprintf '%s' '{}' > \"$STUART_TEMP_DIR/{}\"\n", t, n)),
            Some(i) => {
                let i = dir.join(i);
                fs::create_dir_all(i.parent().unwrap()).unwrap();
                fs::write(&i, t).unwrap();
                pre.push_str(&format!("mkdir -p \"$STUART_TEMP_DIR\"\ncat '{}' > \"$STUART_TEMP_DIR/{}\"\n", i.display(), n));
            }
        }
    }
    fs::write(dir.join("scripts/onPreBuild.sh"), pre).unwrap();
    let mut post = format!("while [ -e '{}' ]; do sleep 0.01; done\n", hold.display());
    if let Some((t, _)) = &s.early {
        let staged = stage.join("early");
        fs::write(&staged, t).unwrap();
        // Instead of an editor, at just the right time.
        post.push_str(&format!("[ ! -e '{0}' ] || mv '{0}' '{1}'\n", staged.display(), dir.join("content/early.txt").display()));
    }
    fs::write(dir.join("scripts/onPostBuild.sh"), post).unwrap();
    let out = match s.args.iter().position(|a| a == "-o") {
        Some(i) => dir.join(&s.args[i + 1]),
        None => dir.join("dist"),
    };
    let a: Vec<&str> = s.args.iter().map(|s| s.as_str()).collect();
    let d = Dev::start(ctx, &s.cwd, &a, &Env::default()).map_err(|e| ("start", e))?;
    let mut r = Run { d, out, dir: &dir, stage: &stage, count, hold, factor, clients: vec![], n: 0, script: None };
    if s.early.is_some() {
        r.started(1, "an edit during the first build")?;
    }
    r.quiet()?;
    r.check(s.early.as_ref().map_or(&s.want, |e| &e.1), &Files::new(), "the start")?;
    if s.page.is_some() && matches!(s.want, Want::Ok(_)) {
        r.script = r.script_of_page()?.zip(s.page.clone());
    }
    for (i, act) in s.acts.iter().enumerate() {
        match act {
            Act::Connect => {
                let c = Ws::open().map_err(|e| ("connection", format!("{}\n{}", e, r.d.log())))?;
                r.clients.push(c);
                // The server answers before it knows the client.
                std::thread::sleep(Duration::from_millis(5) * factor);
            }
            Act::Disconnect(n) => {
                r.clients.remove(*n);
            }
            Act::Unrelated(n, b) => {
                Op::MoveIn(n.clone(), Files::from([(n.clone(), b.clone())]), BTreeSet::new()).apply(r.dir, r.stage, &mut r.n);
                r.quiet()?;
                r.drain()?;
            }
            Act::Edit(ops, want) => {
                let before = r.tree();
                let mut partial = before.clone();
                let mut page = None;
                for (k, op) in ops.iter().enumerate() {
                    let what = format!("act {}: {}", i, op.show());
                    let n = r.builds();
                    if k + 1 == ops.len() {
                        partial = r.tree();
                        r.drain()?;
                        if matches!(want, Want::Ok(_)) {
                            page = r.browse()?;
                        }
                    }
                    op.apply(r.dir, r.stage, &mut r.n);
                    r.started(n, &what)?;
                    if k + 1 < ops.len() {
                        r.quiet()?;
                        continue;
                    }
                    if let Want::Ok(w) = want {
                        if !r.clients.is_empty() {
                            r.reloaded(&what)?;
                            // What the browser would load now.
                            let t = r.tree();
                            if let Some(d) = diff(w, &t) {
                                if r.builds() == n + 1 {
                                    return Err(("reload", format!("{}: told to reload before the output is there: {}\n{}", what, d, r.d.log())));
                                }
                            }
                        }
                    }
                    if let Some(b) = page.take() {
                        let limit = r.limit();
                        if !b.says("reload", limit) {
                            return Err(("page", format!("{}: the page does not reload: {}\n{}", what, b.log(), r.d.log())));
                        }
                    }
                    r.quiet()?;
                    r.check(want, &partial, &what)?;
                }
                r.drain()?;
            }
            Act::Storm(op, want) => {
                let limit = fs::read_to_string("/proc/sys/fs/inotify/max_queued_events").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(16384u32);
                let n = r.builds();
                signal(r.d.pid(), "STOP");
                // These changes are the build's own as far as the server knows.
                use std::os::unix::fs::PermissionsExt;
                let f = r.dir.join("metadata.json");
                for _ in 0..limit.min(50_000) / 2 + 100 {
                    drop(fs::OpenOptions::new().append(true).create(true).open(&f).unwrap());
                    fs::set_permissions(&f, fs::Permissions::from_mode(0o644)).unwrap();
                }
                op.apply(r.dir, r.stage, &mut r.n);
                signal(r.d.pid(), "CONT");
                let what = format!("act {}: {} among many changes", i, op.show());
                r.started(n, &what)?;
                r.quiet()?;
                r.check(want, &Files::new(), &what)?;
                r.drain()?;
            }
            Act::During(a, b, want) => {
                let n = r.builds();
                fs::write(&r.hold, "").unwrap();
                a.apply(r.dir, r.stage, &mut r.n);
                r.started(n, "an edit")?;
                std::thread::sleep(Duration::from_millis(150) * factor);
                b.apply(r.dir, r.stage, &mut r.n);
                std::thread::sleep(Duration::from_millis(50) * factor);
                fs::remove_file(&r.hold).unwrap();
                r.quiet()?;
                let Want::Ok(w) = want else { continue };
                if diff(w, &r.tree()).is_some() {
                    *known = true;
                    // The next edit is not lost.
                    let n = r.builds();
                    Op::MoveIn("content/during 1.txt".into(), Files::from([("content/during 1.txt".into(), w["during 1.txt"].clone())]), BTreeSet::new())
                        .apply(r.dir, r.stage, &mut r.n);
                    r.started(n, "an edit after one during a build")?;
                    r.quiet()?;
                }
                r.check(want, &Files::new(), "edits during a build")?;
                r.drain()?;
            }
        }
    }
    // And then there is nothing to do.
    let n = r.builds();
    std::thread::sleep(Duration::from_millis(250));
    if r.builds() > n + 1 {
        return Err(("loop", format!("{} builds without an edit\n{}", r.builds() - n, r.d.log())));
    }
    r.alive()
}

pub fn c23(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let base = ctx.fresh();
    let base = base.canonicalize().unwrap();
    let dir = base.join("project");
    let Some(s) = scenario(src, &dir, &base) else {
        o.class("discarded");
        return o;
    };
    let mut shown = s.p.show();
    shown["(command)"] = json!(s.args);
    shown["(cwd)"] = json!(s.cwd.strip_prefix(&base).map(|p| p.display().to_string()).unwrap_or_default());
    shown["(early)"] = json!(s.early.as_ref().map(|e| &e.0));
    shown["(open)"] = json!(s.page);
    shown["(acts)"] = s
        .acts
        .iter()
        .map(|a| match a {
            Act::Edit(ops, w) => format!(
                "{}{}",
                ops.iter().map(|o| o.show()).collect::<Vec<_>>().join(", then "),
                match w {
                    Want::Ok(_) => "",
                    _ => " (fails)",
                }
            ),
            Act::During(a, b, _) => format!("{}, and while that is built {}", a.show(), b.show()),
            Act::Unrelated(n, _) => format!("replace {}", n),
            Act::Storm(op, _) => format!("{} among more changes than can be kept track of", op.show()),
            a => format!("{:?}", a),
        })
        .collect();
    o.hash = fnv(s.p.hash(), shown["(acts)"].to_string().as_bytes());
    o.show = shown;
    o.nontrivial = s.acts.iter().any(|a| matches!(a, Act::Edit(_, Want::Ok(_)) | Act::During(..) | Act::Storm(..)));
    let edits = s.acts.iter().filter(|a| matches!(a, Act::Edit(..))).count();
    o.class_if(edits > 2, "three edits or more");
    o.class_if(s.acts.iter().any(|a| matches!(a, Act::Edit(_, Want::Fail(..)))), "a failing edit");
    o.class_if(
        s.acts.windows(2).any(|a| matches!(&a[0], Act::Edit(_, Want::Fail(..))) && matches!(&a[1], Act::Edit(_, Want::Ok(_)))),
        "a repair",
    );
    o.class_if(matches!(s.want, Want::Fail(..)), "fails at the start");
    o.class_if(s.early.is_some(), "an edit during the first build");
    o.class_if(s.acts.iter().any(|a| matches!(a, Act::Connect)), "browsers");
    o.class_if(s.acts.iter().any(|a| matches!(a, Act::Disconnect(_))), "a browser leaves");
    o.class_if(s.args.iter().any(|a| a == "-o"), "other output");
    o.class_if(s.page.is_some() && matches!(s.want, Want::Ok(_)), "a page is open");
    o.class_if(s.gen.is_some(), "a script writes files");
    o.class_if(s.acts.iter().any(|a| matches!(a, Act::During(..))), "an edit during a build");
    o.class_if(s.acts.iter().any(|a| matches!(a, Act::Storm(..))), "more changes than can be kept track of");
    let mut last = None;
    for factor in [1, 4, 12] {
        let mut known = false;
        match play(&s, ctx, &base, factor, &mut known) {
            Ok(()) => {
                if known {
                    o.known.push("edit-during-build");
                }
                return o;
            }
            Err(e) => last = Some(e),
        }
        o.class("tried again");
    }
    let (k, d) = last.unwrap();
    o.fail(k, d);
    o
}
