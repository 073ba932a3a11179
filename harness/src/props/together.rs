//! C31: several builders in one process, or several commands on one machine, do not influence each other.

use super::layout;
use super::model::{compare, env};
use super::plugins;
use crate::ast::*;
use crate::cli::{self, Env};
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use crate::tgen::*;
use serde_json::{json, Value as J};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::Barrier;
use stuart_core::{Config, Node, Stuart};

enum Job {
    Proj(Proj),
    /// A site of templates, and what it should give.
    Site(Site, bool, Result<Expected, String>),
}

type Failure = (&'static str, String);

impl Job {
    fn write(&self, dir: &Path) {
        match self {
            Job::Proj(p) => p.write(dir),
            Job::Site(f, strip, _) => {
                write_files(&dir.join("content"), &f.bytes);
                fs::write(dir.join("stuart.toml"), cli::manifest("site", &format!("strip_extensions = {}\n", strip))).unwrap();
            }
        }
    }

    fn builder(&self, dir: &Path) -> Stuart {
        let s = Stuart::new(dir.join("content"));
        match self {
            Job::Proj(p) => s.with_config(Config {
                name: p.name.clone(),
                author: p.author.clone(),
                strip_extensions: p.strip.unwrap_or(true),
                save_data_files: p.json.unwrap_or(false),
                save_metadata: p.meta.unwrap_or(false),
            }),
            Job::Site(_, strip, _) => s.with_config(config(*strip)).with_plugins(vec![plugins::dump_plugin()]),
        }
    }

    /// Builds the project, as the command does.
    fn build(&self, s: &mut Stuart, dir: &Path) -> Result<(), String> {
        match self {
            Job::Proj(p) => {
                s.build(p.env.clone()).map_err(|e| format!("{:?}", e))?;
                for part in ["static", "temp"] {
                    if dir.join(part).is_dir() {
                        s.merge_output(Node::new(dir.join(part), false).map_err(|e| format!("{:?}", e))?).map_err(|e| format!("{:?}", e))?;
                    }
                }
                Ok(())
            }
            Job::Site(..) => s.build("production".into()).map_err(|e| format!("{:?}", e)),
        }
    }

    /// Whether this is what the project gives alone.
    fn check(&self, built: Result<(), String>, out: &Path, meta: Option<&Path>) -> Option<Failure> {
        match self {
            Job::Proj(p) => match (p.want(), built) {
                (Want::Unspecified, _) => None,
                (Want::Fail(_, why), Ok(())) => Some(("accepted", format!("{}, yet it builds", why))),
                (Want::Fail(..), Err(_)) => None,
                (Want::Ok(_), Err(e)) => Some(("rejected", e)),
                (Want::Ok(w), Ok(())) => {
                    if let Some(d) = diff(&w, &read_tree(out, true)) {
                        return Some(("output", d));
                    }
                    let m = meta.filter(|_| p.meta == Some(true))?;
                    let j: J = fs::read(m).ok().and_then(|t| serde_json::from_slice(&t).ok()).unwrap_or(J::Null);
                    let mut errs = vec![];
                    layout::compare(&p.metadata(), &j["data"], "", &mut errs);
                    if j["name"].as_str() != Some(&p.name) || j["author"].as_str() != p.author.as_deref() {
                        errs.push(format!("name {} and author {}", j["name"], j["author"]));
                    }
                    (!errs.is_empty()).then(|| ("metadata", errs.join("; ")))
                }
            },
            Job::Site(_, _, want) => match (want, built) {
                (Ok(_), Err(e)) => Some(("rejected", e)),
                (Err(e), Ok(())) => Some(("accepted", format!("{}, yet it builds", e))),
                (Err(_), Err(_)) => None,
                (Ok(e), Ok(())) => {
                    let mut o = Outcome::new();
                    compare(e, &read_tree(out, false), &mut o);
                    o.fail.map(|(_, d)| ("output", d))
                }
            },
        }
    }

    /// The whole of it with the library.
    fn run(&self, dir: &Path, out: &Path, times: usize) -> Option<Failure> {
        for _ in 0..times {
            let r = guard(|| {
                let mut s = self.builder(dir);
                self.build(&mut s, dir)?;
                s.save(out).map_err(|e| format!("{:?}", e))
            });
            let f = match r {
                Err(p) => Some(("panic", p)),
                Ok(r) => self.check(r, out, None),
            };
            if f.is_some() {
                return f;
            }
        }
        None
    }

    fn files(&self) -> Files {
        match self {
            Job::Proj(p) => p.files(),
            Job::Site(f, ..) => f.bytes.clone(),
        }
    }
}

/// The same project with other contents and settings.
fn vary(p: &Proj, commands: bool, src: &mut Src) -> Proj {
    let mut q = p.clone();
    q.name = gen::mark(src);
    if !commands {
        q.env = gen::mark(src);
    }
    for s in [&mut q.strip, &mut q.json, &mut q.meta] {
        if src.coin() {
            *s = Some(src.coin());
        }
    }
    for c in q.content.values_mut() {
        if src.chance(2, 3) {
            match c {
                Cf::Root(t) | Cf::MdRoot(t) => *t = wrap_text(src),
                Cf::Page(t) => *t = gen::mark(src),
                Cf::Md(f, t) => {
                    *f = front(src);
                    *t = gen::word(src);
                }
                Cf::Other(b) => *b = gen::mark(src).into_bytes(),
                Cf::Json(..) => {
                    if let Cf::Json(v, t) = data_with_v(src) {
                        *c = Cf::Json(v, t);
                    }
                }
                _ => (),
            }
        }
    }
    for b in q.stat.values_mut() {
        if src.coin() {
            *b = gen::mark(src).into_bytes();
        }
    }
    if src.chance(1, 3) {
        for t in ["root.html", "md.html"] {
            if src.coin() {
                q.content.remove(t);
            }
        }
    }
    q
}

fn job(src: &mut Src, commands: bool, before: &[Job]) -> Option<Job> {
    if !before.is_empty() && src.chance(2, 3) {
        match src.pick(before) {
            Job::Proj(p) => return Some(Job::Proj(vary(p, commands, src))),
            Job::Site(site, ..) => {
                // The same templates with other data.
                let mut site = site.clone();
                for (k, f) in site.files.iter_mut() {
                    if let File::Json(v) = f {
                        *v = gen::like(src, v);
                        site.bytes.insert(k.clone(), v.json(src).into_bytes());
                    }
                }
                return site_job(site);
            }
        }
    }
    if src.chance(2, 3) {
        let w = PW { max_files: 6, clash: 2, bad: 2, ..PW::default() };
        let mut p = gen_proj(src, &w);
        p.env = match src.coin() {
            _ if commands => "production".into(),
            true => "production".into(),
            false => gen::mark(src),
        };
        if src.coin() {
            add_content(&mut p, "shown.html".into(), Cf::Env, &w, src);
        }
        return Some(Job::Proj(p));
    }
    let w = W { wrong: 3, md_tags: true, md_files: 4, pages: 2, dump: if commands { 0 } else { 4 }, ..W::default() };
    site_job(gen_site(src, &w))
}

fn site_job(site: Site) -> Option<Job> {
    let e = expect(&site, &env(), Some(&plugins::dump_call));
    match e {
        Err(e) if e.contains("unspecified") || e.contains("model out of fuel") => None,
        e => Some(Job::Site(site, false, e.map_err(|e| e.to_string()))),
    }
}

pub fn c31(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let mode = src.weighted(&[40, 30, 12]);
    let n = src.usize(2, 4);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        match job(src, mode == 2, &jobs) {
            Some(j) => jobs.push(j),
            None => {
                o.class("discarded");
                return o;
            }
        }
    }
    let base = ctx.fresh();
    let dirs: Vec<PathBuf> = (0..n).map(|i| base.join(format!("p{}", i))).collect();
    for (j, d) in jobs.iter().zip(&dirs) {
        j.write(d);
        fs::create_dir_all(d.join("content")).unwrap();
    }
    let mut log: Vec<String> = vec![];
    let fail = |o: &mut Outcome, i: usize, f: Failure| o.fail(f.0, format!("project {}: {}", i, f.1));
    match mode {
        0 => {
            o.class("in turns");
            // Each is at one of: nothing, built, failed.
            let mut at: Vec<Option<Result<(), String>>> = jobs.iter().map(|_| None).collect();
            let mut builders: Vec<Stuart> = jobs.iter().zip(&dirs).map(|(j, d)| j.builder(d)).collect();
            let steps = src.usize(n, 4 * n + src.size / 2);
            for _ in 0..steps {
                let i = src.usize(0, n - 1);
                if at[i].is_none() || src.chance(1, 3) {
                    log.push(format!("build {}", i));
                    let b = &mut builders[i];
                    match guard(|| jobs[i].build(b, &dirs[i])) {
                        Err(p) => fail(&mut o, i, ("panic", p)),
                        Ok(r) => at[i] = Some(r),
                    }
                } else {
                    log.push(format!("save {}", i));
                    let (out, meta) = (dirs[i].join("out"), dirs[i].join("m.json"));
                    let b = &builders[i];
                    let built = at[i].clone().unwrap();
                    // What is in a builder that has failed is not specified.
                    let r = match built {
                        Err(_) => Ok(built),
                        Ok(()) => guard(|| {
                            b.save(&out).map_err(|e| format!("{:?}", e))?;
                            if b.config.save_metadata {
                                b.save_metadata(&meta).map_err(|e| format!("{:?}", e))?;
                            }
                            Ok(())
                        }),
                    };
                    match r {
                        Err(p) => fail(&mut o, i, ("panic", p)),
                        Ok(r) => {
                            if let Some(f) = jobs[i].check(r, &out, Some(&meta)) {
                                fail(&mut o, i, f);
                            }
                        }
                    }
                }
                if o.fail.is_some() {
                    break;
                }
            }
        }
        1 => {
            o.class("at the same time");
            let times = src.usize(1, 3);
            log.push(format!("each {} times", times));
            let gate = Barrier::new(n);
            let found: Vec<Option<Failure>> = std::thread::scope(|s| {
                let threads: Vec<_> = jobs
                    .iter()
                    .zip(&dirs)
                    .map(|(j, d)| {
                        let gate = &gate;
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn_scoped(s, move || {
                                gate.wait();
                                j.run(d, &d.join("out"), times)
                            })
                            .unwrap()
                    })
                    .collect();
                threads.into_iter().map(|t| t.join().unwrap()).collect()
            });
            for (i, f) in found.into_iter().enumerate() {
                if let Some(f) = f {
                    fail(&mut o, i, f);
                }
            }
        }
        _ => {
            o.class("commands");
            let env = Env::default();
            let ctx = &*ctx;
            let ran: Vec<cli::Ran> = std::thread::scope(|s| {
                let t: Vec<_> = dirs.iter().map(|d| s.spawn(|| cli::stuart(ctx, d, &["build"], &env))).collect();
                t.into_iter().map(|t| t.join().unwrap()).collect()
            });
            for (i, r) in ran.into_iter().enumerate() {
                if r.crashed() {
                    fail(&mut o, i, ("crash", r.describe()));
                    continue;
                }
                let built = if r.ok() { Ok(()) } else { Err(r.describe()) };
                if let Some(f) = jobs[i].check(built, &dirs[i].join("dist"), Some(&dirs[i].join("metadata.json"))) {
                    fail(&mut o, i, f);
                }
            }
        }
    }
    let shown: Vec<J> = jobs.iter().map(|j| show_files(&j.files())).collect();
    o.show = json!({ "calls": log, "projects": shown });
    o.hash = fnv(31, o.show.to_string().as_bytes());
    o.nontrivial = jobs.iter().filter(|j| matches!(j, Job::Proj(p) if matches!(p.want(), Want::Ok(_))) || matches!(j, Job::Site(_, _, Ok(_)))).count() > 1;
    o
}
