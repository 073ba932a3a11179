//! C29: the builder of the library does what it says in whatever order it is used.

use super::layout;
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use serde_json::{json, Value as J};
use std::fs;
use stuart_core::{Config, Error, Node, Stuart};

fn name(e: &Error) -> &'static str {
    match e {
        Error::NotBuilt => "NotBuilt",
        Error::MetadataNotEnabled => "MetadataNotEnabled",
        Error::Fs(_) => "Fs",
        Error::Parse(_) => "Parse",
        Error::Process(_) => "Process",
        Error::Plugin(_) => "Plugin",
    }
}

/// What the builder holds.
enum State {
    NotBuilt,
    /// The project as it was built, with what has been merged, and its configuration.
    Built(Proj),
    /// After a failure, which of two it holds is left open.
    Open,
}

fn config(p: &Proj) -> Config {
    let d = Config::default();
    Config {
        name: p.name.clone(),
        author: p.author.clone(),
        strip_extensions: p.strip.unwrap_or(d.strip_extensions),
        save_data_files: p.json.unwrap_or(d.save_data_files),
        save_metadata: p.meta.unwrap_or(d.save_metadata),
    }
}

/// A page which depends on the environment.
fn show_env(p: &mut Proj, w: &PW, src: &mut Src) {
    if src.coin() {
        let d = *src.pick(&["", "a", "env"]);
        add_content(p, join(d, "shown.html"), Cf::Env, w, src);
    }
}

pub fn c29(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let w = PW { max_files: 6, clash: 3, bad: 4, ..PW::default() };
    let first = gen_proj(src, &w);
    let base = ctx.fresh();
    let dir = base.join("project");
    // What is on the disk, without what is to be merged.
    let mut disk = Proj { stat: Files::new(), temp: Files::new(), ..first.clone() };
    disk.dirs.retain(|d| d.starts_with("content"));
    show_env(&mut disk, &w, src);
    disk.write(&dir);
    let mut log: Vec<String> = vec![];
    let mut shown: Vec<J> = vec![show_files(&disk.files())];
    // The directory may be written in several ways.
    let here = src.chance(1, 6);
    let content = dir.join("content");
    let path = match here {
        true => std::path::PathBuf::from(*src.pick(&[".", "./", "../content", "./."])),
        false => dir.join(src.pick(&["content", "content", "content/", "./content/.", "content/../content", "../project/content//"])),
    };
    if here {
        o.class("from the working directory");
        fs::create_dir_all(&content).unwrap();
        std::env::set_current_dir(&content).unwrap();
    }
    shown.push(json!({ "content": path.display().to_string() }));
    let mut s = Stuart::new(path).with_config(config(&disk));
    let mut state = State::NotBuilt;
    let mut broken = false;
    let mut outs: Vec<usize> = vec![];
    let mut saves = 0;
    let mut fresh = 0;
    let n = src.usize(3, 6 + src.size);
    for _ in 0..n {
        match src.weighted(&[30, 26, 14, 14, 10, 8]) {
            0 => {
                disk.env = match src.below(3) {
                    0 => "production".into(),
                    1 => "development".into(),
                    _ => gen::mark(src),
                };
                log.push(format!("build for {}", disk.env));
                let want = disk.want();
                let r = guard(|| s.build(disk.env.clone()));
                match (&want, r) {
                    (_, Err(p)) => o.fail("panic", p),
                    (_, Ok(Ok(()))) if broken => o.fail("accepted", "the build succeeds although a page is broken"),
                    (_, Ok(Err(_))) if broken => {
                        o.class("broken content");
                        // What was built before may remain; nothing was built if nothing was.
                        if !matches!(state, State::NotBuilt) {
                            state = State::Open;
                        }
                    }
                    (Want::Unspecified, _) => state = State::Open,
                    // Conflicts are found on saving.
                    (Want::Fail(true, _), Ok(Err(_))) => state = State::Open,
                    (Want::Fail(true, why), Ok(Ok(()))) => o.fail("accepted", format!("the build succeeds although {}", why)),
                    (_, Ok(Err(e))) => o.fail("rejected", format!("{:?}", e)),
                    (_, Ok(Ok(()))) => state = State::Built(disk.clone()),
                }
            }
            1 => {
                // An output directory, new or old.
                let i = src.usize(0, 2);
                log.push(format!("save to {}", i));
                let out = base.join(format!("out{}", i));
                let before = read_tree(&out, true);
                let r = guard(|| s.save(&out));
                match (&state, r) {
                    (_, Err(p)) => o.fail("panic", p),
                    (State::NotBuilt, Ok(Err(Error::NotBuilt))) => {
                        if let Some(d) = diff(&before, &read_tree(&out, true)) {
                            o.fail("touched", d);
                        }
                    }
                    (State::NotBuilt, Ok(r)) => o.fail("not built", format!("saving gives {:?}", r.map_err(|e| name(&e)))),
                    (State::Open, Ok(_)) => (),
                    (State::Built(p), Ok(r)) => match (p.want(), r) {
                        (Want::Unspecified, _) => (),
                        (Want::Fail(_, why), Ok(())) => o.fail("accepted", format!("the output is saved although {}", why)),
                        (Want::Fail(..), Err(e)) => {
                            if !matches!(e, Error::Fs(_)) {
                                o.fail("wrong error", name(&e));
                            } else if let Some(d) = diff(&before, &read_tree(&out, true)) {
                                o.fail("lost output", d);
                            }
                        }
                        (Want::Ok(_), Err(e)) => o.fail("rejected", format!("{:?}", e)),
                        (Want::Ok(w), Ok(())) => {
                            if let Some(d) = diff(&w, &read_tree(&out, true)) {
                                o.fail("output", d);
                            }
                            saves += 1;
                            o.class_if(outs.contains(&i), "saved over an old output");
                            outs.push(i);
                        }
                    },
                }
            }
            2 => {
                log.push("save metadata".into());
                let f = base.join("m.json");
                fs::remove_file(&f).ok();
                let r = guard(|| s.save_metadata(&f));
                match (&state, r) {
                    (_, Err(p)) => o.fail("panic", p),
                    (_, Ok(r)) if !s.config.save_metadata => {
                        if !matches!(r, Err(Error::MetadataNotEnabled)) || f.exists() {
                            o.fail("not enabled", format!("saving metadata gives {:?}", r.map_err(|e| name(&e))));
                        }
                    }
                    (State::NotBuilt, Ok(r)) => {
                        if !matches!(r, Err(Error::NotBuilt)) || f.exists() {
                            o.fail("not built", format!("saving metadata gives {:?}", r.map_err(|e| name(&e))));
                        }
                    }
                    (State::Open, Ok(_)) => (),
                    (State::Built(_), Ok(Err(e))) => o.fail("rejected", format!("{:?}", e)),
                    (State::Built(p), Ok(Ok(()))) if !matches!(p.want(), Want::Ok(_)) => (),
                    (State::Built(p), Ok(Ok(()))) => {
                        let j: J = fs::read(&f).ok().and_then(|t| serde_json::from_slice(&t).ok()).unwrap_or(J::Null);
                        let mut errs = vec![];
                        layout::compare(&p.metadata(), &j["data"], "", &mut errs);
                        if j["name"].as_str() != Some(&p.name) || j["author"].as_str() != p.author.as_deref() {
                            errs.push(format!("name {} and author {}", j["name"], j["author"]));
                        }
                        if !errs.is_empty() {
                            o.fail("metadata", format!("{}\n{}", errs.join("; "), clip(&j.to_string(), 2000)));
                        }
                        o.class("metadata");
                    }
                }
            }
            3 => {
                // Merging a directory.
                let mut tree = Files::new();
                let mut all = Proj::default();
                for _ in 0..src.usize(0, 3) {
                    let d = src.pick(DIRS).to_string();
                    let (n, b) = asset(src, &d);
                    add_asset(&mut all, false, n, b, &w, src);
                }
                tree.extend(all.stat.clone());
                let from = base.join(format!("merge{}", fresh));
                fresh += 1;
                fs::create_dir_all(&from).unwrap();
                write_files(&from, &tree);
                log.push(format!("merge {:?}", tree.keys().collect::<Vec<_>>()));
                shown.push(show_files(&tree));
                let r = guard(|| Node::new(&from, false).and_then(|n| s.merge_output(n)));
                match (&mut state, r) {
                    (_, Err(p)) => o.fail("panic", p),
                    (State::NotBuilt, Ok(Err(Error::NotBuilt))) => o.class("merged before it is built"),
                    (State::NotBuilt, Ok(r)) => o.fail("not built", format!("merging gives {:?}", r.map_err(|e| name(&e)))),
                    (State::Open, _) => (),
                    (State::Built(p), Ok(r)) => {
                        // The trees themselves, before the settings apply.
                        let taken: Vec<String> = p.content.iter().map(|(k, c)| Proj::tree_name(k, c)).chain(p.stat.keys().cloned()).collect();
                        let dirs: Vec<String> = ["content", "static"].iter().flat_map(|d| p.part_dirs(d)).collect();
                        let clash = tree.keys().any(|k| {
                            taken.iter().any(|t| t == k || k.starts_with(&format!("{}/", t))) || dirs.iter().any(|d| d == k)
                        });
                        // The content itself may have a file and a directory of one name.
                        let open = taken.iter().any(|t| dirs.contains(t)) || (1..taken.len()).any(|i| taken[..i].contains(&taken[i]));
                        match r {
                            _ if open => state = State::Open,
                            Ok(()) if clash => o.fail("accepted", "two files of one name are merged"),
                            Err(Error::Fs(_)) if clash => {
                                o.class("conflict");
                                state = State::Open;
                            }
                            Err(e) => o.fail("rejected", format!("{:?}", e)),
                            Ok(()) => {
                                p.stat.extend(tree);
                                o.class("merged");
                            }
                        }
                    }
                }
            }
            4 => {
                // A page which cannot be built, in a directory of its own.
                broken = !broken;
                let d = content.join("broken by us");
                if broken {
                    fs::create_dir_all(&d).unwrap();
                    let (f, b) = *src.pick(&[
                        ("page.html", "{{ nosuch() }}"),
                        ("page.html", "{{ $no.where }}"),
                        ("page.html", "{{ begin(\"x\") }}"),
                        ("page.md", "---\ntitle\n---\n"),
                        ("page.md", "{{ $no.where }}"),
                        ("data.json", "{"),
                    ]);
                    fs::write(d.join(f), b).unwrap();
                    log.push(format!("break {}: {}", f, b));
                } else {
                    fs::remove_dir_all(&d).unwrap();
                    log.push("repair".into());
                }
            }
            _ => {
                // Other content.
                broken = false;
                let p = gen_proj(src, &w);
                fs::remove_dir_all(&dir).unwrap();
                disk = Proj { stat: Files::new(), temp: Files::new(), name: disk.name.clone(), author: disk.author.clone(), strip: disk.strip, json: disk.json, meta: disk.meta, ..p };
                disk.dirs.retain(|d| d.starts_with("content"));
                show_env(&mut disk, &w, src);
                disk.write(&dir);
                if here {
                    fs::create_dir_all(&content).unwrap();
                    std::env::set_current_dir(&content).unwrap();
                }
                shown.push(show_files(&disk.files()));
                log.push("edit".into());
            }
        }
        if o.fail.is_some() {
            break;
        }
    }
    std::env::set_current_dir("/").unwrap();
    o.show = json!({ "calls": log, "files": shown });
    o.hash = fnv(17, o.show.to_string().as_bytes());
    o.nontrivial = saves > 0 && log.len() > 2;
    o.class_if(saves > 1, "saved repeatedly");
    o
}
