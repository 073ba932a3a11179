//! C28: a build depends on nothing but the project: not on where it lies, when and by whom it is built, nor on what is around it.

use crate::cli::{self, Env, Ran};
use crate::engine::*;
use crate::gen;
use crate::proj::*;
use crate::site::*;
use crate::tgen::*;
use serde_json::json;
use std::fs;
use std::path::{Path, PathBuf};

const PLACES: &[&str] = &["p", "project", "a b", "é", "content", "dist", "x/y/z", "static/content", "temp", ".hidden", "index.html", "name.md", "root.html/md.html", "%20", "{{ $a }}", "stuart.toml"];

/// The names in every directory, in the order in which they are listed.
fn listing(dir: &Path, prefix: &str, out: &mut Vec<String>) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = format!("{}{}", prefix, e.file_name().to_string_lossy());
        let sub = e.path().is_dir();
        out.push(n.clone());
        if sub {
            listing(&e.path(), &format!("{}/", n), out);
        }
    }
}

struct Way {
    place: String,
    from_inside: bool,
    output: Option<String>,
    command: &'static str,
    env: Env,
    said: String,
}

fn way(src: &mut Src, ctx: &Ctx, tag: &str, bench: bool) -> Way {
    let place = format!("{}/{}", tag, src.pick(PLACES));
    let command = if bench && src.chance(1, 4) { "bench" } else { "build" };
    let from_inside = command == "bench" || src.coin();
    let output = (command == "build" && src.chance(1, 3)).then(|| src.pick(&["out", "_site", "a b", "docs", "../elsewhere", "public.html"]).to_string());
    let mut env = Env::default();
    match src.below(4) {
        0 | 1 => env.home = Some(ctx.work.join("nobody's home")),
        2 => {
            // Somebody's, with the settings that people have.
            let home = ctx.work.join("somebody's home");
            let files = Files::from([
                (".gitconfig".to_string(), b"[user]\nname = Somebody\nemail = some@body.example\n".to_vec()),
                ("stuart.toml".to_string(), cli::manifest("of the home", "save_metadata = false\nstrip_extensions = false\n")),
                (".config/stuart.toml".to_string(), cli::manifest("of the home", "save_data_files = true\n")),
                (".config/stuart/config.toml".to_string(), b"[settings]\nsave_data_files = true\n".to_vec()),
            ]);
            write_files(&home, &files);
            env.home = Some(home);
        }
        _ => (),
    }
    for (k, vs) in [
        ("TZ", &["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "nowhere"][..]),
        ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.UTF-8"]),
        ("LC_ALL", &["C", "POSIX", "tr_TR.UTF-8"]),
        ("NO_COLOR", &["1"]),
        ("RUST_BACKTRACE", &["0", "1"]),
        ("CI", &["true"]),
        ("TMPDIR", &["/nonexistent"]),
        ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
        ("USER", &["root", "someone"]),
        ("STUART_ENV", &["production", "staging"]),
        ("COLUMNS", &["20", "0"]),
        ("PWD", &["/", "/nonexistent"]),
    ] {
        if src.chance(1, 4) {
            env = env.with(k, src.pick(vs));
        }
    }
    if src.coin() {
        // At another time.
        let s = match src.below(3) {
            0 => src.range(-3, 3) * 3600 + 60,
            1 => src.range(1, 400) * 86400,
            _ => -src.range(1, 12_000) * 86400 - src.range(0, 86400),
        };
        let lib = ctx.aux.as_ref().expect("--aux").join("libvhclock.so");
        env = env.with("VH_CLOCK", &s.to_string()).with("LD_PRELOAD", lib.to_str().unwrap());
    }
    let said = format!("{} in {}{}, -o {:?}, environment {:?}", command, place, if from_inside { "" } else { " (from outside)" }, output, env.set);
    Way { place, from_inside, output, command, env, said }
}

struct Result {
    ran: Ran,
    out: Files,
    meta: Option<Vec<u8>>,
    order: Vec<String>,
}

fn build(ctx: &Ctx, base: &Path, files: &Files, dirs: &[String], w: &Way, seed: u64, times: Option<u64>) -> Result {
    let dir: PathBuf = base.join(&w.place);
    fs::create_dir_all(&dir).unwrap();
    write_files_in_order(&dir, files, seed);
    fs::create_dir_all(dir.join("content")).unwrap();
    for d in dirs {
        fs::create_dir_all(dir.join(d)).unwrap();
    }
    if let Some(t) = times {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(t);
        for f in files.keys() {
            fs::File::options().append(true).open(dir.join(f)).and_then(|f| f.set_modified(t)).ok();
        }
    }
    let mut order = vec![];
    listing(&dir, "", &mut order);
    let manifest;
    let (cwd, mut args) = if w.from_inside {
        (dir.clone(), vec![w.command])
    } else {
        manifest = format!("--manifest-path={}/stuart.toml", w.place);
        (base.to_path_buf(), vec![w.command, &manifest])
    };
    if let Some(o) = &w.output {
        args.extend(["-o", o]);
    }
    if w.command == "bench" {
        args.extend(["-i", "2"]);
    }
    let ran = cli::stuart(ctx, &cwd, &args, &w.env);
    let out = dir.join(w.output.as_deref().unwrap_or("dist"));
    Result { ran, out: read_tree(&out, true), meta: fs::read(dir.join("metadata.json")).ok(), order }
}

pub fn c28(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let temp;
    let (files, dirs) = if src.coin() {
        let p = gen_proj(src, &PW { max_files: 4 + src.size / 2, clash: 3, bad: 3, ..PW::default() });
        temp = !p.temp.is_empty();
        (p.files(), p.dirs.iter().cloned().collect::<Vec<_>>())
    } else {
        // Loops, data and Markdown.
        temp = false;
        o.class("site");
        let w = W { wrong: 2, md_files: 6, pages: 2, ..W::default() };
        let site = gen_site(src, &w);
        let mut f = Files::new();
        for (k, b) in &site.bytes {
            f.insert(format!("content/{}", k), b.clone());
        }
        let settings = format!("save_metadata = {}\nsave_data_files = {}\nstrip_extensions = {}\n", src.chance(4, 5), src.coin(), src.coin());
        f.insert("stuart.toml".into(), cli::manifest("site", &settings));
        for i in 0..src.usize(0, 3) {
            f.insert(format!("static/{}{}.txt", gen::word(src), i), gen::mark(src).into_bytes());
        }
        if src.chance(1, 3) {
            o.class("dates");
            let (mut dates, mut page) = (vec![], String::from("{{ import($d, \"zz/d.json\") }}{{ begin(\"b\") }}"));
            for i in 0..src.usize(1, 4) {
                dates.push(if src.chance(1, 5) { super::text::undated(src) } else { super::text::date(src).0 });
                page.push_str(&format!("{{{{ dateformat($d.{}, \"{}\") }}}} ", i, src.pick(&["%c", "%F", "%Y-%m-%d %H:%M:%S", "%s", "%T", "%j %A"])));
            }
            page.push_str("{{ end(\"b\") }}");
            f.insert("content/zz/d.json".into(), json!(dates).to_string().into_bytes());
            f.insert("content/zz/root.html".into(), b"{{ insert(\"b\") }}".to_vec());
            f.insert("content/zz/index.html".into(), page.into_bytes());
        }
        (f, vec![])
    };
    let base = ctx.fresh();
    fs::create_dir_all(&base).unwrap();
    let ways: Vec<Way> = (0..2).map(|i| way(src, ctx, ["one", "two"][i], !temp)).collect();
    if src.chance(1, 4) {
        // Things around the projects.
        let around = Files::from([
            ("stuart.toml".to_string(), cli::manifest("another", "save_metadata = true\nstrip_extensions = false\n")),
            ("one/content/root.html".into(), b"around".to_vec()),
            ("two/root.html".into(), b"around".to_vec()),
            ("two/scripts/onPreBuild.sh".into(), b"exit 1".to_vec()),
            ("one/static/around.txt".into(), b"around".to_vec()),
        ]);
        for (k, b) in around {
            let p = base.join(&k);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            if !ways.iter().any(|w| format!("{}/", k).starts_with(&format!("{}/", w.place)) || format!("{}/", w.place).starts_with(&format!("{}/", k))) {
                fs::write(p, b).unwrap();
            }
        }
        o.class("surrounded");
    }
    o.show = json!({ "files": show_files(&files), "ways": ways.iter().map(|w| w.said.clone()).collect::<Vec<_>>() });
    o.hash = fnv(hash_files(&files), o.show.to_string().as_bytes());
    // The root of the output may be inside the project, but must not replace parts of it.
    let seed = hash_files(&files);
    let a = build(ctx, &base, &files, &dirs, &ways[0], seed, None);
    let old = src.chance(1, 2).then(|| src.range(0, 1_800_000_000) as u64);
    let b = build(ctx, &base, &files, &dirs, &ways[1], seed, old);
    let said = || format!("{}\n{}", ways[0].said, ways[1].said);
    for r in [&a, &b] {
        if r.ran.crashed() {
            o.fail("crash", format!("{}\n{}", said(), r.ran.describe()));
            return o;
        }
    }
    if a.ran.ok() != b.ran.ok() {
        o.fail("success depends on the circumstances", format!("{}\n{}\nand\n{}", said(), a.ran.describe(), b.ran.describe()));
        return o;
    }
    if !a.ran.ok() {
        o.class("fails");
        return o;
    }
    if a.order != b.order {
        // Loops which are not sorted follow the order of the file system.
        o.class("listed differently");
        return o;
    }
    o.nontrivial = true;
    o.class_if(a.meta.is_some(), "metadata");
    o.class_if(ways.iter().any(|w| w.env.set.iter().any(|(k, _)| k == "VH_CLOCK")), "at another time");
    o.class_if(ways.iter().any(|w| w.command == "bench"), "benchmark");
    if let Some(d) = diff(&a.out, &b.out) {
        o.fail("the output depends on the circumstances", format!("{}\n{}", said(), d));
    } else if a.meta != b.meta {
        let t = |m: &Option<Vec<u8>>| m.as_ref().map(|m| clip(&text(m), 2000));
        o.fail("the metadata depends on the circumstances", format!("{}\n{:?}\nand\n{:?}", said(), t(&a.meta), t(&b.meta)));
    }
    o
}
