//! Writing projects to disk, building them in-process and reading back what was built.

use crate::engine::guard;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

pub type Files = BTreeMap<String, Vec<u8>>;

pub enum Built {
    Ok(Files),
    Err(String),
    Panic(String),
}

impl Built {
    pub fn describe(&self) -> String {
        match self {
            Built::Ok(f) => format!("built {} files", f.len()),
            Built::Err(e) => format!("failed: {}", clip(e, 600)),
            Built::Panic(e) => format!("panicked: {}", clip(e, 600)),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

pub fn write_files(dir: &Path, files: &Files) {
    // The order in which directories list their files may follow that of their creation.
    write_files_in_order(dir, files, hash_files(files))
}

/// Two files are always created in the same order under the same seed.
pub fn write_files_in_order(dir: &Path, files: &Files, seed: u64) {
    let mut order: Vec<(&String, &Vec<u8>)> = files.iter().collect();
    order.sort_by_key(|(p, _)| crate::engine::fnv(seed, p.as_bytes()));
    for (p, b) in order {
        let path = dir.join(p);
        fs::create_dir_all(path.parent().unwrap()).unwrap();
        fs::write(path, b).unwrap();
    }
}

/// Every file below the directory, and every directory (with a trailing slash) if asked for.
pub fn read_tree(dir: &Path, dirs: bool) -> Files {
    fn go(dir: &Path, prefix: &str, dirs: bool, out: &mut Files) {
        let mut entries: Vec<_> = match fs::read_dir(dir) {
            Ok(e) => e.map(|e| e.unwrap()).collect(),
            Err(_) => return,
        };
        entries.sort_by_key(|e| e.file_name());
        for e in entries {
            let name = format!("{}{}", prefix, e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                if dirs {
                    out.insert(format!("{}/", name), vec![]);
                }
                go(&e.path(), &format!("{}/", name), dirs, out);
            } else if t.is_file() {
                out.insert(name, fs::read(e.path()).unwrap());
            } else {
                out.insert(format!("{}@", name), vec![]);
            }
        }
    }
    let mut out = Files::new();
    go(dir, "", dirs, &mut out);
    out
}

pub fn config(strip: bool) -> stuart_core::Config {
    stuart_core::Config { strip_extensions: strip, ..Default::default() }
}

/// Builds the content directory and returns everything that was saved.
pub fn build(content: &Path, out: &Path, config: stuart_core::Config) -> Built {
    build_with(content, out, config, |s| s, None)
}

pub fn build_with(
    content: &Path,
    out: &Path,
    config: stuart_core::Config,
    f: impl FnOnce(stuart_core::Stuart) -> stuart_core::Stuart,
    metadata: Option<std::path::PathBuf>,
) -> Built {
    let r = guard(|| {
        let mut s = f(stuart_core::Stuart::new(content).with_config(config));
        match s.build("production".to_string()) {
            Ok(()) => {
                s.save(out).map_err(|e| format!("save: {:?}", e))?;
                match metadata {
                    Some(p) => s.save_metadata(p).map_err(|e| format!("save metadata: {:?}", e)),
                    None => Ok(()),
                }
            }
            Err(e) => Err(format!("{:?}", e)),
        }
    });
    match r {
        Ok(Ok(())) => Built::Ok(read_tree(out, false)),
        Ok(Err(e)) => Built::Err(e),
        Err(p) => Built::Panic(p),
    }
}

pub fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn show_files(f: &Files) -> serde_json::Value {
    serde_json::Value::Object(
        f.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(clip(&text(v), 20_000)))).collect(),
    )
}

pub fn hash_files(f: &Files) -> u64 {
    let mut h = 0;
    for (k, v) in f {
        h = crate::engine::fnv(h, k.as_bytes());
        h = crate::engine::fnv(h, &[0]);
        h = crate::engine::fnv(h, v);
    }
    h
}
