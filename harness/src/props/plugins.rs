//! C18: plugin functions and node parsers, with plugins of the harness's own.

use super::faults::{all_blocks, rewrite};
use super::model;
use crate::ast::*;
use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;
use crate::tgen::*;
use humphrey_json::Value;
use std::path::Path;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawArgument, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessError, ProcessOutput, Scope};
use stuart_core::{Environment, Stuart, TracebackError};

// ----------------------------------------------------------------- what a plugin looks like

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Does {
    /// Writes its arguments and the values of its variables.
    Print,
    Nothing,
    RejectWhenParsed,
    FailWhenExecuted,
}

#[derive(Clone, Debug)]
pub struct FnSpec {
    name: String,
    does: Does,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Node2 {
    Replace,
    Rename,
    Both,
    Keep,
    RejectWhenParsed,
    FailWhenProcessed,
}

#[derive(Clone, Debug)]
pub struct ParserSpec {
    id: String,
    extensions: Vec<&'static str>,
    does: Node2,
    /// Whether it has a metadata representation of its own.
    json: bool,
}

/// What a custom file says about itself in the metadata.
fn own_json(id: &str, contents: &[u8]) -> serde_json::Value {
    serde_json::json!({
        "type": format!("parsed by {}", id),
        "value": {"length": contents.len(), "list": [id, null, true, {"": "é\"\n"}]},
        "key of its own": text(contents),
    })
}

#[derive(Clone, Debug)]
pub struct PluginSpec {
    name: String,
    functions: Vec<FnSpec>,
    parsers: Vec<ParserSpec>,
}

pub fn canon_arg(a: &RawArgument) -> String {
    match a {
        RawArgument::Variable(v) => format!("var<{}>", v),
        RawArgument::String(s) => format!("str<{}>", s),
        RawArgument::Ident(i) => format!("ident<{}>", i),
        RawArgument::Integer(i) => format!("int<{}>", i),
    }
}

fn canon_model_arg(a: &Arg) -> String {
    match a {
        Arg::Var(v) => format!("var<{}>", v),
        Arg::Str(s) => format!("str<{}>", s),
        Arg::Ident(i) => format!("ident<{}>", i),
        Arg::Int(i) => format!("int<{}>", i),
    }
}

pub fn canon_value(v: &Value) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => n.to_string(),
        Value::String(s) => format!("{:?}", s),
        Value::Array(a) => format!("[{}]", a.iter().map(canon_value).collect::<Vec<_>>().join(",")),
        Value::Object(o) => {
            let mut o: Vec<String> = o.iter().map(|(k, v)| format!("{:?}:{}", k, canon_value(v))).collect();
            o.sort();
            format!("{{{}}}", o.join(","))
        }
    }
}

pub fn canon_val(v: &Val) -> String {
    match v {
        Val::Null => "null".into(),
        Val::Bool(b) => b.to_string(),
        Val::Num(n, _) => n.to_string(),
        Val::Str(s) => format!("{:?}", s),
        Val::Arr(a) => format!("[{}]", a.iter().map(canon_val).collect::<Vec<_>>().join(",")),
        Val::Obj(o) => {
            let mut o: Vec<String> = o.iter().map(|(k, v)| format!("{:?}:{}", k, canon_val(v))).collect();
            o.sort();
            format!("{{{}}}", o.join(","))
        }
    }
}

struct MockParser {
    plugin: String,
    spec: FnSpec,
}

#[derive(Debug)]
struct MockFunction {
    plugin: String,
    spec: FnSpec,
    called: String,
    args: Vec<String>,
    vars: Vec<String>,
}

impl FunctionParser for MockParser {
    fn name(&self) -> &str {
        &self.spec.name
    }

    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        if self.spec.does == Does::RejectWhenParsed {
            return Err(ParseError::InvalidArgument);
        }
        let mut args: Vec<String> = raw.positional_args.iter().map(canon_arg).collect();
        args.extend(raw.named_args.iter().map(|(k, v)| format!("{}={}", k, canon_arg(v))));
        let mut vars = vec![];
        for a in raw.positional_args.iter().chain(raw.named_args.iter().map(|(_, v)| v)) {
            if let RawArgument::Variable(v) = a {
                vars.push(v.clone());
            }
        }
        Ok(Box::new(MockFunction {
            plugin: self.plugin.clone(),
            spec: self.spec.clone(),
            called: raw.name.clone(),
            args,
            vars,
        }))
    }
}

impl Function for MockFunction {
    fn name(&self) -> &str {
        &self.spec.name
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let me = scope.tokens.current().unwrap().clone();
        match self.spec.does {
            Does::FailWhenExecuted => Err(me.traceback(ProcessError::NotFound("on purpose".into()))),
            Does::Nothing => Ok(()),
            _ => {
                let vars: Vec<String> = self
                    .vars
                    .iter()
                    .map(|v| match scope.get_variable(v) {
                        Some(v) => canon_value(&v),
                        None => "undefined".into(),
                    })
                    .collect();
                let t = printed(&self.plugin, &self.spec.name, &self.called, &self.args, &vars);
                scope.output(t).map_err(|e| me.traceback(e))
            }
        }
    }
}

fn printed(plugin: &str, name: &str, called: &str, args: &[String], vars: &[String]) -> String {
    format!("@{}/{} as {}({})[{}]@", plugin, name, called, args.join("; "), vars.join("; "))
}

struct MockNodeParser(ParserSpec);

struct MockNode {
    spec: ParserSpec,
    contents: Vec<u8>,
    name: String,
}

impl NodeParser for MockNodeParser {
    fn extensions(&self) -> Vec<&'static str> {
        self.0.extensions.clone()
    }

    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        if self.0.does == Node2::RejectWhenParsed {
            return Err("rejected on purpose".into());
        }
        Ok(Box::new(MockNode {
            spec: self.0.clone(),
            contents: contents.to_vec(),
            name: path.file_name().unwrap().to_string_lossy().into_owned(),
        }))
    }
}

fn new_contents(id: &str, name: &str, contents: &[u8], seen: &str) -> Vec<u8> {
    let mut v = format!("[{} parsed {} with {}]", id, name, seen).into_bytes();
    v.extend(contents.iter().rev());
    v
}

fn new_name(id: &str, name: &str) -> String {
    format!("{}-{}.out", name, id)
}

/// What a node processor is told: the environment, the templates in force and the whole content.
fn seen(processor: &Stuart, env: Environment) -> String {
    let vars: Vec<&str> = env.vars.iter().filter(|(k, _)| k == "STUART_ENV").map(|(_, v)| v.as_str()).collect();
    let at = |t: Option<&[stuart_core::parse::LocatableToken]>| match t {
        None => "none".to_string(),
        Some([]) => "empty".to_string(),
        Some([t, ..]) => t.path.strip_prefix(&processor.dir).unwrap_or(&t.path).to_string_lossy().into_owned(),
    };
    let listed = processor.input.as_ref().map(|n| n.children().unwrap_or_default().len()).unwrap_or(0);
    format!("{} {} {} {} {}", vars.join(","), at(env.root), at(env.md), processor.config.name, listed)
}

impl NodeProcessor for MockNode {
    fn process(&self, processor: &Stuart, env: Environment) -> Result<ProcessOutput, String> {
        let d = self.spec.does;
        if d == Node2::FailWhenProcessed {
            return Err("failed on purpose".into());
        }
        Ok(ProcessOutput {
            new_contents: matches!(d, Node2::Replace | Node2::Both)
                .then(|| new_contents(&self.spec.id, &self.name, &self.contents, &seen(processor, env))),
            new_name: matches!(d, Node2::Rename | Node2::Both).then(|| new_name(&self.spec.id, &self.name)),
        })
    }

    fn to_json(&self) -> Value {
        match self.spec.json {
            true => Value::parse(own_json(&self.spec.id, &self.contents).to_string()).unwrap(),
            false => Plain.to_json(),
        }
    }
}

/// A processor which leaves its metadata to Stuart.
struct Plain;

impl NodeProcessor for Plain {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        Ok(ProcessOutput::default())
    }
}

fn instantiate(specs: &[PluginSpec]) -> Vec<Plugin> {
    specs
        .iter()
        .map(|p| Plugin {
            name: p.name.clone(),
            version: "1.0.0".into(),
            functions: p
                .functions
                .iter()
                .map(|f| Box::new(MockParser { plugin: p.name.clone(), spec: f.clone() }) as Box<dyn FunctionParser>)
                .collect(),
            parsers: p.parsers.iter().map(|n| Box::new(MockNodeParser(n.clone())) as Box<dyn NodeParser>).collect(),
        })
        .collect()
}

// ------------------------------------------------------------------------------- whole values

/// A plugin with a function which prints its arguments in full, whatever they are.
pub fn dump_plugin() -> Plugin {
    Plugin { name: "check".into(), version: "1.0.0".into(), functions: vec![Box::new(DumpParser)], parsers: vec![] }
}

struct DumpParser;

#[derive(Debug)]
struct Dump(Vec<String>);

impl FunctionParser for DumpParser {
    fn name(&self) -> &str {
        "dump"
    }

    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        Ok(Box::new(Dump(raw.positional_args.iter().filter_map(|a| a.as_variable().map(String::from)).collect())))
    }
}

impl Function for Dump {
    fn name(&self) -> &str {
        "dump"
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let me = scope.tokens.current().unwrap().clone();
        let v: Vec<String> =
            self.0.iter().map(|v| scope.get_variable(v).map(|v| canon_value(&without_null(v))).unwrap_or("null".into())).collect();
        scope.output(format!("[{}]", v.join(","))).map_err(|e| me.traceback(e))
    }
}

/// Members which are null are as good as none.
fn without_null(v: Value) -> Value {
    match v {
        Value::Object(o) => {
            Value::Object(o.into_iter().filter(|(_, v)| *v != Value::Null).map(|(k, v)| (k, without_null(v))).collect())
        }
        Value::Array(a) => Value::Array(a.into_iter().map(without_null).collect()),
        v => v,
    }
}

fn val_without_null(v: Val) -> Val {
    match v {
        Val::Obj(o) => Val::Obj(
            o.into_iter().filter(|(_, v)| !matches!(v, Val::Null)).map(|(k, v)| (k, val_without_null(v))).collect(),
        ),
        Val::Arr(a) => Val::Arr(a.into_iter().map(val_without_null).collect()),
        v => v,
    }
}

pub fn dump_call(name: &str, pos: &[Arg], _: &[(String, Arg)], it: &mut Interp) -> Result<String, Bad> {
    if name != "dump" {
        return Err("unknown function".into());
    }
    let v: Vec<String> = pos
        .iter()
        .filter_map(|a| match a {
            Arg::Var(v) => Some(it.lookup(v).map(|v| canon_val(&val_without_null(v))).unwrap_or("null".into())),
            _ => None,
        })
        .collect();
    Ok(format!("[{}]", v.join(",")))
}

// ------------------------------------------------------------------------------- generation

pub const BUILTIN: &[&str] = &[
    "begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert", "timetoread", "ifeq",
    "ifne", "ifgt", "ifge", "iflt", "ifle",
];

/// Built-in functions which plugins may also define. The names of blocks are left out: a plugin function
/// of such a name is a known finding (see `block_name`).
const SHARED: &[&str] = &["import", "insert", "dateformat", "excerpt", "timetoread"];

const FN_NAMES: &[&str] = &["f", "g", "ff", "emit", "F", "é", "f_1", "1", "fo", "forx", "begins", "p", "end2"];
const EXTS: &[&str] = &["txt", "css", "toml", "x", "TXT", "é", "htm", "jsonc", "tx"];

fn specs(src: &mut Src) -> Vec<PluginSpec> {
    let n = src.usize(1, 3);
    let mut out: Vec<PluginSpec> = vec![];
    for i in 0..n {
        let name = src.pick(&["p", "q", "my_plugin", "f", "é", "P", "pq", "begin"]).to_string();
        let mut functions = vec![];
        for _ in 0..src.usize(0, 4) {
            // A plugin can't replace built-in functions.
            let name =
                if src.chance(1, 6) { src.pick(SHARED).to_string() } else { src.pick(FN_NAMES).to_string() };
            let does = match src.weighted(&[86, 8, 3, 3]) {
                0 => Does::Print,
                1 => Does::Nothing,
                2 => Does::RejectWhenParsed,
                _ => Does::FailWhenExecuted,
            };
            functions.push(FnSpec { name, does });
        }
        let mut parsers = vec![];
        for j in 0..src.usize(0, 2) {
            let k = src.usize(1, 2);
            let does = match src.weighted(&[30, 20, 30, 10, 2, 2]) {
                0 => Node2::Replace,
                1 => Node2::Rename,
                2 => Node2::Both,
                3 => Node2::Keep,
                4 => Node2::RejectWhenParsed,
                _ => Node2::FailWhenProcessed,
            };
            parsers.push(ParserSpec {
                id: format!("n{}{}", i, j),
                extensions: (0..k).map(|_| *src.pick(EXTS)).collect(),
                does,
                json: src.coin(),
            });
        }
        out.push(PluginSpec { name, functions, parsers });
    }
    out
}

fn resolve<'a>(specs: &'a [PluginSpec], name: &str) -> Option<(&'a PluginSpec, &'a FnSpec)> {
    for p in specs {
        for f in &p.functions {
            if name == f.name || name == format!("{}::{}", p.name, f.name) {
                return Some((p, f));
            }
        }
    }
    None
}

fn gen_arg(src: &mut Src) -> Arg {
    match src.weighted(&[40, 30, 20, 10]) {
        0 => Arg::Var(
            src.pick(&[
                "a", "b", "item", "x", "data", "self", "self.title", "a.0", "a.b", "item.title", "post.title", "data.0.a",
                "env.STUART_ENV", "env.VH_NOT_SET", "none", "x.1", "v_1", "é", "T", "data.list",
            ])
            .to_string(),
        ),
        1 => {
            let t: String = match src.below(3) {
                0 => gen::mark(src),
                1 => src.pick(&["", " ", "a, b", "a=b", ")", "(", "$x", "}}", "{{", "=", ",", "é😀", "\n", "  x ", "\\", "1"]).to_string(),
                _ => gen::text(src),
            };
            Arg::Str(t.replace(['"', '\r'], ""))
        }
        2 => Arg::Int(*src.pick(&[0, 1, -1, 7, 200, 2147483647, -2147483648])),
        _ => Arg::Ident(src.pick(BUILTIN).to_string()),
    }
}

/// Known finding: in a branch that is not taken, a plugin function which is named like a block is
/// mistaken for that block. True if it still is.
fn block_name(ctx: &mut Ctx) -> bool {
    let spec = PluginSpec {
        name: "p".into(),
        functions: vec![FnSpec { name: "begin".into(), does: Does::Print }],
        parsers: vec![],
    };
    let mut files = Files::new();
    files.insert("root.html".into(), b"{{ insert(\"a\") }}".to_vec());
    files.insert(
        "index.html".into(),
        b"{{ begin(\"a\") }}{{ ifeq(1, 2) }}{{ p::begin() }}{{ end(ifeq) }}fine{{ end(\"a\") }}".to_vec(),
    );
    let dir = ctx.fresh();
    write_files(&dir.join("content"), &files);
    let plugins = instantiate(&[spec]);
    match build_with(&dir.join("content"), &dir.join("out"), config(false), |s| s.with_plugins(plugins), None) {
        Built::Ok(f) => f.get("index.html").map(|b| b != b"fine").unwrap_or(true),
        _ => true,
    }
}

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    if ctx.counter == 0 && block_name(ctx) {
        o.known.push("plugin-function-named-like-a-block");
    }
    let specs = specs(src);
    let w = W { max_items: 4, depth: 3, md_files: 3, pages: 2, wrong: 0, import: 12, text: 20, ..W::default() };
    let mut site = gen_site(src, &w);
    let mut calls = 0;
    let mut paths: Vec<String> = vec![];
    let n = src.usize(0, 5);
    let avail: Vec<(String, String)> =
        specs.iter().flat_map(|p| p.functions.iter().map(|f| (p.name.clone(), f.name.clone()))).collect();
    for _ in 0..n {
        let name = if avail.is_empty() || src.chance(1, 25) {
            match src.below(3) {
                0 => "nosuch".to_string(),
                1 => format!("{}::nosuch", src.pick(&["p", "q", "begin"])),
                _ => format!("nosuch::{}", src.pick(FN_NAMES)),
            }
        } else {
            let (p, f) = src.pick(&avail).clone();
            // Built-in functions are only reached by their qualified name.
            if BUILTIN.contains(&f.as_str()) || src.coin() {
                format!("{}::{}", p, f)
            } else {
                f
            }
        };
        let pos = src.usize(0, 3);
        let pos: Vec<Arg> = (0..pos).map(|_| gen_arg(src)).collect();
        let named = src.usize(0, 3);
        let named: Vec<(String, Arg)> = (0..named)
            .map(|_| (src.pick(&["a", "limit", "x_1", "é", "A", "begin", "1"]).to_string(), gen_arg(src)))
            .collect();
        let mut total = 0usize;
        all_blocks(&mut site, &mut |_, b, _| total += b.len() + 1);
        let target = src.below(total as u64) as usize;
        let mut i = 0;
        let mut path = String::new();
        let node = Node::Call(name.clone(), pos.clone(), named.clone());
        all_blocks(&mut site, &mut |p, b, _| {
            if path.is_empty() && target <= i + b.len() {
                // Text must not join the tag.
                b.insert(target - i, node.clone());
                path = p.to_string();
            }
            i += b.len() + 1;
        });
        paths.push(path);
        calls += 1;
        o.class_if(name.contains("::"), "qualified names");
        o.class_if(!named.is_empty(), "named arguments");
    }
    paths.sort();
    paths.dedup();
    for p in &paths {
        rewrite(&mut site, p, src, w.style);
    }

    // Files for the node parsers.
    let mut files = site.bytes.clone();
    let mut custom = Files::new();
    let mut added = vec![];
    let site_name = src.pick(&["", "site", "é \"x\""]).to_string();
    let meta = src.coin();
    let mut failing: Option<String> = None;
    let m = src.usize(0, 4);
    let mut parsed = 0;
    for i in 0..m {
        let ext = *src.pick(EXTS);
        let name = match src.below(6) {
            0 => format!("c{}.min.{}", i, ext),
            1 => format!("c{}{}", i, ext),
            _ => format!("c{}.{}", i, ext),
        };
        let dir = src.pick(&["", "sub/", "posts/", "assets/x/"]).to_string();
        let contents: Vec<u8> = match src.below(3) {
            0 => gen::text(src).into_bytes(),
            1 => (0..src.usize(0, 20)).map(|_| src.below(256) as u8).collect(),
            _ => b"{{ nosuch() }} {{ begin(".to_vec(),
        };
        let e = name.rfind('.').map(|i| &name[i + 1..]);
        let by = specs.iter().flat_map(|p| &p.parsers).find(|p| e.map(|e| p.extensions.contains(&e)).unwrap_or(false));
        files.insert(format!("{}{}", dir, name), contents.clone());
        let mut out = name.clone();
        if let Some(p) = by {
            parsed += 1;
            match p.does {
                Node2::RejectWhenParsed | Node2::FailWhenProcessed => {
                    failing = Some(format!("{} is rejected by its parser", name))
                }
                Node2::Rename | Node2::Both => out = new_name(&p.id, &name),
                _ => (),
            }
        }
        added.push((dir, name, out, contents, by));
    }
    let mut listed: Vec<&str> = files.keys().map(|k| k.split('/').next().unwrap()).collect();
    listed.dedup();
    let mut about = vec![];
    for (dir, name, out, contents, by) in &added {
        let near = |t: &str| {
            let mut d = dir.as_str();
            loop {
                if files.contains_key(&format!("{}{}", d, t)) {
                    return format!("{}{}", d, t);
                }
                if d.is_empty() {
                    return "none".into();
                }
                d = d[..d.len() - 1].rfind('/').map(|i| &d[..i + 1]).unwrap_or("");
            }
        };
        let seen = format!("production {} {} {} {}", near("root.html"), near("md.html"), site_name, listed.len());
        let new = match by {
            Some(p) if matches!(p.does, Node2::Replace | Node2::Both) => new_contents(&p.id, name, contents, &seen),
            _ => contents.clone(),
        };
        custom.insert(format!("{}{}", dir, out), new);
        let mut json = match by {
            None => serde_json::json!({"type": "file"}),
            Some(p) if p.json => own_json(&p.id, contents),
            Some(_) => serde_json::json!({"type": "custom"}),
        };
        json["name"] = out.as_str().into();
        about.push((dir.clone(), json));
    }
    o.class_if(parsed > 0, "node parsers");
    o.nontrivial = calls + parsed > 0;
    o.hash = hash_files(&files) ^ fnv(0, format!("{:?}", specs).as_bytes());
    let mut show = show_files(&files);
    show["(plugins)"] = format!("{:?}", specs).into();
    o.show = show;

    // What the model expects.
    let sp = &specs;
    let call = move |name: &str, pos: &[Arg], named: &[(String, Arg)], it: &mut Interp| -> Result<String, Bad> {
        let (p, f) = resolve(sp, name).ok_or("unknown function")?;
        match f.does {
            Does::Nothing => Ok(String::new()),
            Does::Print => {
                let mut args: Vec<String> = pos.iter().map(canon_model_arg).collect();
                args.extend(named.iter().map(|(k, v)| format!("{}={}", k, canon_model_arg(v))));
                let mut vars = vec![];
                for a in pos.iter().chain(named.iter().map(|(_, v)| v)) {
                    if let Arg::Var(v) = a {
                        vars.push(match it.lookup(v) {
                            Some(v) => canon_val(&v),
                            None => "undefined".into(),
                        });
                    }
                }
                Ok(printed(&p.name, &f.name, name, &args, &vars))
            }
            d => Err(format!("{:?}", d)),
        }
    };
    let mut exp = expect(&site, &model::env(), Some(&call));
    // Unknown functions and rejected arguments fail wherever they are written.
    let mut bad = None;
    all_blocks(&mut site, &mut |_, b, _| {
        for n in b.iter() {
            if let Node::Call(name, ..) = n {
                match resolve(sp, name) {
                    None => bad = Some(format!("{} does not exist", name)),
                    Some((_, f)) if f.does == Does::RejectWhenParsed => bad = Some(format!("{} rejects", name)),
                    _ => (),
                }
            }
        }
    });
    if let Some(b) = bad.or(failing) {
        exp = Err(b);
    }
    if let Err(e) = &exp {
        if e.contains("unspecified") || e.contains("fuel") {
            o.class("discarded");
            o.nontrivial = false;
            return o;
        }
    }
    let dir = ctx.fresh();
    let content = dir.join("content");
    write_files(&content, &files);
    let plugins = instantiate(&specs);
    let config = stuart_core::Config { name: site_name, save_metadata: meta, ..config(false) };
    let built = build_with(&content, &dir.join("out"), config, |s| s.with_plugins(plugins), meta.then(|| dir.join("metadata.json")));
    if let (true, Built::Ok(_)) = (meta, &built) {
        o.class("metadata");
        let m = std::fs::read_to_string(dir.join("metadata.json")).unwrap_or_default();
        let m: serde_json::Value = serde_json::from_str(&m).unwrap_or_default();
        for (d, want) in &about {
            let mut at = &m["data"];
            for part in d.split('/').filter(|p| !p.is_empty()) {
                at = at
                    .as_array()
                    .and_then(|a| a.iter().find(|j| j["name"] == part && j["type"] == "directory"))
                    .map(|j| &j["children"])
                    .unwrap_or(&serde_json::Value::Null);
            }
            if !at.as_array().map(|a| a.iter().any(|j| super::layout::same(j, want))).unwrap_or(false) {
                o.fail("metadata", format!("{} is not in the metadata of {:?}: {}", want, d, clip(&at.to_string(), 2000)));
                return o;
            }
        }
    }
    match (exp, built) {
        (_, Built::Panic(p)) => o.fail("panic", p),
        (Ok(_), Built::Err(e)) => o.fail("rejected", format!("the build fails, but should succeed: {}", e)),
        (Err(e), Built::Ok(_)) => o.fail("accepted", format!("the build succeeds, but should fail: {}", e)),
        (Err(_), Built::Err(_)) => o.class("fails"),
        (Ok(e), Built::Ok(mut files)) => {
            o.class("builds");
            for (p, b) in &custom {
                match files.remove(p) {
                    None => o.fail("missing-file", format!("{} is not in the output: {:?}", p, files.keys())),
                    Some(x) if x != *b => {
                        o.fail("node", format!("{}:\n--- expected\n{}\n--- actual\n{}", p, text(b), text(&x)))
                    }
                    _ => (),
                }
            }
            model::compare(&e, &files, &mut o);
        }
    }
    o
}
