//! Templates as trees: how they are written, and what they mean (the reference model).
//! The model is independent of the code under test: it works on the tree, not on tokens.

use crate::engine::Src;
use crate::gen::Val;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Arg {
    Var(String),
    Str(String),
    Int(i32),
    Ident(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Gt,
    Ge,
    Lt,
    Le,
}

pub const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Gt, Op::Ge, Op::Lt, Op::Le];

impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Op::Eq => "ifeq",
            Op::Ne => "ifne",
            Op::Gt => "ifgt",
            Op::Ge => "ifge",
            Op::Lt => "iflt",
            Op::Le => "ifle",
        }
    }
}

#[derive(Clone, Debug)]
pub enum ForSrc {
    Json(String),
    Dir(String),
    Var(String),
}

#[derive(Clone, Debug, Default)]
pub struct ForArgs {
    pub skip: Option<i32>,
    pub limit: Option<i32>,
    /// The sort path, and whether it is written in the string form.
    pub sort: Option<(String, bool)>,
    pub desc: Option<bool>,
}

#[derive(Clone, Debug)]
pub enum Node {
    Text(String),
    Var(String),
    Import(String, String),
    Insert(String),
    Section(String, Vec<Node>),
    For(String, ForSrc, ForArgs, Vec<Node>),
    If(Op, Arg, Arg, Vec<Node>, Option<Vec<Node>>),
    IfDef(String, Vec<Node>, Option<Vec<Node>>),
    Ttr(String),
    Excerpt(String, i32),
    Date(String, String),
    /// Verbatim template source which makes the build fail when it is parsed (not just executed).
    BadParse(String),
    /// Verbatim template source which makes the build fail when it is executed.
    BadExec(String),
    /// A call of a plugin function with arbitrary arguments, rendered as given.
    Call(String, Vec<Arg>, Vec<(String, Arg)>),
    /// Output of the given pieces, produced by the model only.
    Nothing,
}

// ---------------------------------------------------------------------------------------------
// Writing templates

/// How freely tags are formatted.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Plain,
    Free,
    /// Like `Free`, but tags stay on one line.
    OneLine,
}

fn ws(src: &mut Src, style: Style, default: &str) -> String {
    match style {
        Style::Plain => default.to_string(),
        Style::Free => match src.weighted(&[70, 8, 6, 5, 4, 4, 3, 2]) {
            0 => default.to_string(),
            1 => String::new(),
            2 => " ".into(),
            3 => "\n".into(),
            4 => "\t ".into(),
            5 => "   ".into(),
            6 => "\r\n  ".into(),
            _ => src.pick(&["\u{a0}", "\u{2003}", "\u{3000} ", "\u{b}", "\u{c}", "\u{85}", "\u{2028}"]).to_string(),
        },
        Style::OneLine => match src.weighted(&[80, 8, 6, 6]) {
            0 => default.to_string(),
            1 => String::new(),
            2 => "   ".into(),
            _ => "\t".into(),
        },
    }
}

/// Encodes literal text: runs of braces are written as escapes, with the odd brace anywhere among them.
pub fn encode_text(t: &str, src: &mut Src) -> String {
    let mut out = String::new();
    let chars: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        if chars[i] == '{' {
            let mut n = 0;
            while i < chars.len() && chars[i] == '{' {
                n += 1;
                i += 1;
            }
            let escapes = n / 2;
            // A brace at the end of the text would belong to the tag after it.
            let slots = if i < chars.len() { escapes + 1 } else { escapes.max(1) };
            let odd = if n % 2 == 0 {
                usize::MAX
            } else if slots > 1 {
                src.usize(0, slots - 1)
            } else {
                0
            };
            for k in 0..=escapes {
                if k == odd {
                    out.push('{');
                }
                if k < escapes {
                    out.push_str("\\{{");
                }
            }
        } else {
            out.push(chars[i]);
            i += 1;
        }
    }
    out
}

/// Makes text safe to be placed directly before a tag or another text.
pub fn sealed(mut t: String) -> String {
    let braces = t.chars().rev().take_while(|c| *c == '{').count();
    if braces == 1 || t.ends_with('\\') {
        t.push('.');
    }
    t
}

fn arg(a: &Arg) -> String {
    match a {
        Arg::Var(v) => format!("${}", v),
        Arg::Str(s) => format!("\"{}\"", s),
        Arg::Int(i) => i.to_string(),
        Arg::Ident(i) => i.clone(),
    }
}

pub fn tag(src: &mut Src, style: Style, name: &str, args: &[String]) -> String {
    let mut s = String::from("{{");
    s += &ws(src, style, " ");
    s += name;
    s += &ws(src, style, "");
    s.push('(');
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            s.push(',');
            s += &ws(src, style, " ");
        } else {
            s += &ws(src, style, "");
        }
        s += a;
        s += &ws(src, style, "");
    }
    if args.is_empty() {
        s += &ws(src, style, "");
    }
    s.push(')');
    s += &ws(src, style, " ");
    s += "}}";
    s
}

pub fn write(nodes: &[Node], src: &mut Src, style: Style) -> String {
    let mut out = String::new();
    write_into(nodes, src, style, &mut out);
    out
}

fn write_into(nodes: &[Node], src: &mut Src, style: Style, out: &mut String) {
    for n in nodes {
        match n {
            Node::Text(t) => {
                let e = encode_text(t, src);
                out.push_str(&e);
            }
            Node::Var(v) => {
                out.push_str("{{");
                out.push_str(&ws(src, style, " "));
                out.push('$');
                out.push_str(v);
                out.push_str(&ws(src, style, " "));
                out.push_str("}}");
            }
            Node::Import(v, f) => {
                out.push_str(&tag(src, style, "import", &[format!("${}", v), format!("\"{}\"", f)]))
            }
            Node::Insert(l) => out.push_str(&tag(src, style, "insert", &[format!("\"{}\"", l)])),
            Node::Section(l, body) => {
                out.push_str(&tag(src, style, "begin", &[format!("\"{}\"", l)]));
                write_into(body, src, style, out);
                out.push_str(&tag(src, style, "end", &[format!("\"{}\"", l)]));
            }
            Node::For(v, s, a, body) => {
                let mut args = vec![
                    format!("${}", v),
                    match s {
                        ForSrc::Json(f) => format!("\"{}\"", f),
                        ForSrc::Dir(d) => format!("\"{}\"", d),
                        ForSrc::Var(x) => format!("${}", x),
                    },
                ];
                let mut named = vec![];
                if let Some(n) = a.skip {
                    named.push(format!("skip={}", n));
                }
                if let Some(n) = a.limit {
                    named.push(format!("limit={}", n));
                }
                if let Some((p, string)) = &a.sort {
                    named.push(if *string {
                        format!("sortby=\"{}\"", p)
                    } else if p.is_empty() {
                        format!("sortby=${}", v)
                    } else {
                        format!("sortby=${}.{}", v, p)
                    });
                }
                if let Some(d) = a.desc {
                    named.push(format!("order=\"{}\"", if d { "desc" } else { "asc" }));
                }
                src.shuffle(&mut named);
                args.extend(named);
                out.push_str(&tag(src, style, "for", &args));
                write_into(body, src, style, out);
                out.push_str(&tag(src, style, "end", &["for".into()]));
            }
            Node::If(op, a, b, t, e) => {
                out.push_str(&tag(src, style, op.name(), &[arg(a), arg(b)]));
                write_into(t, src, style, out);
                if let Some(e) = e {
                    out.push_str(&tag(src, style, "else", &[]));
                    write_into(e, src, style, out);
                }
                out.push_str(&tag(src, style, "end", &[op.name().into()]));
            }
            Node::IfDef(v, t, e) => {
                out.push_str(&tag(src, style, "ifdefined", &[format!("${}", v)]));
                write_into(t, src, style, out);
                if let Some(e) = e {
                    out.push_str(&tag(src, style, "else", &[]));
                    write_into(e, src, style, out);
                }
                out.push_str(&tag(src, style, "end", &["ifdefined".into()]));
            }
            Node::Ttr(v) => out.push_str(&tag(src, style, "timetoread", &[format!("${}", v)])),
            Node::Excerpt(v, n) => {
                out.push_str(&tag(src, style, "excerpt", &[format!("${}", v), n.to_string()]))
            }
            Node::Date(v, f) => {
                out.push_str(&tag(src, style, "dateformat", &[format!("${}", v), format!("\"{}\"", f)]))
            }
            Node::BadParse(s) | Node::BadExec(s) => out.push_str(s),
            Node::Call(n, p, named) => {
                let mut args: Vec<String> = p.iter().map(arg).collect();
                args.extend(named.iter().map(|(k, v)| format!("{}={}", k, arg(v))));
                out.push_str(&tag(src, style, n, &args));
            }
            Node::Nothing => (),
        }
    }
}

/// Makes every text in the tree safe in its position, and drops texts which can't be represented.
pub fn seal(nodes: &mut Vec<Node>) {
    // Adjacent texts are joined so that escapes never span two of them.
    let mut out: Vec<Node> = vec![];
    for mut n in nodes.drain(..) {
        match &mut n {
            Node::Section(_, b) => seal(b),
            Node::For(_, _, _, b) => seal(b),
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                seal(t);
                if let Some(e) = e {
                    seal(e);
                }
            }
            _ => (),
        }
        match (out.last_mut(), n) {
            (Some(Node::Text(a)), Node::Text(b)) => a.push_str(&b),
            (_, n) => out.push(n),
        }
    }
    for n in out.iter_mut() {
        if let Node::Text(t) = n {
            *t = sealed(std::mem::take(t));
        }
    }
    *nodes = out;
}

// ---------------------------------------------------------------------------------------------
// Meaning

/// Output, where a loop over an unsorted directory may render its items in any order.
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Text(String),
    /// Any `usize` of the given alternatives, each at most once, in any order.
    Any(usize, Vec<Vec<Piece>>),
}

pub type Pieces = Vec<Piece>;

pub fn push_text(out: &mut Pieces, t: &str) {
    if t.is_empty() {
        return;
    }
    match out.last_mut() {
        Some(Piece::Text(s)) => s.push_str(t),
        _ => out.push(Piece::Text(t.to_string())),
    }
}

pub fn append(out: &mut Pieces, more: &[Piece]) {
    for p in more {
        match p {
            Piece::Text(t) => push_text(out, t),
            p => out.push(p.clone()),
        }
    }
}

fn size(p: &[Piece]) -> u64 {
    p.iter()
        .map(|p| match p {
            Piece::Text(t) => t.len() as u64,
            Piece::Any(_, a) => a.iter().map(|a| size(a)).sum(),
        })
        .sum()
}

/// Whether the text could be the given output.
pub fn matches(pieces: &[Piece], text: &str) -> bool {
    use std::rc::Rc;
    #[derive(Clone)]
    enum Item<'a> {
        All(&'a [Piece]),
        /// So many of the alternatives, except those used.
        Some(usize, u64, &'a [Vec<Piece>]),
    }
    type Rest<'a> = Option<Rc<(Item<'a>, Link<'a>)>>;
    #[derive(Clone)]
    struct Link<'a>(Rest<'a>);
    fn cons<'a>(i: Item<'a>, r: &Rest<'a>) -> Rest<'a> {
        Some(Rc::new((i, Link(r.clone()))))
    }
    // What is left to try, instead of a recursion as deep as the output is long.
    let mut left: Vec<(Rest, &str)> = vec![(Some(Rc::new((Item::All(pieces), Link(None)))), text)];
    let mut fuel = 200_000u32;
    while let Some((mut rest, mut text)) = left.pop() {
        loop {
            let Some(node) = rest else {
                if text.is_empty() {
                    return true;
                }
                break;
            };
            let next = &node.1 .0;
            match node.0 {
                Item::All([]) | Item::Some(0, ..) => rest = next.clone(),
                Item::All([Piece::Text(t), more @ ..]) => match text.strip_prefix(t.as_str()) {
                    Some(x) => {
                        text = x;
                        rest = cons(Item::All(more), next);
                    }
                    None => break,
                },
                Item::All([Piece::Any(k, alts), more @ ..]) => {
                    rest = cons(Item::Some(*k, 0, alts), &cons(Item::All(more), next));
                }
                Item::Some(k, used, alts) => {
                    // Ambiguity out of hand: never a false alarm.
                    if alts.len() > 64 || fuel == 0 {
                        return true;
                    }
                    fuel -= 1;
                    let mut open: Vec<usize> = (0..alts.len()).filter(|i| used & (1 << i) == 0).collect();
                    open.retain(|i| match alts[*i].first() {
                        Some(Piece::Text(t)) => text.starts_with(t.as_str()),
                        _ => true,
                    });
                    let Some(last) = open.pop() else { break };
                    let then = |i: usize| cons(Item::All(&alts[i]), &cons(Item::Some(k - 1, used | 1 << i, alts), next));
                    left.extend(open.into_iter().map(|i| (then(i), text)));
                    rest = then(last);
                }
            }
        }
    }
    false
}

/// A readable rendering of expected output.
pub fn show(pieces: &[Piece]) -> String {
    pieces
        .iter()
        .map(|p| match p {
            Piece::Text(t) => t.clone(),
            Piece::Any(k, a) => {
                format!("⟨any {} of: {}⟩", k, a.iter().map(|x| show(x)).collect::<Vec<_>>().join(" | "))
            }
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Md {
    pub front: Vec<(String, String)>,
    pub body: Vec<Node>,
    /// The body as written (with LF line endings).
    pub source: String,
}

#[derive(Clone, Debug)]
pub enum File {
    Html(Vec<Node>),
    Md(Md),
    Json(Val),
    Other,
}

/// A site: content-relative paths to files, and the text or bytes of each.
#[derive(Clone, Debug, Default)]
pub struct Site {
    pub files: BTreeMap<String, File>,
    pub bytes: BTreeMap<String, Vec<u8>>,
}

/// Why the model says a build fails.
pub type Bad = String;

pub struct Interp<'a> {
    pub site: &'a Site,
    /// The HTML of each Markdown file, once known.
    pub html: BTreeMap<String, String>,
    pub env: Val,
    pub frames: Vec<Vec<(String, Val)>>,
    pub sections: Vec<(String, Pieces)>,
    pub fuel: u64,
    /// What plugin functions output.
    pub call: Option<&'a dyn Fn(&str, &[Arg], &[(String, Arg)], &mut Interp) -> Result<String, Bad>>,
}

pub fn md_options() -> pulldown_cmark::Options {
    pulldown_cmark::Options::all()
}

pub fn markdown(text: &str) -> String {
    let mut out = String::new();
    pulldown_cmark::html::push_html(&mut out, pulldown_cmark::Parser::new_ext(text, md_options()));
    out
}

fn dir_of(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}

pub fn base_of(p: &str) -> &str {
    p.rfind('/').map(|i| &p[i + 1..]).unwrap_or(p)
}

fn normal(p: &str) -> String {
    p.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/")
}

impl<'a> Interp<'a> {
    pub fn new(site: &'a Site, env: Val) -> Self {
        Interp {
            site,
            html: BTreeMap::new(),
            env,
            frames: vec![],
            sections: vec![],
            fuel: 20_000,
            call: None,
        }
    }

    pub fn lookup(&self, path: &str) -> Option<Val> {
        let (head, rest) = match path.find('.') {
            Some(i) => (&path[..i], &path[i + 1..]),
            None => (path, ""),
        };
        for f in self.frames.iter().rev() {
            if let Some((_, v)) = f.iter().find(|(n, _)| n == head) {
                return Some(v.path(rest).cloned().unwrap_or(Val::Null));
            }
        }
        None
    }

    pub fn md_value(&self, path: &str) -> Option<Val> {
        match self.site.files.get(path) {
            Some(File::Md(md)) => {
                let mut o: Vec<(String, Val)> = vec![];
                for (k, v) in &md.front {
                    if k != "content" && k != "markdown" {
                        o.push((k.clone(), Val::Str(v.clone())));
                    }
                }
                o.push((
                    "content".into(),
                    self.html.get(path).map(|h| Val::Str(h.clone())).unwrap_or(Val::Null),
                ));
                o.push(("markdown".into(), Val::Str(md.source.clone())));
                Some(Val::Obj(o))
            }
            _ => None,
        }
    }

    fn operand(&self, a: &Arg) -> Result<Val, Bad> {
        Ok(match a {
            Arg::Str(s) => Val::Str(s.clone()),
            Arg::Int(i) => Val::num(*i as f64),
            Arg::Ident(i) => return Err(format!("operand {}", i)),
            Arg::Var(v) => match self.lookup(v) {
                Some(x @ (Val::Str(_) | Val::Num(..))) => x,
                x => return Err(format!("operand ${} is {:?}", v, x)),
            },
        })
    }

    pub fn block(&mut self, nodes: &[Node]) -> Result<Pieces, Bad> {
        let mut out = vec![];
        for n in nodes {
            let cost = 1 + size(&out) / 500;
            self.fuel = self.fuel.checked_sub(cost).ok_or("model out of fuel")?;
            match n {
                Node::Text(t) => push_text(&mut out, t),
                Node::Var(v) => match self.lookup(v) {
                    Some(Val::Str(s)) => push_text(&mut out, &s),
                    x => return Err(format!("variable ${} is {:?}", v, x)),
                },
                Node::Import(v, f) => {
                    let val = match self.site.files.get(&normal(f)) {
                        Some(File::Json(j)) => j.clone(),
                        _ => return Err(format!("import of {}", f)),
                    };
                    let frame = self.frames.last_mut().unwrap();
                    if frame.iter().any(|(n, _)| n == v) {
                        return Err(format!("import redefines ${}", v));
                    }
                    frame.push((v.clone(), val));
                }
                Node::Insert(l) => match self.sections.iter().find(|(n, _)| n == l) {
                    Some((_, p)) => {
                        let p = p.clone();
                        append(&mut out, &p)
                    }
                    None => return Err(format!("section {} missing", l)),
                },
                Node::Section(l, body) => {
                    self.frames.push(vec![]);
                    let p = self.block(body)?;
                    self.frames.pop();
                    append(&mut out, &p);
                    self.sections.push((l.clone(), p));
                }
                Node::For(v, s, a, body) => {
                    let p = self.for_loop(v, s, a, body)?;
                    append(&mut out, &p);
                }
                Node::If(op, a, b, t, e) => {
                    let x = self.operand(a)?;
                    let y = self.operand(b)?;
                    let c = match (&x, &y) {
                        (Val::Num(x, _), Val::Num(y, _)) => match op {
                            Op::Eq => x == y,
                            Op::Ne => x != y,
                            Op::Gt => x > y,
                            Op::Ge => x >= y,
                            Op::Lt => x < y,
                            Op::Le => x <= y,
                        },
                        (Val::Str(x), Val::Str(y)) => match op {
                            Op::Eq => x == y,
                            Op::Ne => x != y,
                            // Only numbers have an order.
                            _ => false,
                        },
                        _ => match op {
                            Op::Eq => false,
                            Op::Ne => true,
                            _ => false,
                        },
                    };
                    self.branch(c, t, e, &mut out)?;
                }
                Node::IfDef(v, t, e) => {
                    let c = !matches!(self.lookup(v), None | Some(Val::Null));
                    self.branch(c, t, e, &mut out)?;
                }
                Node::Ttr(v) => match self.lookup(v) {
                    Some(Val::Str(s)) => {
                        push_text(&mut out, &(s.split_whitespace().count() / 200).max(1).to_string())
                    }
                    x => return Err(format!("timetoread of {:?}", x)),
                },
                Node::Excerpt(..) | Node::Date(..) => return Err("unspecified: not modelled".into()),
                Node::BadParse(s) => return Err(format!("malformed: {}", s)),
                Node::BadExec(s) => return Err(format!("fails: {}", s)),
                Node::Call(n, p, named) => {
                    let f = self.call.ok_or("no plugins")?;
                    let t = f(n, p, named, self)?;
                    push_text(&mut out, &t);
                }
                Node::Nothing => (),
            }
        }
        Ok(out)
    }

    fn branch(
        &mut self,
        c: bool,
        t: &[Node],
        e: &Option<Vec<Node>>,
        out: &mut Pieces,
    ) -> Result<(), Bad> {
        self.frames.push(vec![]);
        if c {
            let p = self.block(t)?;
            append(out, &p);
        } else if let Some(e) = e {
            let p = self.block(e)?;
            append(out, &p);
        }
        self.frames.pop();
        Ok(())
    }

    fn for_loop(&mut self, v: &str, s: &ForSrc, a: &ForArgs, body: &[Node]) -> Result<Pieces, Bad> {
        let mut unordered = false;
        let mut items: Vec<Val> = match s {
            ForSrc::Json(f) => match self.site.files.get(&normal(f)) {
                Some(File::Json(Val::Arr(a))) => a.clone(),
                _ => return Err(format!("for over {}", f)),
            },
            ForSrc::Dir(d) => {
                let d = normal(d);
                let exists = d.is_empty()
                    || self.site.files.keys().any(|k| k.starts_with(&format!("{}/", d)));
                if !exists {
                    return Err(format!("for over missing {}", d));
                }
                let ps: Vec<String> = self
                    .site
                    .files
                    .keys()
                    .filter(|k| dir_of(k) == d && k.ends_with(".md"))
                    .cloned()
                    .collect();
                unordered = ps.len() > 1;
                ps.iter().map(|p| self.md_value(p).unwrap()).collect()
            }
            ForSrc::Var(x) => match self.lookup(x) {
                Some(Val::Arr(a)) => a,
                x => return Err(format!("for over {:?}", x)),
            },
        };
        if let Some((p, _)) = &a.sort {
            let key = |i: &Val| match i.path(p) {
                Some(Val::Str(s)) => s.clone(),
                _ => String::new(),
            };
            if unordered {
                let mut ks: Vec<String> = items.iter().map(key).collect();
                ks.sort();
                ks.dedup();
                if ks.len() == items.len() {
                    unordered = false;
                }
            }
            items.sort_by(|x, y| key(x).as_bytes().cmp(key(y).as_bytes()));
        }
        if a.desc == Some(true) {
            items.reverse();
        }
        let total = items.len();
        let skip = (a.skip.unwrap_or(0).max(0) as usize).min(total);
        let count = (total - skip).min(a.limit.map(|l| l.max(0) as usize).unwrap_or(usize::MAX));

        if unordered && count > 0 {
            // Every item has to be rendered on its own: sections must not be defined in here.
            let mut alts = vec![];
            let before = self.sections.len();
            for i in items {
                self.frames.push(vec![(v.to_string(), i)]);
                let p = match self.block(body) {
                    // Whether that item is among the selected ones is open.
                    Err(_) if count < total => return Err("unspecified: an unordered loop may fail".into()),
                    p => p?,
                };
                self.frames.pop();
                alts.push(p);
            }
            if alts.iter().any(|a| a.iter().any(|p| matches!(p, Piece::Any(..)))) {
                return Err("unspecified: nested unordered loops".into());
            }
            if self.sections.len() != before {
                return Err("unspecified: section in an unordered loop".into());
            }
            return Ok(vec![Piece::Any(count, alts)]);
        }

        let mut out = vec![];
        for i in items.into_iter().skip(skip).take(count) {
            self.frames.push(vec![(v.to_string(), i)]);
            let p = self.block(body)?;
            self.frames.pop();
            append(&mut out, &p);
        }
        Ok(out)
    }
}

/// The expected output of the whole site: the pages by output path (before extension stripping).
pub struct Expected {
    pub pages: BTreeMap<String, Pieces>,
}

pub fn nearest<'a>(site: &'a Site, page: &str, name: &str) -> Option<&'a Vec<Node>> {
    let mut d = dir_of(page).to_string();
    loop {
        let p = if d.is_empty() { name.to_string() } else { format!("{}/{}", d, name) };
        if let Some(File::Html(t)) = site.files.get(&p) {
            return Some(t);
        }
        if d.is_empty() {
            return None;
        }
        d = dir_of(&d).to_string();
    }
}

pub type CallFn<'a> = &'a dyn Fn(&str, &[Arg], &[(String, Arg)], &mut Interp) -> Result<String, Bad>;

pub fn expect(site: &Site, env: &Val, call: Option<CallFn>) -> Result<Expected, Bad> {
    // Anything malformed fails, wherever it is.
    for (p, f) in &site.files {
        let nodes = match f {
            File::Html(n) => n,
            File::Md(m) => &m.body,
            _ => continue,
        };
        if let Some(b) = bad_parse(nodes) {
            return Err(format!("{}: malformed {}", p, b));
        }
    }

    let base = || vec![vec![("env".to_string(), env.clone())]];
    let mut html = BTreeMap::new();
    for (p, f) in &site.files {
        if let File::Md(m) = f {
            let mut it = Interp::new(site, env.clone());
            it.call = call;
            it.frames = base();
            let out = it.block(&m.body).map_err(|e| format!("{}: {}", p, e))?;
            let text = match out.as_slice() {
                [] => String::new(),
                [Piece::Text(t)] => t.clone(),
                _ => return Err("unspecified: unordered Markdown".into()),
            };
            html.insert(p.clone(), markdown(&text));
        }
    }

    let mut pages = BTreeMap::new();
    for (p, f) in &site.files {
        let name = base_of(p);
        if name == "root.html" || name == "md.html" {
            continue;
        }
        let mut it = Interp::new(site, env.clone());
        it.call = call;
        it.html = html.clone();
        it.frames = base();
        let (body, out) = match f {
            File::Html(n) => (n, p.clone()),
            File::Md(_) => {
                let v = it.md_value(p).unwrap();
                it.frames[0].push(("self".into(), v));
                let t = nearest(site, p, "md.html").ok_or_else(|| format!("{}: no md.html", p))?;
                (t, format!("{}.html", p.strip_suffix(".md").unwrap()))
            }
            _ => continue,
        };
        let root = nearest(site, p, "root.html").ok_or_else(|| format!("{}: no root.html", p))?;
        it.block(body).map_err(|e| format!("{}: {}", p, e))?;
        it.frames = base();
        let o = it.block(root).map_err(|e| format!("{} (root): {}", p, e))?;
        pages.insert(out, o);
    }
    Ok(Expected { pages })
}

fn bad_parse(nodes: &[Node]) -> Option<String> {
    for n in nodes {
        let r = match n {
            Node::BadParse(s) => Some(s.clone()),
            Node::Section(_, b) | Node::For(_, _, _, b) => bad_parse(b),
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                bad_parse(t).or_else(|| e.as_ref().and_then(|e| bad_parse(e)))
            }
            _ => None,
        };
        if r.is_some() {
            return r;
        }
    }
    None
}

/// Node counts by kind, for classification.
#[derive(Default, Debug)]
pub struct Stats {
    pub nodes: usize,
    pub vars: usize,
    pub imports: usize,
    pub sections: usize,
    pub nested_sections: usize,
    pub inserts: usize,
    pub fors: usize,
    pub nested_fors: usize,
    pub ifs: usize,
    pub nested_ifs: usize,
    pub blocks_in_ifs: usize,
    pub depth: usize,
}

pub fn stats(nodes: &[Node], s: &mut Stats, depth: usize, in_for: bool, in_if: bool, in_sec: bool) {
    s.depth = s.depth.max(depth);
    for n in nodes {
        s.nodes += 1;
        match n {
            Node::Var(_) => s.vars += 1,
            Node::Import(..) => s.imports += 1,
            Node::Insert(_) => s.inserts += 1,
            Node::Section(_, b) => {
                s.sections += 1;
                s.nested_sections += in_sec as usize;
                s.blocks_in_ifs += in_if as usize;
                stats(b, s, depth + 1, in_for, in_if, true);
            }
            Node::For(_, _, _, b) => {
                s.fors += 1;
                s.nested_fors += in_for as usize;
                s.blocks_in_ifs += in_if as usize;
                stats(b, s, depth + 1, true, in_if, in_sec);
            }
            Node::If(_, _, _, t, e) | Node::IfDef(_, t, e) => {
                s.ifs += 1;
                s.nested_ifs += in_if as usize;
                s.blocks_in_ifs += in_if as usize;
                stats(t, s, depth + 1, in_for, true, in_sec);
                if let Some(e) = e {
                    stats(e, s, depth + 1, in_for, true, in_sec);
                }
            }
            _ => (),
        }
    }
}

pub fn site_stats(site: &Site) -> Stats {
    let mut s = Stats::default();
    for f in site.files.values() {
        match f {
            File::Html(n) => stats(n, &mut s, 0, false, false, false),
            File::Md(m) => stats(&m.body, &mut s, 0, false, false, false),
            _ => (),
        }
    }
    s
}
