//! Generation of whole sites: data, Markdown, templates and pages which (mostly) refer to things
//! that exist.

use crate::ast::*;
use crate::engine::Src;
use crate::gen::{self, Val};
use std::collections::BTreeMap;

/// The weights of the constructs.
#[derive(Clone)]
pub struct W {
    pub text: u32,
    pub odd: u32,
    pub var: u32,
    pub import: u32,
    pub section: u32,
    pub for_: u32,
    pub if_: u32,
    pub ifdef: u32,
    pub ttr: u32,
    /// Whole values, printed by a plugin of the harness.
    pub dump: u32,
    /// Chance in 1000 that a reference is deliberately wrong.
    pub wrong: u64,
    pub depth: usize,
    pub style: Style,
    pub max_items: usize,
    /// Whether the bodies of Markdown files contain tags.
    pub md_tags: bool,
    pub md_files: usize,
    pub pages: usize,
    pub subdirs: bool,
    /// Whether templates may end with half a tag or escape.
    pub tail: bool,
    /// Chance in 100 that a page leaves out a section.
    pub drop: u64,
}

impl Default for W {
    fn default() -> Self {
        W {
            text: 30,
            odd: 4,
            var: 20,
            import: 6,
            section: 3,
            for_: 8,
            if_: 6,
            ifdef: 4,
            ttr: 1,
            dump: 0,
            wrong: 4,
            depth: 4,
            style: Style::Free,
            max_items: 12,
            md_tags: true,
            md_files: 4,
            pages: 3,
            subdirs: true,
            tail: false,
            drop: 0,
        }
    }
}

type Frame = Vec<(String, Vec<Val>)>;

pub struct TGen<'a> {
    pub w: &'a W,
    pub json: &'a BTreeMap<String, Val>,
    pub md: &'a BTreeMap<String, Md>,
    pub frames: Vec<Frame>,
    pub budget: usize,
    pub labels: Vec<String>,
    /// Whether loops over unsorted directories are allowed here.
    pub in_md: bool,
    pub unordered: bool,
    pub avoid_cr: bool,
}

pub const VARS: &[&str] = &["a", "b", "item", "x", "post", "data", "é", "v_1", "ab", "self2", "T"];
pub const LABELS: &[&str] =
    &["head", "body", "a", "b", "ab", "x y", "é:ü", "1", "begin", "for", "head ", "a)b,c", "}}", "$v", "'"];

fn join(head: &str, rest: &str) -> String {
    if rest.is_empty() {
        head.to_string()
    } else {
        format!("{}.{}", head, rest)
    }
}

impl<'a> TGen<'a> {
    pub fn new(w: &'a W, json: &'a BTreeMap<String, Val>, md: &'a BTreeMap<String, Md>) -> Self {
        TGen {
            w,
            json,
            md,
            frames: vec![],
            budget: 40,
            labels: vec![],
            in_md: false,
            unordered: false,
            avoid_cr: false,
        }
    }

    pub fn md_val(&self, m: &Md) -> Val {
        let mut o: Vec<(String, Val)> =
            m.front.iter().map(|(k, v)| (k.clone(), Val::Str(v.clone()))).collect();
        if !self.in_md {
            o.push(("content".into(), Val::Str("<p>".into())));
        }
        o.push(("markdown".into(), Val::Str(m.source.clone())));
        Val::Obj(o)
    }

    fn visible(&self) -> Vec<(String, Vec<Val>)> {
        let mut out: Vec<(String, Vec<Val>)> = vec![];
        for f in self.frames.iter().rev() {
            for (n, v) in f {
                if out.iter().all(|(m, _)| m != n) {
                    out.push((n.clone(), v.clone()));
                }
            }
        }
        out
    }

    /// The paths whose value satisfies the predicate whatever the loop variables are.
    pub fn candidates(&self, ok: impl Fn(&Val) -> bool) -> Vec<(String, Vec<Val>)> {
        let mut out = vec![];
        for (n, vs) in self.visible() {
            let first = match vs.first() {
                Some(v) => v,
                None => continue,
            };
            for (p, v) in first.paths() {
                if !ok(v) {
                    continue;
                }
                let mut all = vec![];
                for x in vs.iter() {
                    match x.path(&p) {
                        Some(y) if ok(y) => all.push(y.clone()),
                        _ => break,
                    }
                }
                if all.len() == vs.len() {
                    out.push((join(&n, &p), all));
                }
            }
        }
        out
    }

    pub fn choose(&self, src: &mut Src, ok: impl Fn(&Val) -> bool) -> Option<(String, Vec<Val>)> {
        let c = self.candidates(ok);
        if c.is_empty() {
            None
        } else {
            let i = src.below(c.len() as u64) as usize;
            Some(c[i].clone())
        }
    }

    /// A path which may or may not exist.
    pub fn any_path(&self, src: &mut Src) -> String {
        let vis = self.visible();
        let head = if !vis.is_empty() && src.chance(3, 4) {
            src.pick(&vis).0.clone()
        } else {
            src.pick(VARS).to_string()
        };
        let n = src.usize(0, 2);
        let mut p = head;
        for _ in 0..n {
            p.push('.');
            p.push_str(src.pick(gen::KEYS));
        }
        p
    }

    pub fn text(&self, src: &mut Src, odd: bool) -> Node {
        let mut t = if odd {
            gen::text(src)
        } else {
            match src.below(4) {
                0 => gen::mark(src),
                1 => format!(" {} ", gen::mark(src)),
                2 => format!("<i>{}</i>\n", gen::mark(src)),
                _ => "\n".into(),
            }
        };
        if self.avoid_cr {
            t = t.replace('\r', "");
        }
        Node::Text(t)
    }

    pub fn block(&mut self, src: &mut Src, depth: usize) -> Vec<Node> {
        let n = src.usize(1, if depth >= 2 { 5 } else { 3 });
        let mut out = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let d = (depth > 0) as u32;
            let k = src.weighted(&[
                self.w.text,
                self.w.odd,
                self.w.var,
                self.w.import,
                self.w.section * d,
                self.w.for_ * d,
                self.w.if_ * d,
                self.w.ifdef * d,
                self.w.ttr,
                self.w.dump,
            ]);
            let node = match k {
                0 => self.text(src, false),
                1 => self.text(src, true),
                2 => self.var(src),
                3 => self.import(src),
                4 => self.section(src, depth),
                5 => self.for_loop(src, depth),
                6 => self.cond(src, depth),
                7 => self.ifdef(src, depth),
                9 => {
                    let p = match self.choose(src, |_| true) {
                        Some((p, _)) if src.chance(5, 6) => p,
                        _ => self.any_path(src),
                    };
                    Node::Call("dump".into(), vec![Arg::Var(p)], vec![])
                }
                _ => match self.choose(src, |v| matches!(v, Val::Str(_))) {
                    Some((p, _)) => Node::Ttr(p),
                    None => self.text(src, false),
                },
            };
            out.push(node);
        }
        out
    }

    fn wrong(&self, src: &mut Src) -> bool {
        self.w.wrong > 0 && src.chance(self.w.wrong, 1000)
    }

    fn var(&mut self, src: &mut Src) -> Node {
        if self.wrong(src) {
            return Node::Var(self.any_path(src));
        }
        match self.choose(src, |v| matches!(v, Val::Str(_))) {
            Some((p, _)) => Node::Var(p),
            None => self.import_or_text(src),
        }
    }

    fn import_or_text(&mut self, src: &mut Src) -> Node {
        if self.json.is_empty() || src.coin() {
            self.text(src, false)
        } else {
            self.import(src)
        }
    }

    fn import(&mut self, src: &mut Src) -> Node {
        if self.wrong(src) {
            let f = *src.pick(&["nothing.json", "index.html", "data", "posts/", "../data.json", "no/data.json", ""]);
            return Node::Import(src.pick(VARS).to_string(), f.to_string());
        }
        if self.json.is_empty() {
            return self.text(src, false);
        }
        let files: Vec<&String> = self.json.keys().collect();
        let f = src.pick(&files).to_string();
        let wrong = self.wrong(src);
        let frame = self.frames.last_mut().unwrap();
        let mut v = src.pick(VARS).to_string();
        if !wrong {
            // A fresh name in this block.
            let free: Vec<&&str> =
                VARS.iter().filter(|n| frame.iter().all(|(m, _)| m != *n)).collect();
            if free.is_empty() {
                return self.text(src, false);
            }
            v = src.pick(&free).to_string();
        }
        frame.push((v.clone(), vec![self.json[&f].clone()]));
        let f = match src.below(12) {
            0 => format!("./{}", f),
            _ => f,
        };
        Node::Import(v, f)
    }

    fn section(&mut self, src: &mut Src, depth: usize) -> Node {
        // Some are defined again.
        let l = match self.labels.is_empty() || !src.chance(1, 6) {
            true => self.fresh_label(src),
            false => src.pick(&self.labels).clone(),
        };
        self.frames.push(vec![]);
        let b = self.block(src, depth - 1);
        self.frames.pop();
        Node::Section(l, b)
    }

    pub fn fresh_label(&mut self, src: &mut Src) -> String {
        let free: Vec<&&str> = LABELS.iter().filter(|l| !self.labels.iter().any(|m| m == **l)).collect();
        let near: Option<String> = if self.labels.is_empty() || !src.chance(1, 6) {
            None
        } else {
            // Almost one that exists.
            let l = src.pick(&self.labels).clone();
            let l = match src.below(6) {
                0 => l.to_uppercase(),
                1 => format!("{} ", l),
                2 => format!(" {}", l),
                3 => l.chars().skip(1).collect(),
                4 => format!("{}{}", l, l),
                _ => format!("{}s", l),
            };
            Some(l).filter(|l| !l.contains('"') && !self.labels.contains(l))
        };
        let l = if let Some(l) = near {
            l
        } else if free.is_empty() || src.chance(1, 5) {
            format!("{}-{}", gen::word(src), self.labels.len())
        } else {
            src.pick(&free).to_string()
        };
        self.labels.push(l.clone());
        l
    }

    fn for_loop(&mut self, src: &mut Src, depth: usize) -> Node {
        let v = src.pick(VARS).to_string();
        let mut dirs: Vec<String> =
            self.md.keys().filter_map(|k| k.rfind('/').map(|i| k[..i + 1].to_string())).collect();
        dirs.dedup();
        let arrays: Vec<String> = self
            .json
            .iter()
            .filter(|(_, v)| matches!(v, Val::Arr(_)))
            .map(|(k, _)| k.clone())
            .collect();
        let vars = self.candidates(|v| matches!(v, Val::Arr(_)));

        if self.wrong(src) {
            let s = match src.below(4) {
                0 => ForSrc::Json("missing.json".into()),
                1 => ForSrc::Dir("missing/".into()),
                2 => ForSrc::Var(self.any_path(src)),
                _ => match self.choose(src, |v| matches!(v, Val::Str(_) | Val::Obj(_))) {
                    Some((p, _)) => ForSrc::Var(p),
                    None => ForSrc::Var("nope".into()),
                },
            };
            return Node::For(v, s, ForArgs::default(), vec![Node::Text("x".into())]);
        }

        let k = src.weighted(&[
            if arrays.is_empty() { 0 } else { 30 },
            if vars.is_empty() { 0 } else { 35 },
            if dirs.is_empty() { 0 } else { 25 },
            1,
        ]);
        let mut unordered = false;
        let mut dir = false;
        let (s, items) = match k {
            0 => {
                let f = src.pick(&arrays).clone();
                let items = match &self.json[&f] {
                    Val::Arr(a) => a.clone(),
                    _ => unreachable!(),
                };
                (ForSrc::Json(f), items)
            }
            1 => {
                let (p, vs) = src.pick(&vars).clone();
                let items = vs
                    .iter()
                    .flat_map(|v| match v {
                        Val::Arr(a) => a.clone(),
                        _ => vec![],
                    })
                    .collect();
                (ForSrc::Var(p), items)
            }
            2 => {
                let d = src.pick(&dirs).clone();
                let items: Vec<Val> = self
                    .md
                    .iter()
                    .filter(|(k, _)| k.strip_prefix(d.as_str()).map(|r| !r.contains('/')).unwrap_or(false))
                    .map(|(_, m)| self.md_val(m))
                    .collect();
                unordered = items.len() > 1;
                dir = true;
                (ForSrc::Dir(d), items)
            }
            _ => return self.text(src, false),
        };

        let mut a = ForArgs::default();
        if src.chance(2, 5) {
            // The strings which every item has, and others.
            let keys: Vec<String> = items
                .first()
                .map(|i| i.paths().iter().filter(|(_, v)| matches!(v, Val::Str(_))).map(|(p, _)| p.clone()).collect())
                .unwrap_or_default();
            let distinct: Vec<String> = keys
                .iter()
                .filter(|k| {
                    let mut vs: Vec<String> = items
                        .iter()
                        .map(|i| match i.path(k) {
                            Some(Val::Str(s)) => s.clone(),
                            _ => String::new(),
                        })
                        .collect();
                    vs.sort();
                    let n = vs.len();
                    vs.dedup();
                    vs.len() == n
                })
                .cloned()
                .collect();
            let pool = if dir { distinct } else { keys };
            if !pool.is_empty() {
                let k = src.pick(&pool).clone();
                let string = !k.is_empty() && src.coin();
                a.sort = Some((k, string));
                unordered = false;
            } else if !dir && src.coin() {
                a.sort = Some(("a".into(), src.coin()));
            }
        }
        if self.in_md && unordered {
            // What is converted to HTML has to be known to the letter.
            let keys: Vec<String> = items[0]
                .paths()
                .iter()
                .filter(|(k, v)| {
                    let mut vs: Vec<Option<&Val>> = items.iter().map(|i| i.path(k)).collect();
                    vs.sort_by_key(|v| format!("{:?}", v));
                    vs.dedup_by_key(|v| format!("{:?}", v));
                    matches!(v, Val::Str(_)) && !k.is_empty() && k != "markdown" && vs.len() == items.len()
                        && items.iter().all(|i| matches!(i.path(k), Some(Val::Str(_))))
                })
                .map(|(k, _)| k.clone())
                .collect();
            if keys.is_empty() {
                return self.text(src, false);
            }
            a.sort = Some((src.pick(&keys).clone(), src.coin()));
            unordered = false;
        }
        if src.chance(1, 4) {
            a.desc = Some(src.chance(3, 4));
        }
        let n = items.len() as i64;
        if src.chance(1, 4) {
            a.skip = Some(match src.below(8) {
                0 => 0,
                1 => n as i32,
                2 => n as i32 + 1,
                3 => *src.pick(&[i32::MAX, 1000, 65536]),
                4 => (n as i32 - 1).max(0),
                _ => src.range(0, n.max(1)) as i32,
            });
        }
        if src.chance(1, 4) {
            a.limit = Some(match src.below(8) {
                0 => 0,
                1 => n as i32,
                2 => n as i32 + 1,
                3 => *src.pick(&[i32::MAX, 1000, 65536]),
                _ => src.range(0, n.max(1)) as i32,
            });
        }

        self.frames.push(vec![(v.clone(), items)]);
        let was = self.unordered;
        self.unordered |= unordered;
        let labels = self.labels.clone();
        let w = self.w;
        // Sections in loops would be defined repeatedly.
        let mut w2 = w.clone();
        w2.section = 0;
        let body = {
            let mut g = TGen { w: &w2, json: self.json, md: self.md, frames: std::mem::take(&mut self.frames), budget: self.budget, labels: vec![], in_md: self.in_md, unordered: self.unordered, avoid_cr: self.avoid_cr };
            let b = g.block(src, depth - 1);
            self.frames = std::mem::take(&mut g.frames);
            self.budget = g.budget;
            b
        };
        self.labels = labels;
        self.unordered = was;
        self.frames.pop();
        Node::For(v, s, a, body)
    }

    fn lit(&self, src: &mut Src, like: Option<&Val>) -> Arg {
        match like {
            Some(Val::Num(n, _)) => match src.below(6) {
                0 => Arg::Int((n + 1.0) as i32),
                1 => Arg::Int((n - 1.0) as i32),
                2 => Arg::Int(src.range(-20, 20) as i32),
                3 => Arg::Int(*src.pick(&[i32::MAX, i32::MIN, 0, 1, -1])),
                _ => Arg::Int(*n as i32),
            },
            Some(Val::Str(s)) => {
                let s: String = s.chars().filter(|c| *c != '"').collect();
                let mut s = if self.avoid_cr { s.replace('\r', "") } else { s };
                match src.below(6) {
                    0 => s.push(' '),
                    1 => s = gen::mark(src),
                    2 => s = s.to_uppercase().replace('"', ""),
                    3 if !s.is_empty() => {
                        // Close, or the same number.
                        s = match src.below(8) {
                            0 => format!("0{}", s),
                            1 => format!("{}.0", s),
                            2 => format!("+{}", s),
                            3 => format!("{}e0", s),
                            4 => format!(" {}", s),
                            5 => s.to_lowercase(),
                            6 => s.trim().to_string(),
                            _ => s[..s.char_indices().last().unwrap().0].to_string(),
                        }
                    }
                    _ => (),
                }
                Arg::Str(s)
            }
            _ => match src.below(3) {
                0 => Arg::Int(src.range(-5, 5) as i32),
                1 => Arg::Int(*src.pick(&[i32::MAX, i32::MIN, 0, 1, -1, 10, 100])),
                _ => Arg::Str(src.pick(&["", "a", "b", "1", "0", "true", "null", "$a", ")", "a, b", "}}"]).to_string()),
            },
        }
    }

    fn cond(&mut self, src: &mut Src, depth: usize) -> Node {
        let op = *src.pick(&OPS);
        let order = !matches!(op, Op::Eq | Op::Ne);
        let (mut x, mut y);
        if self.wrong(src) {
            x = Arg::Var(self.any_path(src));
            y = self.lit(src, None);
        } else if order && src.chance(1, 8) {
            // What isn't a number has no order.
            let word = |src: &mut Src| Arg::Str(src.pick(&["", "a", "b", "é", "10", "9"]).to_string());
            x = match self.choose(src, |v| matches!(v, Val::Str(_))) {
                Some((p, _)) if src.chance(2, 3) => Arg::Var(p),
                _ => word(src),
            };
            y = match src.below(4) {
                0 => x.clone(),
                1 => self.lit(src, Some(&Val::num(3.0))),
                2 => match self.choose(src, |v| matches!(v, Val::Str(_) | Val::Num(..))) {
                    Some((p, _)) => Arg::Var(p),
                    None => word(src),
                },
                _ => word(src),
            };
            if src.coin() {
                std::mem::swap(&mut x, &mut y);
            }
        } else if order {
            let c = self.choose(src, |v| matches!(v, Val::Num(..)));
            match c {
                Some((p, vs)) if src.chance(4, 5) => {
                    x = Arg::Var(p);
                    y = match self.choose(src, |v| matches!(v, Val::Num(..))) {
                        Some((q, _)) if src.chance(1, 3) => Arg::Var(q),
                        _ => self.lit(src, vs.first()),
                    };
                }
                _ => {
                    let n = src.range(-3, 12);
                    x = Arg::Int(n as i32);
                    y = self.lit(src, Some(&Val::num(n as f64)));
                }
            }
        } else {
            let num = src.coin();
            let c = self.choose(src, |v| if num { matches!(v, Val::Num(..)) } else { matches!(v, Val::Str(_)) });
            match c {
                Some((p, vs)) if src.chance(4, 5) => {
                    x = Arg::Var(p);
                    y = match src.below(12) {
                        10 | 11 => match self.choose(src, |v| if num { matches!(v, Val::Num(..)) } else { matches!(v, Val::Str(_)) }) {
                            Some((q, _)) => Arg::Var(q),
                            None => self.lit(src, None),
                        },
                        0 | 1 => match self.choose(src, |v| matches!(v, Val::Num(..) | Val::Str(_))) {
                            Some((q, _)) => Arg::Var(q),
                            None => self.lit(src, None),
                        },
                        2 => self.lit(src, None),
                        3 => match vs.first() {
                            // The same thing as the other type.
                            Some(Val::Num(_, t)) => Arg::Str(t.clone()),
                            Some(Val::Str(s)) => s.parse::<i32>().map(Arg::Int).unwrap_or(Arg::Int(0)),
                            _ => Arg::Int(0),
                        },
                        _ => {
                            let i = src.below(vs.len().max(1) as u64) as usize;
                            self.lit(src, vs.get(i))
                        }
                    };
                }
                _ => {
                    x = self.lit(src, None);
                    y = if src.coin() { x.clone() } else { self.lit(src, None) };
                }
            }
        }
        if src.chance(1, 4) {
            std::mem::swap(&mut x, &mut y);
        }
        let (t, e) = self.branches(src, depth);
        Node::If(op, x, y, t, e)
    }

    fn branches(&mut self, src: &mut Src, depth: usize) -> (Vec<Node>, Option<Vec<Node>>) {
        let labels = self.labels.len();
        self.frames.push(vec![]);
        let t = self.block(src, depth - 1);
        self.frames.pop();
        let e = if src.coin() {
            self.frames.push(vec![]);
            let e = self.block(src, depth - 1);
            self.frames.pop();
            Some(e)
        } else {
            None
        };
        // Sections in a branch aren't known to exist, but their labels stay taken.
        let _ = labels;
        (t, e)
    }

    fn ifdef(&mut self, src: &mut Src, depth: usize) -> Node {
        let c = self.candidates(|_| true);
        let p = if c.is_empty() || src.coin() { self.any_path(src) } else { src.pick(&c).0.clone() };
        // An array index must not be applied to an object (unspecified), nor the other way around.
        let p = if self.odd_index(&p) { "nope".to_string() } else { p };
        let (t, e) = self.branches(src, depth);
        Node::IfDef(p, t, e)
    }

    /// Whether a numeric component of the path is applied to an object lacking that key.
    fn odd_index(&self, p: &str) -> bool {
        p.split('.').skip(1).any(|c| c.parse::<usize>().is_ok())
            && !self.candidates(|_| true).iter().any(|(q, _)| q == p)
    }
}

/// The data of a site.
pub fn gen_json(src: &mut Src, n: usize, max_items: usize) -> BTreeMap<String, Val> {
    let mut out = BTreeMap::new();
    let names = ["data.json", "tags.json", "d/list.json", "x y.json", "é.json", "a.b.json", "deep/er/z.json", "d/data.json", "deep/data.json", "d/tags.json", "DATA.json"];
    for i in 0..n {
        let f = if i == 0 { names[0] } else { *src.pick(&names) };
        let v = match src.weighted(&[50, 40, 10]) {
            0 => gen::array(src, max_items),
            1 => {
                let k = src.usize(1, 5);
                let mut o = gen::obj(src, k, 3);
                if src.coin() && o.iter().all(|(k, _)| k != "list") {
                    o.push(("list".into(), gen::array(src, max_items)));
                }
                Val::Obj(o)
            }
            _ => gen::val(src, 2),
        };
        out.insert(f.to_string(), v);
    }
    out
}

pub const FRONT: &[&str] = &["title", "author", "date", "n", "tag", "a", "é", "Title"];

pub fn gen_front(src: &mut Src, uniq: usize) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    if src.chance(9, 10) {
        out.push(("title".into(), format!("{}{}", gen::mark(src), uniq)));
    }
    let n = src.usize(0, 4);
    for _ in 0..n {
        let k = src.pick(FRONT).to_string();
        if out.iter().any(|(x, _)| *x == k) {
            continue;
        }
        let v = match src.below(5) {
            0 => String::new(),
            1 => format!("{}: \"{}\"", gen::mark(src), gen::mark(src)),
            2 => {
                let t: String = gen::text(src).chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
                t
            }
            _ => gen::mark(src),
        };
        out.push((k, v));
    }
    out
}

/// Writes a Markdown file, returning its text.
pub fn write_md(m: &mut Md, src: &mut Src, style: Style, force_front: bool) -> String {
    let body = write(&m.body, src, style).replace("\r\n", "\n");
    m.source = body.lines().collect::<Vec<_>>().join("\n");
    let mut s = String::new();
    if !m.front.is_empty() || force_front || m.source.starts_with("---") {
        s.push_str("---\n");
        for (k, v) in &m.front {
            match src.below(6) {
                0 => s.push_str(&format!("  {} :\t\"{}\"  \n", k, v)),
                1 => s.push_str(&format!("{}:\"{}\"\n", k, v)),
                _ => s.push_str(&format!("{}: \"{}\"\n", k, v)),
            }
        }
        s.push_str(src.pick(&["---\n", "---\n", "-----\n", "--- \n"]));
    }
    s.push_str(&m.source);
    if src.coin() {
        s.push('\n');
    }
    if src.chance(1, 5) {
        s = s.replace('\n', "\r\n");
    }
    s
}

pub fn md_text(src: &mut Src) -> String {
    let n = src.usize(1, 4);
    let mut s = String::new();
    if src.chance(1, 25) {
        s.push_str(src.pick(gen::FIRST));
        s = s.replace('\r', "");
    }
    for _ in 0..n {
        match src.below(12) {
            0 => s.push_str(&format!("# {}\n\n", gen::mark(src))),
            1 => s.push_str(&format!("* {}\n* {}\n\n", gen::mark(src), gen::mark(src))),
            2 => s.push_str(&format!("[{}](http://x/{})\n\n", gen::mark(src), gen::mark(src))),
            3 => s.push_str(&format!("```\n{} < {}\n```\n\n", gen::mark(src), gen::mark(src))),
            4 => s.push_str(&format!("| a | b |\n|---|---|\n| {} | {} |\n\n", gen::mark(src), gen::mark(src))),
            5 => s.push_str(&format!("- [x] {} ~~{}~~\n\n", gen::mark(src), gen::mark(src))),
            6 => s.push_str(&format!("text[^1] \"{}\"\n\n[^1]: {}\n\n", gen::mark(src), gen::mark(src))),
            7 => s.push_str(&format!("<div>{}</div>\n\n", gen::mark(src))),
            8 => s.push_str(&format!("---\n{}\n---\n", gen::mark(src))),
            _ => s.push_str(&format!("*{}* **{}** {}\n\n", gen::mark(src), gen::mark(src), gen::mark(src))),
        }
    }
    s
}

/// A complete site.
pub fn gen_site(src: &mut Src, w: &W) -> Site {
    let njson = src.usize(1, 3);
    let json = gen_json(src, njson, w.max_items);
    let mut md: BTreeMap<String, Md> = BTreeMap::new();
    let mut site = Site::default();

    // Some sites are large.
    let large = w.pages > 1 && src.chance(1, 150);
    let nmd = if large && w.md_files > 0 { src.usize(8, 30) } else { src.usize(0, w.md_files) };
    let w = &W { depth: if large { w.depth + 4 } else { w.depth }, ..w.clone() };
    for i in 0..nmd {
        let dir = if w.subdirs { *src.pick(&["posts/", "posts/", "posts/", "p/q/", ""]) } else { "posts/" };
        let name = format!("{}{}.md", gen::word(src), i);
        md.insert(format!("{}{}", dir, name), Md { front: gen_front(src, i), body: vec![], source: String::new() });
    }
    // The bodies may list the other files, but not what these render to.
    let fronts = md.clone();
    for (path, m) in md.iter_mut() {
        let mut body = vec![];
        let mut t = md_text(src);
        while t.ends_with('\n') {
            t.pop();
        }
        body.push(Node::Text(t));
        if w.md_tags && src.chance(1, 3) {
            let mut g = TGen::new(w, &json, &fronts);
            g.in_md = true;
            g.avoid_cr = true;
            g.budget = 8;
            g.frames = vec![vec![]];
            let b = g.block(src, 2);
            body.extend(b);
            body.push(Node::Text(format!(" {}", gen::mark(src))));
        }
        seal(&mut body);
        m.body = body;
        let text = write_md(m, src, w.style, false);
        site.bytes.insert(path.clone(), text.into_bytes());
    }
    for (k, v) in &json {
        site.bytes.insert(k.clone(), v.json(src).into_bytes());
    }

    // The sections which every page defines.
    let nl = src.usize(1, 3);
    let mut labels = vec![];
    {
        let mut g = TGen::new(w, &json, &md);
        for _ in 0..nl {
            g.fresh_label(src);
        }
        labels.extend(g.labels);
    }

    let put = |site: &mut Site, path: &str, mut nodes: Vec<Node>, src: &mut Src| {
        seal(&mut nodes);
        if w.odd > 0 && src.chance(1, 20) {
            let first = *src.pick(gen::FIRST);
            match nodes.first_mut() {
                Some(Node::Text(t)) => t.insert_str(0, first),
                _ => nodes.insert(0, Node::Text(first.into())),
            }
        }
        if w.tail && src.chance(1, 3) {
            let end = *src.pick(&["{", "\\", "\\{", "{{", "\\\\", "}}", "{ {", "{{{", "x{"]);
            match nodes.last_mut() {
                Some(Node::Text(t)) => t.push_str(end),
                _ => nodes.push(Node::Text(end.into())),
            }
        }
        let t = write(&nodes, src, w.style);
        site.bytes.insert(path.to_string(), t.into_bytes());
        site.files.insert(path.to_string(), File::Html(nodes));
    };

    // The root template.
    {
        let mut nodes = vec![];
        let mut g = TGen::new(w, &json, &md);
        g.budget = 6 + src.size / 2;
        g.frames = vec![vec![]];
        g.labels = labels.clone();
        let n = src.usize(1, labels.len() + 1);
        let mut order = labels.clone();
        src.shuffle(&mut order);
        for i in 0..n {
            nodes.push(g.text(src, false));
            nodes.push(Node::Insert(order[i % order.len()].clone()));
            if src.chance(1, 4) {
                let b = g.block(src, 1);
                nodes.extend(b);
            }
        }
        nodes.push(g.text(src, false));
        put(&mut site, "root.html", nodes, src);
    }

    let page = |src: &mut Src, selfs: Option<Vec<Val>>| -> Vec<Node> {
        let mut g = TGen::new(w, &json, &md);
        g.frames = vec![vec![]];
        if let Some(v) = selfs {
            g.frames[0].push(("self".into(), v));
        }
        g.labels = labels.clone();
        g.budget = 4 + src.size * 3;
        let mut order = labels.clone();
        src.shuffle(&mut order);
        let mut nodes = vec![];
        for (i, l) in order.iter().enumerate() {
            if src.chance(1, 3) {
                let b = g.block(src, w.depth.min(2));
                nodes.extend(b);
            }
            g.frames.push(vec![]);
            let mut b = g.block(src, w.depth);
            g.frames.pop();
            let drop = w.drop > 0 && i == 0 && src.chance(w.drop, 100);
            if !drop {
                // Some sections enclose the previous ones.
                if !nodes.is_empty() && src.chance(1, 8) {
                    let inner = std::mem::take(&mut nodes);
                    // Names imported outside stay outside: only pure content is moved.
                    if inner.iter().any(|n| matches!(n, Node::Import(..))) {
                        nodes = inner;
                    } else {
                        b.extend(inner);
                    }
                }
                nodes.push(Node::Section(l.clone(), b));
            }
        }
        nodes
    };

    if !md.is_empty() {
        let selfs: Vec<Val> = {
            let g = TGen::new(w, &json, &md);
            md.values().map(|m| g.md_val(m)).collect()
        };
        let nodes = page(src, Some(selfs));
        put(&mut site, "md.html", nodes, src);
    }
    for (k, m) in md.iter() {
        site.files.insert(k.clone(), File::Md(m.clone()));
    }
    for (k, v) in &json {
        site.files.insert(k.clone(), File::Json(v.clone()));
    }
    let np = if large { src.usize(6, 20) } else { src.usize(1, w.pages) };
    for i in 0..np {
        let path = match (i, w.subdirs) {
            (0, _) | (_, false) => format!("page-{}.html", i),
            _ => format!("{}page-{}.html", src.pick(&["", "sub/", "sub/deep/", "posts/"]), i),
        };
        let nodes = page(src, None);
        put(&mut site, &path, nodes, src);
    }
    site
}
