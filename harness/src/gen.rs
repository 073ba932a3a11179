//! Generators for text, names and JSON values.

use crate::engine::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    /// A number, with the text it is written as.
    Num(f64, String),
    Str(String),
    Arr(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

impl Val {
    pub fn num(n: f64) -> Val {
        Val::Num(n, format!("{}", n))
    }

    pub fn get(&self, key: &str) -> Option<&Val> {
        match self {
            Val::Obj(o) => o.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            Val::Arr(a) => key.parse::<usize>().ok().and_then(|i| a.get(i)),
            _ => None,
        }
    }

    /// Follows a dotted path (object keys, then array positions).
    pub fn path<'a>(&'a self, path: &str) -> Option<&'a Val> {
        let mut v = self;
        if path.is_empty() {
            return Some(v);
        }
        for p in path.split('.') {
            v = v.get(p)?;
        }
        Some(v)
    }

    /// All the paths below this value, including the empty one, up to a limit.
    pub fn paths(&self) -> Vec<(String, &Val)> {
        let mut out = vec![];
        fn go<'a>(v: &'a Val, p: String, out: &mut Vec<(String, &'a Val)>) {
            if out.len() > 200 {
                return;
            }
            out.push((p.clone(), v));
            let join = |k: &str| if p.is_empty() { k.to_string() } else { format!("{}.{}", p, k) };
            match v {
                Val::Obj(o) => {
                    for (k, x) in o {
                        if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
                            go(x, join(k), out)
                        }
                    }
                }
                Val::Arr(a) => {
                    for (i, x) in a.iter().enumerate() {
                        go(x, join(&i.to_string()), out)
                    }
                }
                _ => (),
            }
        }
        go(self, String::new(), &mut out);
        out
    }

    pub fn to_serde(&self) -> serde_json::Value {
        use serde_json::Value as S;
        match self {
            Val::Null => S::Null,
            Val::Bool(b) => S::Bool(*b),
            Val::Num(n, _) => serde_json::json!(n),
            Val::Str(s) => S::String(s.clone()),
            Val::Arr(a) => S::Array(a.iter().map(|v| v.to_serde()).collect()),
            Val::Obj(o) => S::Object(o.iter().map(|(k, v)| (k.clone(), v.to_serde())).collect()),
        }
    }

    /// Writes the value as JSON text.
    pub fn json(&self, src: &mut Src) -> String {
        let pretty = src.chance(1, 4);
        let mut out = String::new();
        self.write(&mut out, pretty, src);
        if pretty {
            out.push('\n');
        }
        out
    }

    fn write(&self, out: &mut String, pretty: bool, src: &mut Src) {
        let ws = if pretty { "\n  " } else { "" };
        match self {
            Val::Null => out.push_str("null"),
            Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Val::Num(_, t) => out.push_str(t),
            Val::Str(s) => write_str(s, out),
            Val::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(ws);
                    v.write(out, pretty, src);
                }
                out.push(']');
            }
            Val::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(ws);
                    write_str(k, out);
                    out.push(':');
                    if pretty {
                        out.push(' ');
                    }
                    v.write(out, pretty, src);
                }
                out.push('}');
            }
        }
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub const ODD: &[&str] = &[
    "é", "漢字", "😀", "e\u{301}", "\u{202e}x", "\u{feff}", "\u{2028}", "\u{a0}", "ß", "\u{0}", "\u{7f}",
    "\u{b}", "&amp;", "<b>", "</p>", "<!-- x -->", "\"", "'", "`", "$", "$a", "$a.b", "%", "()", "(", ")", ",", "=",
    ";", "\\n", "/", "|", "~", "#", "---", "{%", "%}", "}", "}}", "}}}", "{ {", "{", "{}", "\\", "\\\\", "<script>",
    "]]>", "begin(\"x\")", "$x }}", "end(for)", "\u{10ffff}", "Ω", "\u{200d}", "İ", "ﬀ", "\u{1b}[1m", "\u{1}", "\u{c}", "\u{85}", "\u{ad}", "\u{fffd}", "\u{e000}",
];

/// What some programs take off, or treat specially, at the start of a text.
pub const FIRST: &[&str] = &["\u{feff}", "\u{feff}", "\n", "\r\n", "#!", "\u{0}", " ", "\u{fffe}", "\u{200b}", "<?xml?>", "\u{1b}[0m"];

/// A short plain word.
pub fn word(src: &mut Src) -> String {
    let n = src.usize(1, 5);
    (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect()
}

/// Arbitrary text. May contain anything a file can, including brace runs and control characters.
pub fn text(src: &mut Src) -> String {
    let mut s = String::new();
    let n = match src.weighted(&[500, 300, 150, 40, 10, 3]) {
        0 => src.usize(1, 2),
        1 => src.usize(1, 6),
        2 => src.usize(3, 16),
        3 => src.usize(20, 80),
        4 => src.usize(100, 400),
        _ => {
            // Around the sizes of buffers.
            let len = (*src.pick(&[128i64, 256, 1024, 4096, 8192, 16384, 65536]) + src.range(-2, 3)) as usize;
            let n = src.usize(1, 5);
            let mut piece = String::new();
            pieces(src, n, &mut piece);
            while s.len() < len {
                let mut k = piece.len().min(len - s.len());
                while !piece.is_char_boundary(k) {
                    k += 1;
                }
                s.push_str(&piece[..k]);
            }
            src.usize(0, 3)
        }
    };
    pieces(src, n, &mut s);
    s
}

fn pieces(src: &mut Src, n: usize, s: &mut String) {
    for _ in 0..n {
        match src.weighted(&[40, 20, 8, 4, 22, 6]) {
            0 => s.push_str(&word(src)),
            1 => s.push(' '),
            2 => s.push('\n'),
            3 => s.push_str("\r\n"),
            4 => s.push_str(src.pick(ODD)),
            _ => match src.below(4) {
                0 => s.push('\t'),
                1 => s.push_str("{{"),
                2 => s.push_str("{{ $a }}"),
                _ => s.push(char::from_u32(src.range(0x20, 0x24f) as u32).unwrap_or('x')),
            },
        }
    }
}

/// Plain short text without any special characters; unique-ish, so that misplaced text shows.
pub fn mark(src: &mut Src) -> String {
    let w = word(src);
    format!("{}{}", w, src.below(100))
}

/// A string value, for JSON data.
pub fn string(src: &mut Src) -> String {
    match src.weighted(&[50, 10, 20, 15, 5]) {
        0 => mark(src),
        1 => String::new(),
        2 => match src.below(8) {
            0 => src.pick(&["1", "0", "-0", "10", "1.5", "1e3", "nan", "true", "null", "inf"]).to_string(),
            _ => format!("{} {}", mark(src), mark(src)),
        },
        3 => text(src),
        _ => {
            let n = src.usize(1, 30);
            (0..n).map(|_| mark(src)).collect::<Vec<_>>().join(" ")
        }
    }
}

pub const KEYS: &[&str] = &[
    "a", "b", "c", "title", "name", "x1", "date", "tags", "id", "A", "ab", "é", "k_2", "_", "0", "1", "list", "text",
];

pub fn number(src: &mut Src) -> Val {
    match src.weighted(&[40, 15, 15, 10, 20, 12]) {
        5 => {
            // Few groups of neighbours.
            let t = *src.pick(&[
                "0", "0.0", "1e-20", "-1e-9", "1e-13", "5e-324", "1", "1.0000000000000002", "0.9999999999999999", "1.000001", "0.3",
                "0.30000000000000004", "100000", "100000.00000000001", "1e15", "1000000000000001", "1e16", "10000000000000002", "1e300",
                "16777216", "16777217", "2.5", "2.5000001", "-2.5",
            ]);
            Val::Num(t.parse().unwrap(), t.to_string())
        }
        0 => Val::num(src.range(0, 12) as f64),
        1 => Val::num(src.range(-20, 20) as f64),
        2 => {
            let n = *src.pick(&[
                2147483647i64, -2147483648, 2147483648, -2147483649, 4294967296, 9007199254740991, 65536, 256, 100,
            ]);
            Val::num(n as f64)
        }
        3 => {
            let t = *src.pick(&["1e3", "1.5e2", "-0.0", "0.1", "1E-2", "123456.789", "5.0", "-7.50"]);
            Val::Num(t.parse().unwrap(), t.to_string())
        }
        _ => {
            let w = src.range(-12, 12);
            let f = *src.pick(&["5", "25", "1", "999", "001"]);
            let t = format!("{}.{}", w, f);
            Val::Num(t.parse().unwrap(), t)
        }
    }
}

/// A JSON value of bounded depth. Keys of an object are distinct.
pub fn val(src: &mut Src, depth: usize) -> Val {
    let k = if depth == 0 {
        src.weighted(&[60, 15, 10, 8])
    } else {
        src.weighted(&[35, 10, 6, 5, 22, 22])
    };
    match k {
        0 => Val::Str(string(src)),
        1 => number(src),
        2 => Val::Bool(src.coin()),
        3 => Val::Null,
        4 => {
            let n = src.usize(0, 4);
            Val::Obj(obj(src, n, depth - 1))
        }
        _ => {
            let n = src.usize(0, 4);
            Val::Arr((0..n).map(|_| val(src, depth - 1)).collect())
        }
    }
}

pub fn obj(src: &mut Src, n: usize, depth: usize) -> Vec<(String, Val)> {
    let mut o: Vec<(String, Val)> = vec![];
    for _ in 0..n {
        let k = src.pick(KEYS).to_string();
        if o.iter().all(|(x, _)| *x != k) {
            let v = val(src, depth);
            o.push((k, v));
        }
    }
    o
}

/// A value with the same shape as `v`, but different leaves.
pub fn like(src: &mut Src, v: &Val) -> Val {
    match v {
        Val::Null => Val::Null,
        Val::Bool(_) => Val::Bool(src.coin()),
        Val::Num(..) => number(src),
        Val::Str(_) => Val::Str(string(src)),
        Val::Arr(a) => {
            let mut a: Vec<Val> = a.iter().map(|x| like(src, x)).collect();
            if !a.is_empty() && src.chance(1, 4) {
                let x = like(src, &a[0].clone());
                a.push(x);
            }
            Val::Arr(a)
        }
        Val::Obj(o) => Val::Obj(o.iter().map(|(k, x)| (k.clone(), like(src, x))).collect()),
    }
}

/// An array, usually of similar objects.
pub fn array(src: &mut Src, max: usize) -> Val {
    // Long, with few different keys.
    if max >= 20 && src.chance(1, 60) {
        let n = src.usize(21, 40);
        let keys = src.range(1, 6);
        return Val::Arr(
            (0..n)
                .map(|i| {
                    let k = ["", "a", "B", "b", "é", "10"][src.range(0, keys - 1) as usize];
                    Val::Obj(vec![("a".into(), Val::Str(k.into())), ("b".into(), Val::Str(format!("<{}>", i)))])
                })
                .collect(),
        );
    }
    let n = match src.weighted(&[10, 60, 20, 10]) {
        0 => 0,
        1 => src.usize(1, 5),
        2 => src.usize(1, max.max(2) / 2),
        _ => src.usize(1, max.max(2)),
    };
    match src.weighted(&[70, 20, 10]) {
        0 => {
            let k = src.usize(1, 4);
            let mut proto = obj(src, k, 2);
            if proto.is_empty() {
                proto.push(("a".into(), Val::Str("x".into())));
            }
            let proto = Val::Obj(proto);
            Val::Arr((0..n).map(|_| like(src, &proto)).collect())
        }
        1 => Val::Arr((0..n).map(|_| Val::Str(string(src))).collect()),
        _ => Val::Arr((0..n).map(|_| val(src, 2)).collect()),
    }
}

/// A long text without tags or line ends, around lengths at which text could be cut.
pub fn long(src: &mut Src) -> String {
    let n = *src.pick(&[60usize, 80, 128, 200, 255, 256, 400, 1000, 1024, 4000]) + src.usize(0, 3);
    let unit = *src.pick(&["a", "é", "a b ", "😀", "xé", "\u{301}o", "  "]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(unit);
    }
    s.insert_str(0, &"x"[..src.usize(0, 1)]);
    s
}
