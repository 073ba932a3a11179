//! C09: excerpt and timetoread. C10: dateformat.

use crate::engine::*;
use crate::gen::{self, Val};
use crate::site::*;

/// One page per item: the expression is evaluated with `$d` bound to the JSON string.
fn pages(items: &[(String, String)], src: &mut Src) -> Files {
    let mut f = Files::new();
    f.insert("root.html".into(), b"[{{ insert(\"s\") }}]".to_vec());
    for (i, (value, expr)) in items.iter().enumerate() {
        let data = Val::Obj(vec![("v".into(), Val::Str(value.clone()))]).json(src);
        f.insert(format!("d{}.json", i), data.into_bytes());
        f.insert(
            format!("p{}.html", i),
            format!("{{{{ import($d, \"d{}.json\") }}}}{{{{ begin(\"s\") }}}}{}{{{{ end(\"s\") }}}}", i, expr).into_bytes(),
        );
    }
    f
}

fn output(files: &Files, i: usize) -> Option<String> {
    let b = files.get(&format!("p{}.html", i))?;
    let s = std::str::from_utf8(b).ok()?;
    Some(s.strip_prefix('[')?.strip_suffix(']')?.to_string())
}

/// HTML whose tags are well-formed, with its text.
fn html(src: &mut Src) -> (String, String) {
    let mut h = String::new();
    let mut t = String::new();
    let n = src.usize(0, 3 + src.size);
    for _ in 0..n {
        match src.below(7) {
            0 => h.push_str(src.pick(&[
                "<p>", "</p>", "<br/>", "<b class=\"x\">", "</b>", "<img src='a.png' alt=\"é\">", "<!-- c -->", "<>", "<a\nhref=x>",
            ])),
            1 => {
                let s = src.pick(&["é", "漢字", "😀", "e\u{301}", "&lt;", "&amp;", "ß", "\u{a0}", "'", "\"", "...", "…"]);
                h.push_str(s);
                t.push_str(s);
            }
            2 => {
                let s = src.pick(&[" ", "\n", "  ", ". ", ", "]);
                h.push_str(s);
                t.push_str(s);
            }
            _ => {
                let s = gen::mark(src);
                h.push_str(&s);
                t.push_str(&s);
            }
        }
    }
    (h, t)
}

fn excerpt_ok(t: &str, n: usize, got: &str) -> Result<(), String> {
    let chars = t.chars().count();
    let bytes = t.len();
    // Everything fits with room to spare, however length is measured.
    if bytes < n {
        return if got == t { Ok(()) } else { Err("the whole text fits, so it should be the output".into()) };
    }
    let fits = chars <= n;
    if got == t {
        // Nothing is left out: fine if it fits in characters.
        if fits {
            return Ok(());
        }
    }
    let p = match got.strip_suffix("...") {
        Some(p) => p,
        None => return Err("the text was cut without an ellipsis".into()),
    };
    if !t.starts_with(p) {
        return Err("the output is not the leading text".into());
    }
    if p.chars().count() > n {
        return Err("the output is longer than the limit".into());
    }
    // As much as fits, measured in characters or in bytes.
    if p.chars().count() != n && p.len() < n {
        return Err("the output is shorter than it could be".into());
    }
    if p == t {
        return Err("nothing was left out, but there is an ellipsis".into());
    }
    Ok(())
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let k = src.usize(1, 6);
    let mut items = vec![];
    let mut specs = vec![];
    for _ in 0..k {
        if src.chance(3, 5) {
            let (h, t) = html(src);
            let len = t.chars().count() as i64;
            let n = match src.below(10) {
                0 => 0,
                1 => len,
                2 => (len - 1).max(0),
                3 => len + 1,
                4 => t.len() as i64,
                5 => t.len() as i64 + 1,
                6 => *src.pick(&[1, 2, 3, 100, 1000, 65536]),
                _ => src.range(0, len.max(1)),
            };
            items.push((h.clone(), format!("{{{{ excerpt($d.v, {}) }}}}", n)));
            specs.push((true, h, t, n as usize));
        } else {
            let words = match src.below(6) {
                0 => 0,
                1 => src.range(1, 10),
                2 => 200 * src.range(1, 3),
                3 => 200 * src.range(1, 3) - 1,
                4 => 200 * src.range(1, 3) + 1,
                _ => src.range(0, 900),
            };
            let style = src.below(5);
            let blanks = ["\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{1680}", "\u{202f} "];
            let blank = *src.pick(&blanks);
            let mut s = String::new();
            if style == 3 {
                s.push_str(" \n");
            }
            for i in 0..words {
                if i > 0 {
                    s.push_str(match style {
                        0 => " ",
                        1 if i % 7 == 0 => "\n",
                        2 if i % 5 == 0 => " \t ",
                        3 if i % 3 == 0 => "\r\n\r\n",
                        4 if i % 2 == 0 => blank,
                        _ => " ",
                    });
                }
                s.push_str(match (i + style as i64) % 5 {
                    0 => "word",
                    1 => "<b>x</b>",
                    2 => "é,",
                    3 => "-",
                    _ => "a.b",
                });
            }
            if style >= 2 {
                s.push('\n');
            }
            items.push((s.clone(), "{{ timetoread($d.v) }}".to_string()));
            specs.push((false, s, String::new(), words as usize));
        }
    }
    let files = pages(&items, src);
    o.hash = hash_files(&files);
    o.show = serde_json::json!(items);
    let dir = ctx.fresh();
    write_files(&dir.join("content"), &files);
    match build(&dir.join("content"), &dir.join("out"), config(false)) {
        Built::Panic(p) => o.fail("panic", p),
        Built::Err(e) => o.fail("rejected", e),
        Built::Ok(f) => {
            for (i, (is_excerpt, h, t, n)) in specs.iter().enumerate() {
                let got = match output(&f, i) {
                    Some(g) => g,
                    None => {
                        o.fail("no output", format!("item {}", i));
                        continue;
                    }
                };
                if *is_excerpt {
                    let cut = t.chars().count() > *n;
                    o.nontrivial |= cut && h != t;
                    o.class_if(cut, "cut");
                    o.class_if(!cut, "uncut");
                    o.class_if(!t.is_ascii(), "non-ASCII");
                    if let Err(e) = excerpt_ok(t, *n, &got) {
                        o.fail("excerpt", format!("excerpt of {:?} to {} is {:?}: {}", h, n, got, e));
                    }
                } else {
                    o.class("timetoread");
                    o.nontrivial |= *n >= 200;
                    let want = (*n / 200).max(1).to_string();
                    if got != want {
                        o.fail("timetoread", format!("timetoread of {} words is {:?}, not {}", n, got, want));
                    }
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------

const MONTHS: [&str; 12] = [
    "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December",
];
const DAYS: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];

fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

fn strftime(ts: i64, fmt: &str) -> String {
    let (y, m, d) = civil(ts.div_euclid(86400));
    let s = ts.rem_euclid(86400);
    let (h, mi, se) = (s / 3600, s / 60 % 60, s % 60);
    let wd = (ts.div_euclid(86400) + 4).rem_euclid(7);
    let doy = days(y, m, d) - days(y, 1, 1) + 1;
    let h12 = if h % 12 == 0 { 12 } else { h % 12 };
    let mut out = String::new();
    let mut it = fmt.chars();
    while let Some(c) = it.next() {
        if c != '%' {
            out.push(c);
            continue;
        }
        match it.next().unwrap() {
            'Y' => out += &format!("{:04}", y),
            'y' => out += &format!("{:02}", y % 100),
            'C' => out += &format!("{:02}", y / 100),
            'm' => out += &format!("{:02}", m),
            'd' => out += &format!("{:02}", d),
            'e' => out += &format!("{:2}", d),
            'H' => out += &format!("{:02}", h),
            'I' => out += &format!("{:02}", h12),
            'M' => out += &format!("{:02}", mi),
            'S' => out += &format!("{:02}", se),
            'p' => out += if h < 12 { "AM" } else { "PM" },
            'B' => out += MONTHS[m as usize - 1],
            'b' => out += &MONTHS[m as usize - 1][..3],
            'A' => out += DAYS[wd as usize],
            'a' => out += &DAYS[wd as usize][..3],
            'j' => out += &format!("{:03}", doy),
            'u' => out += &format!("{}", if wd == 0 { 7 } else { wd }),
            'w' => out += &format!("{}", wd),
            'F' => out += &format!("{:04}-{:02}-{:02}", y, m, d),
            'T' => out += &format!("{:02}:{:02}:{:02}", h, mi, se),
            'D' => out += &format!("{:02}/{:02}/{:02}", m, d, y % 100),
            'R' => out += &format!("{:02}:{:02}", h, mi),
            's' => out += &format!("{}", ts),
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'h' => out += &MONTHS[m as usize - 1][..3],
            'k' => out += &format!("{:2}", h),
            'l' => out += &format!("{:2}", h12),
            'P' => out += if h < 12 { "am" } else { "pm" },
            'Z' => out += "UTC",
            'z' => out += "+0000",
            'r' => out += &strftime(ts, "%I:%M:%S %p"),
            'x' => out += &strftime(ts, "%D"),
            'X' => out += &strftime(ts, "%T"),
            'c' => out += &strftime(ts, "%a %b %e %T %Y"),
            'v' => out += &strftime(ts, "%e-%b-%Y"),
            '-' => match it.next().unwrap() {
                'd' => out += &format!("{}", d),
                'm' => out += &format!("{}", m),
                'H' => out += &format!("{}", h),
                'I' => out += &format!("{}", h12),
                'M' => out += &format!("{}", mi),
                c => panic!("-{}", c),
            },
            '%' => out.push('%'),
            c => panic!("{}", c),
        }
    }
    out
}

fn dim(y: i64, m: i64) -> i64 {
    let (y2, m2) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    days(y2, m2, 1) - days(y, m, 1)
}

/// A date in some notation, the instant it denotes, and the name of the notation.
pub(super) fn date(src: &mut Src) -> (String, i64, &'static str) {
    let y = match src.below(6) {
        5 => match src.below(3) {
            0 => src.range(1900, 1970),
            1 => *src.pick(&[1600, 1700, 1900, 1969, 1970, 2400, 2999, 9998]),
            _ => src.range(1601, 2999),
        },
        0 => src.range(1971, 1999),
        1 => *src.pick(&[2000, 2004, 2100, 1972, 2016, 2020, 2024, 1999, 2038]),
        _ => src.range(2000, 2060),
    };
    let m = src.range(1, 12);
    let d = match src.below(6) {
        0 => 1,
        1 => dim(y, m),
        _ => src.range(1, dim(y, m)),
    };
    let (h, mi, s) = match src.below(6) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        2 => (12, 0, 0),
        3 => (src.range(11, 12), src.range(0, 59), 30),
        _ => (src.range(0, 23), src.range(0, 59), src.range(0, 59)),
    };
    let midnight = days(y, m, d) * 86400;
    let ts = midnight + h * 3600 + mi * 60 + s;
    let (oh, om) = *src.pick(&[(0i64, 0i64), (1, 0), (-5, 0), (5, 30), (-3, 30), (14, 0), (-12, 0), (8, 0), (-8, 0), (9, 45)]);
    let off = oh * 3600 + oh.signum() * om * 60;
    let sign = if off < 0 { '-' } else { '+' };
    let ampm = |h: i64| (if h % 12 == 0 { 12 } else { h % 12 }, if h < 12 { "AM" } else { "PM" });
    let mon = MONTHS[m as usize - 1];
    let mon3 = &mon[..3];
    let month = if src.coin() { mon.to_string() } else { mon3.to_string() };
    let wd = DAYS[(days(y, m, d) + 4).rem_euclid(7) as usize];
    let sub = match src.below(3) {
        0 => "",
        1 => ".5",
        _ => ".123456",
    };
    match src.below(23) {
        20 => (format!("{:04}-{}-{:02}", y, mon3, d), midnight, "year, month name, day"),
        21 => (format!("{:04}.{:02}.{:02}", y, m, d), midnight, "dots, year first"),
        22 => (format!("{:02}.{:02}.{:04}", m, d, y), midnight, "dots, month first"),
        0 => (format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}Z", y, m, d, h, mi, s, sub), ts, "RFC 3339"),
        1 => (
            format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}{:02}:{:02}", y, m, d, h, mi, s, sub, sign, oh.abs(), om),
            ts - off,
            "RFC 3339 with offset",
        ),
        2 => (format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", &wd[..3], d, mon3, y, h, mi, s), ts, "RFC 2822"),
        3 => (
            format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} {}{:02}{:02}", &wd[..3], d, mon3, y, h, mi, s, sign, oh.abs(), om),
            ts - off,
            "RFC 2822 with offset",
        ),
        4 | 5 | 6 => (format!("{:04}-{:02}-{:02}", y, m, d), midnight, "ISO date"),
        7 => (format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}", y, m, d, h, mi, s, sub), ts, "ISO date and time"),
        8 => (format!("{:04}-{:02}-{:02} {:02}:{:02}", y, m, d, h, mi), ts - s, "ISO date and time, no seconds"),
        9 => {
            let (x, p) = ampm(h);
            (format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02} {}", y, m, d, x, mi, s, p), ts, "ISO date, 12-hour time")
        }
        10 if (0..10_000_000_000).contains(&ts) => (format!("{:010}", ts), ts, "Unix seconds"),
        11 if (0..10_000_000_000).contains(&ts) => (format!("{:010}{:03}", ts, src.range(0, 999)), ts, "Unix milliseconds"),
        12 => (format!("{} {}, {}", month, d, y), midnight, "month name, day, year"),
        13 => (format!("{} {} {}", d, month, y), midnight, "day, month name, year"),
        14 => {
            let (x, p) = ampm(h);
            (format!("{} {}, {} {}:{:02}:{:02} {}", month, d, y, x, mi, s, p), ts, "month name and 12-hour time")
        }
        15 => (format!("{} {}, {} {:02}:{:02}:{:02}", month, d, y, h, mi, s), ts, "month name and time"),
        16 => (format!("{} {} {} {:02}:{:02}:{:02}", d, month, y, h, mi, s), ts, "day, month name and time"),
        17 => (format!("{:02}/{:02}/{:04}", m, d, y), midnight, "slashes, month first"),
        18 => (format!("{:04}/{:02}/{:02}", y, m, d), midnight, "slashes, year first"),
        _ => (
            format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02} {}{:02}:{:02}", y, m, d, h, mi, s, sign, oh.abs(), om),
            ts - off,
            "ISO date and time with offset",
        ),
    }
}

/// A time of day, a day without a year, or a month without a day: they denote no instant.
pub(super) fn undated(src: &mut Src) -> String {
    let (h, m, s) = (src.range(0, 23), src.range(0, 59), src.range(0, 59));
    let (h12, half) = (src.range(1, 12), *src.pick(&["AM", "PM", "am", "pm"]));
    let zone = *src.pick(&["UTC", "GMT", "PST", "+08:00", "-0300", "Z"]);
    let month = &MONTHS[src.usize(0, 11)][..3];
    let day = src.range(1, 28);
    match src.below(10) {
        0 => format!("{:02}:{:02}", h, m),
        1 => format!("{:02}:{:02}:{:02}", h, m, s),
        2 => format!("{}:{:02} {}", h12, m, half),
        3 => format!("{}:{:02}:{:02} {}", h12, m, s, half),
        4 => format!("{:02}:{:02} {}", h, m, zone),
        5 => format!("{:02}:{:02}:{:02} {}", h, m, s, zone),
        6 => format!("{} {} at {}:{:02} {}", month, day, h12, m, half),
        7 => format!("{} {} {:02}:{:02}:{:02}", month, day, h, m, s),
        8 => format!("{:02}:{:02}{} {}", h12, m, half, zone),
        _ => format!("{}.{:02}", src.range(1990, 2030), src.range(1, 12)),
    }
}

const SPECS: &[&str] = &[
    "%Y", "%y", "%C", "%m", "%d", "%e", "%H", "%I", "%M", "%S", "%p", "%B", "%b", "%A", "%a", "%j", "%u", "%w", "%F", "%T",
    "%D", "%R", "%s", "%%", "%n", "%t", "%h", "%k", "%l", "%P", "%Z", "%z", "%r", "%x", "%X", "%c", "%v", "%-d", "%-m", "%-H", "%-I", "%-M",
];

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut o = Outcome::new();
    let k = src.usize(1, 6);
    let mut items = vec![];
    let mut want: Vec<Option<String>> = vec![];
    // One faulty item at most: a fault fails the whole build.
    let faulty = src.chance(1, 5);
    for i in 0..k {
        let (text, ts, kind) = date(src);
        let mut fmt = String::new();
        if src.chance(1, 3) {
            fmt.push_str("%Y-%m-%d %H:%M:%S");
        }
        let n = src.usize(1, 4);
        for _ in 0..n {
            fmt.push_str(src.pick(SPECS));
            fmt.push_str(src.pick(&["", " ", "-", "é", ", ", "/", "}", "<", ")"]));
        }
        if faulty && i == 0 {
            let (t, f) = if src.coin() {
                let t = match src.below(4) {
                    3 => undated(src),
                    0 => src
                        .pick(&[
                            "", " ", "hello", "not a date", "2020-13-01", "2020-02-30", "2021-02-29", "99/99/9999", "Foo 12, 2020",
                            "2020-01-01T25:00:00Z", "12 Blah 2020", "2020", "-", "{}", "2020-01", "2020-1-1T", "é", "32 January 2020",
                            "2020-01-01 25:61:00", "1e9", "0x10", "tomorrow",
                        ])
                        .to_string(),
                    1 => format!("{}{}", gen::word(src), gen::word(src)),
                    _ => format!("x{}", text),
                };
                (t, fmt)
            } else {
                let f = format!("{}{}", fmt, src.pick(&["%", "%!", "%Q", "%é", "%_", "%-", "%E", "%5", "%:"]));
                (text, f)
            };
            items.push((t, format!("{{{{ dateformat($d.v, \"{}\") }}}}", f)));
            want.push(None);
            o.class("not a date or not a format");
            continue;
        }
        o.class(kind);
        items.push((text, format!("{{{{ dateformat($d.v, \"{}\") }}}}", fmt)));
        want.push(Some(strftime(ts, &fmt)));
    }
    let files = pages(&items, src);
    o.hash = hash_files(&files);
    o.show = serde_json::json!(items);
    o.nontrivial = true;
    let dir = ctx.fresh();
    write_files(&dir.join("content"), &files);
    match build(&dir.join("content"), &dir.join("out"), config(false)) {
        Built::Panic(p) => o.fail("panic", p),
        Built::Err(e) => {
            if !faulty {
                o.fail("rejected", format!("{}\nexpected {:?}", e, want));
            }
        }
        Built::Ok(f) => {
            if faulty {
                o.fail("accepted", format!("{:?} is accepted: {:?}", items[0], output(&f, 0)));
                return o;
            }
            for (i, w) in want.iter().enumerate() {
                let got = output(&f, i);
                if got != *w {
                    o.fail("date", format!("{:?} gives {:?}, not {:?}", items[i], got, w));
                }
            }
        }
    }
    o
}
