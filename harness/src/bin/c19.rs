//! C19: WKT parsing is total and rejects what is malformed or unsupported.
use magog::serde::wkt::parse_wkt;
use mc::engine::*;
use mc::ensure;
use mc::wk::*;

// --- reference lexer and recognizer ----------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum T {
    Open,
    Close,
    Comma,
    Num,
    /// a chunk whose reading as a number is not specified ("+-1", "1e", digits of other scripts)
    Odd,
    Word(String),
}
fn is_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let mut digits = i - d0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let d1 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        digits += i - d1;
    }
    if digits == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let d2 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == d2 {
            return false;
        }
    }
    i == b.len()
}
fn lex(s: &str) -> Vec<T> {
    let mut t = vec![];
    let mut chunk = String::new();
    let flush = |c: &mut String, t: &mut Vec<T>| {
        if !c.is_empty() {
            let x = std::mem::take(c);
            let signs = x.trim_start_matches('+');
            if is_number(&x) {
                t.push(T::Num);
            } else if is_number(signs) || (x.starts_with(&['+', '-'][..]) && matches!(x.trim_start_matches(&['+', '-'][..]).to_ascii_lowercase().as_str(), "nan" | "inf" | "infinity")) {
                t.push(T::Odd);
            } else {
                t.push(T::Word(x));
            }
        }
    };
    for c in s.chars() {
        match c {
            ' ' | '\t' | '\n' | '\r' => flush(&mut chunk, &mut t),
            '(' | ')' | ',' => {
                flush(&mut chunk, &mut t);
                t.push(match c {
                    '(' => T::Open,
                    ')' => T::Close,
                    _ => T::Comma,
                });
            }
            _ => chunk.push(c),
        }
    }
    flush(&mut chunk, &mut t);
    t
}
const BODY: [usize; 6] = [0, 1, 2, 2, 2, 3]; // parenthesis depth: 0 = one position
/// Content at depth d for type `k`; returns the end.
fn content(t: &[T], mut i: usize, k: usize, d: usize) -> Option<usize> {
    let pos = |t: &[T], i: usize| -> Option<usize> {
        if i + 1 < t.len() && matches!(t[i], T::Num | T::Odd) && matches!(t[i + 1], T::Num | T::Odd) { Some(i + 2) } else { None }
    };
    match (k, d) {
        (_, 0) => pos(t, i),
        (3, 1) => pos(t, i),
        (_, 1) => {
            i = pos(t, i)?;
            while t.get(i) == Some(&T::Comma) {
                i = pos(t, i + 1)?;
            }
            Some(i)
        }
        _ => {
            i = body(t, i, k, d - 1)?;
            while t.get(i) == Some(&T::Comma) {
                i = body(t, i + 1, k, d - 1)?;
            }
            Some(i)
        }
    }
}
fn body(t: &[T], i: usize, k: usize, d: usize) -> Option<usize> {
    match t.get(i)? {
        T::Word(w) if w.eq_ignore_ascii_case("EMPTY") => Some(i + 1),
        T::Open => {
            let j = content(t, i + 1, k, d)?;
            if t.get(j) == Some(&T::Close) { Some(j + 1) } else { None }
        }
        _ => None,
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Blank,
    Bad,
    Good(usize),
    /// a complete geometry followed by something, or an unspecified number
    Open_,
}
fn recognize(s: &str) -> Verdict {
    // a NUL ends the text for the tokenizer: what it means is not specified beyond "malformed"
    let t = lex(s);
    if t.is_empty() {
        return Verdict::Blank;
    }
    let k = match &t[0] {
        T::Word(w) => match KINDS.iter().position(|k| k.eq_ignore_ascii_case(w)) {
            Some(k) => k,
            None => return Verdict::Bad,
        },
        _ => return Verdict::Bad,
    };
    match body(&t, 1, k, BODY[k]) {
        None => Verdict::Bad,
        Some(e) if e == t.len() && !t.contains(&T::Odd) => Verdict::Good(k),
        _ => Verdict::Open_,
    }
}
fn type_ok(k: usize, w: &W) -> bool {
    match (k, w) {
        (0, W::Point(_)) | (0, W::Nothing) | (1, W::Line(_)) | (2, W::Poly(_)) | (2, W::Nothing) => true,
        (3, W::MPoint(_)) | (4, W::MLine(_)) | (5, W::MPoly(_)) => true,
        _ => false,
    }
}
fn judge(cx: &mut Cx, s: &str) -> R {
    cx.note(|| format!("{:?}", s.chars().take(300).collect::<String>()));
    cx.op(1);
    let v = recognize(s);
    let r = parse_wkt(s);
    match v {
        Verdict::Bad => {
            cx.outcome(0);
            ensure!(r.is_err(), "malformed text {:?} is accepted: {:?}", s, r);
        }
        Verdict::Good(k) => {
            cx.outcome(1);
            match &r {
                Ok(g) => ensure!(g.len() == 1 && type_ok(k, &read(&g[0])), "{:?} yields {:?}", s, g),
                Err(e) => return Err(Fail::new(format!("well-formed text {:?} is rejected: {}", s, e))),
            }
        }
        Verdict::Blank => {
            cx.outcome(2);
            ensure!(matches!(&r, Ok(g) if g.is_empty()), "blank text yields {:?}", r);
        }
        Verdict::Open_ => cx.outcome(2),
    }
    Ok(())
}

const BASES: [&str; 16] = [
    "POINT(1 2)", "POINT EMPTY", "LINESTRING(1 2,3 4)", "LINESTRING EMPTY", "POLYGON((0 0,1 0,0 1,0 0),(2 2,3 3))", "POLYGON EMPTY",
    "MULTIPOINT((1 2),(3 4))", "MULTILINESTRING((1 2,3 4),(5 6))", "MULTIPOLYGON(((1 2,3 4),(5 6)),((7 8)))", "MULTIPOLYGON EMPTY",
    "POINT(-1.5e3 .25)", "linestring ( +1 -2 , 3. 4 )", "MULTIPOINT(EMPTY,(1 2))", "MULTIPOINT EMPTY", "MULTILINESTRING(EMPTY)", "GEOMETRYCOLLECTION(POINT(1 2))",
];

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["rejected", "accepted"];
    let toks = ["(", ")", ",", "1", "EMPTY", "x"];
    let len = if th { 9 } else { 8 };
    fams.push(Family {
        name: "tokens",
        bound: format!("each type name followed by every sequence of up to {} tokens from ( ) , 1 EMPTY x", len),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut s = KINDS[cx.choose(6)].to_string();
            for _ in 0..len {
                let k = cx.choose(toks.len() + 1);
                if k == toks.len() {
                    break;
                }
                s.push(' ');
                s.push_str(toks[k]);
            }
            judge(cx, &s)
        }),
    });
    let words = ["POINT", "POLYGON", "GEOMETRYCOLLECTION", "(", ")", ",", "2", "EMPTY"];
    let wl = if th { 8 } else { 7 };
    fams.push(Family {
        name: "words",
        bound: format!("every sequence of up to {} tokens from {:?}", wl, words),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut s = String::new();
            for _ in 0..wl {
                let k = cx.choose(words.len() + 1);
                if k == words.len() {
                    break;
                }
                s.push_str(words[k]);
                s.push(' ');
            }
            judge(cx, &s)
        }),
    });
    let chars: [char; 12] = ['P', '(', ')', ',', '1', ' ', '-', '.', 'e', '\u{e9}', '\0', '\u{0663}'];
    let cl = if th { 8 } else { 7 };
    fams.push(Family {
        name: "chars",
        bound: format!("every text of up to {} characters from {:?}", cl, chars),
        outcomes: &["rejected", "", "blank or unspecified"],
        f: Box::new(move |cx| {
            let mut s = String::new();
            for _ in 0..cl {
                let k = cx.choose(chars.len() + 1);
                if k == chars.len() {
                    break;
                }
                s.push(chars[k]);
            }
            cx.outcome(1);
            judge(cx, &s)
        }),
    });
    let inner: [&str; 9] = ["1", "-", ".", "+", "e", " ", ",", ")", "\0"];
    let il = if th { 8 } else { 7 };
    fams.push(Family {
        name: "numberchars",
        bound: format!("POINT( followed by every text of up to {} characters from {:?}, closed or not; the same in a linestring", il, inner),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut m = String::new();
            for _ in 0..il {
                let k = cx.choose(inner.len() + 1);
                if k == inner.len() {
                    break;
                }
                m.push_str(inner[k]);
            }
            let s = match cx.choose(3) {
                0 => format!("POINT({})", m),
                1 => format!("LINESTRING(3 4,{})", m),
                _ => format!("POINT({}", m),
            };
            // a NUL ends the text as far as the tokenizer is concerned
            if let Some(i) = s.find('\0') {
                cx.note(|| format!("{:?}", s));
                cx.op(1);
                let r = parse_wkt(&s);
                if recognize(&s[..i]) == Verdict::Bad {
                    cx.outcome(0);
                    ensure!(r.is_err(), "malformed text {:?} is accepted: {:?}", s, r);
                }
                return Ok(());
            }
            judge(cx, &s)
        }),
    });
    let edits: [&str; 22] = ["(", ")", ",", " ", "1", "-", "+", ".", "e", "E", "x", "EMPTY", "POINT", "((", "))", ",,", "\0", "\u{e9}", "\u{1F30D}", "nan", "inf", "\n"];
    let two = if th { 3 } else { 2 };
    fams.push(Family {
        name: "edits",
        bound: format!("{} texts with {} edit{} (delete, insert, replace by one of {} strings, exchange neighbours, cut) at every place", BASES.len(), two, if two > 1 { "s" } else { "" }, edits.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut s: Vec<char> = cx.pick(&BASES).chars().collect();
            for _ in 0..two {
                let n = s.len();
                let at = cx.choose(n + 1);
                match cx.choose(5) {
                    0 => {
                        if at < n {
                            s.remove(at);
                        }
                    }
                    1 => {
                        let e = *cx.pick(&edits);
                        let tail = s.split_off(at);
                        s.extend(e.chars());
                        s.extend(tail);
                    }
                    2 => {
                        let e = *cx.pick(&edits);
                        let tail = s.split_off(at);
                        s.extend(e.chars());
                        s.extend(tail.iter().skip(1));
                    }
                    3 => {
                        if at + 1 < n {
                            s.swap(at, at + 1);
                        }
                    }
                    _ => s.truncate(at),
                }
            }
            let s: String = s.into_iter().collect();
            if s.contains('\0') {
                cx.note(|| format!("{:?}", s));
                cx.op(1);
                let r = parse_wkt(&s);
                let i = s.find('\0').unwrap();
                if recognize(&s[..i]) == Verdict::Bad {
                    ensure!(r.is_err(), "malformed text {:?} is accepted: {:?}", s, r);
                }
                return Ok(());
            }
            judge(cx, &s)
        }),
    });
    let names: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for k in KINDS.iter().chain(["GEOMETRYCOLLECTION"].iter()) {
            for i in 0..k.len() {
                v.push(k[..i].to_string()); // proper prefix
                v.push(format!("{}{}", &k[..i], &k[i + 1..])); // one letter missing
                v.push(format!("{}X{}", &k[..i], &k[i..])); // one letter too many
                v.push(format!("{}_{}", &k[..i], &k[i + 1..])); // one letter wrong
            }
            v.push(format!("{}S", k));
            v.push(format!("{}Z", k));
            v.push(format!("{} Z", k));
            v.push(format!("{} M", k));
            v.push(format!("SRID=4326;{}", k));
            v.push(format!("{}\u{301}", k));
            v.push(k.replace('O', "\u{41e}"));
            v.push(format!("({})", k));
            v.push(format!("{}{}", k, k));
            v.push(format!("1 {}", k));
            v.push(format!("-{}", k));
            v.push(format!(",{}", k));
        }
        v.extend(["GEOMETRYCOLLECTION", "geometrycollection", "LINEARRING", "TRIANGLE", "TIN", "CIRCULARSTRING", "CURVEPOLYGON", "POLYHEDRALSURFACE", "EMPTY", "GEOMETRY", "NULL", "{\"type\":\"Point\"}", "1", "nan", "inf", "-", "..", "1.2.3", "\0", "\u{feff}POINT"].map(String::from));
        v
    };
    let bodies: [&str; 12] = ["", " EMPTY", "(1 2)", "((1 2))", "(1 2,3 4)", "((1 2,3 4))", "(((1 2,3 4)))", "(POINT(1 2))", "(POINT(1 2),LINESTRING(1 2,3 4))", " (1 2 3)", "()", "("];
    let ns = names.clone();
    fams.push(Family {
        name: "names",
        bound: format!("{} wrong, unsupported, decorated or misspelled type names with {} bodies", names.len(), bodies.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.pick(&ns);
            let s = format!("{}{}", n, cx.pick(&bodies));
            judge(cx, &s)
        }),
    });
    let depth = if th { 300 } else { 120 };
    fams.push(Family {
        name: "nesting",
        bound: format!("0-{} opening parentheses or nested collections, with 0, 1, all or too many closing ones, after each type name", depth),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(depth + 1);
            let k = cx.choose(8);
            let close = match cx.choose(4) {
                0 => 0,
                1 => 1,
                2 => n,
                _ => n + 1,
            };
            let s = if k < 6 {
                format!("{}{}1 2{}", KINDS[k], "(".repeat(n), ")".repeat(close))
            } else if k == 6 {
                format!("{}POINT(1 2){}", "GEOMETRYCOLLECTION(".repeat(n.max(1)), ")".repeat(close))
            } else {
                format!("{}{}", "(".repeat(n), ")".repeat(close))
            };
            judge(cx, &s)
        }),
    });
    let big = if th { 20000 } else { 2000 };
    fams.push(Family {
        name: "long",
        bound: format!("texts of {} positions, parts or characters with one thing wrong at the start, in the middle or at the end", big),
        outcomes: out,
        f: Box::new(move |cx| {
            let part = *cx.pick(&["1 2", "(1 2)", "(1 2,3 4)", "((1 2))", "1", "1 2 3", "EMPTY", "(EMPTY)"]);
            let k = cx.choose(6);
            let mut v: Vec<&str> = vec![part; big];
            let at = *cx.pick(&[0, 1, big / 2, big - 2, big - 1]);
            v[at] = *cx.pick(&[part, "", "1", "()", "(1 2", "1 2)", "x y", "1 2 3", "EMPTY"]);
            let s = format!("{}({})", KINDS[k], v.join(","));
            cx.note(|| format!("{} with {} times {:?}, number {} being {:?}", KINDS[k], big, part, at, v[at]));
            cx.op(1);
            let w = recognize(&s);
            let r = parse_wkt(&s);
            match w {
                Verdict::Good(_) => {
                    cx.outcome(1);
                    ensure!(r.is_ok(), "rejected");
                }
                Verdict::Bad => {
                    cx.outcome(0);
                    ensure!(r.is_err(), "accepted");
                }
                _ => {}
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C19",
        assumptions: vec![
            "text after a complete geometry, numbers with more than one sign, and a signed nan or inf may be accepted or rejected",
            "collections nested thousands deep (which exhaust the stack of the parser this library delegates to) are outside the bound",
        ],
        families: fams,
    })
}
