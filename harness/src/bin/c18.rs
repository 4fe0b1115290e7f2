//! C18: well-formed WKT parses to exactly the geometry it spells.
use magog::serde::wkt::parse_wkt;
use mc::engine::*;
use mc::ensure;
use mc::numbers::NUMBERS;
use mc::wk::*;

fn parses(cx: &mut Cx, text: &str, want: &W) -> R {
    cx.op(1);
    let short = || if text.len() > 300 { format!("{}... ({} bytes)", &text[..200], text.len()) } else { format!("{:?}", text) };
    match parse_wkt(text) {
        Err(e) => Err(Fail::new(format!("{} is rejected: {:?}", short(), e))),
        Ok(v) => {
            ensure!(v.len() == 1, "{} yields {} geometries", short(), v.len());
            let got = read(&v[0]);
            let ok = exactly(&got, want);
            if !ok {
                let (mut g, mut w) = (format!("{:?}", got), format!("{:?}", want));
                g.truncate(600);
                w.truncate(600);
                return Err(Fail::new(format!("{} yields {} instead of {}", short(), g, w)));
            }
            Ok(())
        }
    }
}
/// Positions numbered in order of appearance.
struct Ctr(i64);
impl Ctr {
    fn q(&mut self) -> Q {
        self.0 += 1;
        ((self.0 * 2) as f64, -(self.0 * 2 + 1) as f64 / 2.)
    }
    fn ring(&mut self, n: usize) -> Vec<Q> {
        (0..n).map(|_| self.q()).collect()
    }
}
fn num(x: f64) -> String {
    format!("{}", x)
}
/// A geometry of the kind with small part counts, everything chosen.
fn some_geometry(cx: &mut Cx, kind: usize, parts: usize, len: usize) -> W {
    let mut c = Ctr(0);
    match kind {
        0 => W::Point(c.q()),
        1 => W::Line(c.ring(1 + cx.choose(len))),
        3 => W::MPoint(c.ring(1 + cx.choose(len))),
        2 | 4 => {
            let n = 1 + cx.choose(parts);
            let v = (0..n).map(|_| { let k = 1 + cx.choose(len); c.ring(k) }).collect();
            if kind == 2 { W::Poly(v) } else { W::MLine(v) }
        }
        _ => {
            let n = 1 + cx.choose(parts);
            W::MPoly((0..n).map(|_| { let m = 1 + cx.choose(parts.min(3)); (0..m).map(|_| { let k = 1 + cx.choose(len.min(3)); c.ring(k) }).collect() }).collect())
        }
    }
}
fn fixed(kind: usize) -> W {
    let mut c = Ctr(3);
    match kind {
        0 => W::Point(c.q()),
        1 => W::Line(c.ring(2)),
        2 => W::Poly(vec![c.ring(2), c.ring(1)]),
        3 => W::MPoint(c.ring(2)),
        4 => W::MLine(vec![c.ring(1), c.ring(2)]),
        _ => W::MPoly(vec![vec![c.ring(1)], vec![c.ring(1), c.ring(1)]]),
    }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let (pn, ln) = if th { (6, 5) } else { (5, 4) };
    fams.push(Family {
        name: "structure",
        bound: format!("every point, linestring and multipoint of up to {} positions, polygon and multilinestring of up to {} parts of 1-{} positions, multipolygon of up to 3 polygons of 1-3 rings of 1-3 positions; positions numbered, all equal, or alternating between two; 3 spellings", ln, pn, ln),
        outcomes: &["point", "line", "polygon", "multipoint", "multiline", "multipolygon"],
        f: Box::new(move |cx| {
            let kind = cx.choose(6);
            cx.outcome(kind);
            let mut w = some_geometry(cx, kind, if kind == 5 { 3 } else { pn }, ln);
            // positions all different, or from a repeating list of 1 or 2
            let k = cx.choose(3);
            if k > 0 {
                let mut i = 0;
                let mut put = |q: &mut Q| {
                    *q = [(7., -0.5), (-2., 7.)][i % k];
                    i += 1;
                };
                match &mut w {
                    W::Nothing => {}
                    W::Point(q) => put(q),
                    W::Line(l) | W::MPoint(l) => l.iter_mut().for_each(put),
                    W::Poly(p) | W::MLine(p) => p.iter_mut().flatten().for_each(put),
                    W::MPoly(m) => m.iter_mut().flatten().flatten().for_each(put),
                }
            }
            let t = tokens(&w, &mut num);
            let s = plain(&t);
            cx.note(|| s.clone());
            parses(cx, &s, &w)?;
            // everything separated, lower case
            parses(cx, &t.join(" ").to_lowercase(), &w)?;
            // as tight as possible
            let mut tight = String::new();
            for (i, x) in t.iter().enumerate() {
                if i > 0 && needs_space(&t[i - 1], x) {
                    tight.push(' ');
                }
                tight.push_str(x);
            }
            parses(cx, &tight, &w)
        }),
    });
    const WS: [&str; 7] = ["", " ", "\t", "\n", "\r\n", "  ", " \t\r\n "];
    let dev = if th { 3 } else { 2 };
    fams.push(Family {
        name: "whitespace",
        bound: format!("one text of each type: all gaps (also leading and trailing) filled with one of {:?} where permitted, and up to {} gaps filled with another", WS, dev),
        outcomes: &[],
        f: Box::new(move |cx| {
            let kind = cx.choose(6);
            let w = fixed(kind);
            let t = tokens(&w, &mut num);
            let base = *cx.pick(&WS);
            let mut gaps: Vec<&str> = vec![base; t.len() + 1];
            let mut from = 0;
            for _ in 0..dev {
                let g = from + cx.choose(t.len() + 2 - from);
                if g > t.len() {
                    break;
                }
                gaps[g] = *cx.pick(&WS);
                from = g + 1;
                if from > t.len() {
                    break;
                }
            }
            let mut s = String::new();
            for i in 0..=t.len() {
                if i > 0 && i < t.len() && needs_space(&t[i - 1], &t[i]) && gaps[i].is_empty() {
                    s.push(' ');
                } else {
                    s.push_str(gaps[i]);
                }
                if i < t.len() {
                    s.push_str(&t[i]);
                }
            }
            cx.note(|| format!("{:?}", s));
            parses(cx, &s, &w)
        }),
    });
    fams.push(Family {
        name: "case",
        bound: "every upper/lower case pattern of each of the six type names, with content and with EMPTY (all patterns of EMPTY too, for the uniform patterns of the type name)".into(),
        outcomes: &["empty", "content"],
        f: Box::new(move |cx| {
            let kind = cx.choose(6);
            let content = cx.flip();
            cx.outcome(content as usize);
            let k = KINDS[kind];
            let word = |cx: &mut Cx, k: &str, free: bool| -> String {
                if free {
                    k.chars().map(|c| if cx.flip() { c.to_ascii_lowercase() } else { c }).collect()
                } else if cx.flip() { k.to_lowercase() } else { k.to_string() }
            };
            let (w, s) = if content {
                let w = fixed(kind);
                let t = tokens(&w, &mut num);
                let s = format!("{}{}", word(cx, k, true), &plain(&t)[k.len()..]);
                (w, s)
            } else {
                let w = match kind {
                    0 | 2 => W::Nothing,
                    1 => W::Line(vec![]),
                    3 => W::MPoint(vec![]),
                    4 => W::MLine(vec![]),
                    _ => W::MPoly(vec![]),
                };
                let free = cx.flip();
                let a = word(cx, k, !free);
                (w, format!("{} {}", a, word(cx, "EMPTY", free)))
            };
            cx.note(|| s.clone());
            parses(cx, &s, &w)
        }),
    });
    fams.push(Family {
        name: "numbers",
        bound: format!("each pair of {} number texts (signs, leading and trailing zeros and points, exponents, denormals, halfway cases, 25 digits) as x and y of a point; each at every coordinate of a text of each type", NUMBERS.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            if cx.flip() {
                let a = cx.pick(NUMBERS);
                let b = cx.pick(NUMBERS);
                let s = format!("POINT({} {})", a.0, b.0);
                cx.note(|| s.clone());
                return parses(cx, &s, &W::Point((f64::from_bits(a.1), f64::from_bits(b.1))));
            }
            let w = fixed(cx.choose(6));
            let mut count = 0;
            tokens(&w, &mut |x| { count += 1; num(x) });
            let at = cx.choose(count);
            let (txt, bits) = *cx.pick(NUMBERS);
            let mut i = 0;
            let t = tokens(&w, &mut |x| { i += 1; if i - 1 == at { txt.to_string() } else { num(x) } });
            let s = plain(&t);
            let mut i = 0;
            let mut put = |q: &mut Q| {
                if i == at { q.0 = f64::from_bits(bits) }
                if i + 1 == at { q.1 = f64::from_bits(bits) }
                i += 2;
            };
            let mut w = w;
            match &mut w {
                W::Nothing => {}
                W::Point(q) => put(q),
                W::Line(l) | W::MPoint(l) => l.iter_mut().for_each(put),
                W::Poly(p) | W::MLine(p) => p.iter_mut().flatten().for_each(put),
                W::MPoly(m) => m.iter_mut().flatten().flatten().for_each(put),
            }
            cx.note(|| s.clone());
            parses(cx, &s, &w)
        }),
    });
    let lim = if th { 60 } else { 24 };
    fams.push(Family {
        name: "dyadic",
        bound: format!("every number k/2^j, |k| <= {}, j <= 20, written out exactly in decimal, with and without exponent, as x, y and first position of a linestring", lim),
        outcomes: &[],
        f: Box::new(move |cx| {
            let k = cx.choose(2 * lim + 1) as i64 - lim as i64;
            let j = cx.choose(21) as u32;
            let v = k as f64 / (1u64 << j) as f64;
            // k * 5^j / 10^j
            let n = (k.unsigned_abs() as u128) * 5u128.pow(j);
            let d = format!("{:0w$}", n, w = j as usize + 1);
            let (a, b) = d.split_at(d.len() - j as usize);
            let sg = if k < 0 { "-" } else { "" };
            let s1 = if b.is_empty() { format!("{}{}", sg, a) } else { format!("{}{}.{}", sg, a, b) };
            let s2 = format!("{}{}e-{}", sg, n, j);
            let s = format!("LINESTRING({} {},{} {})", s1, s2, s2, s1);
            cx.note(|| s.clone());
            parses(cx, &s, &W::Line(vec![(v, v), (v, v)]))
        }),
    });
    let sizes: Vec<usize> = if th { (1..=70).chain([127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 20000, 65535, 65536, 65537, 70000]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097, 65536, 65537]).collect() };
    fams.push(Family {
        name: "long",
        bound: format!("{:?} positions, rings, parts or polygons of each type", sizes),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes);
            let mut c = Ctr(0);
            let w = match cx.choose(11) {
                0 => W::Line(c.ring(n)),
                1 => W::MPoint(c.ring(n)),
                2 => W::Poly(vec![c.ring(n)]),
                3 => W::Poly((0..n).map(|_| c.ring(2)).collect()),
                4 => W::Poly(vec![c.ring(1), c.ring(n), c.ring(2)]),
                5 => W::MLine((0..n).map(|_| c.ring(1)).collect()),
                6 => W::MLine(vec![c.ring(2), c.ring(n)]),
                7 => W::MPoly((0..n).map(|_| vec![c.ring(1)]).collect()),
                8 => W::MPoly(vec![(0..n).map(|_| c.ring(1)).collect(), vec![c.ring(1)]]),
                9 => W::MPoly(vec![vec![c.ring(1)], vec![c.ring(n)]]),
                _ => W::MPoly((0..n).map(|i| (0..1 + i % 3).map(|j| c.ring(1 + (i + j) % 2)).collect()).collect()),
            };
            let s = plain(&tokens(&w, &mut num));
            cx.note(|| s.chars().take(100).collect());
            parses(cx, &s, &w)
        }),
    });
    let (rl, rn) = if th { (8, 24) } else { (6, 12) };
    fams.push(Family {
        name: "repeats",
        bound: format!("lists of 1..={} parts, each one of two rings of 1..={} positions (different, the second reversed, or different in the last coordinate only), as rings, lines, polygons or the rings of the second of two polygons; and every list of up to 9 positions out of two", rl, rn),
        outcomes: &[],
        f: Box::new(move |cx| {
            let kind = cx.choose(8);
            let w = if kind < 3 {
                let n = 1 + cx.choose(9);
                let v: Vec<Q> = (0..n).map(|_| *cx.pick(&[(7., -0.5), (-2., 7.)])).collect();
                match kind {
                    0 => W::Line(v),
                    1 => W::MPoint(v),
                    _ => W::Poly(vec![v]),
                }
            } else {
                let n = 1 + cx.choose(rn);
                let a: Vec<Q> = (0..n).map(|i| (i as f64 * 1.5, ((i * i) % 7) as f64)).collect();
                let mut b = a.clone();
                match cx.choose(3) {
                    0 => b.reverse(),
                    1 => b[n - 1].1 += 0.25,
                    _ => b.iter_mut().for_each(|q| q.0 += 100.),
                }
                let m = 1 + cx.choose(rl);
                let v: Vec<Vec<Q>> = (0..m).map(|_| if cx.flip() { b.clone() } else { a.clone() }).collect();
                match kind {
                    3 => W::Poly(v),
                    4 => W::MLine(v),
                    5 => W::MPoly(v.into_iter().map(|r| vec![r]).collect()),
                    6 => W::MPoly(vec![vec![a], v]),
                    _ => W::Poly(std::iter::once(vec![(9., 9.), (8., 8.)]).chain(v).collect()),
                }
            };
            let s = plain(&tokens(&w, &mut num));
            cx.note(|| s.clone());
            parses(cx, &s, &w)
        }),
    });
    // empty parts inside: dropped or kept, but nothing else changes
    let np = if th { 5 } else { 4 };
    fams.push(Family {
        name: "emptyparts",
        bound: format!("multipoints, multilinestrings, multipolygons with up to {} parts, any of them EMPTY: the others come out in order", np),
        outcomes: &["some empty", "none empty"],
        f: Box::new(move |cx| {
            let kind = 3 + cx.choose(3);
            let n = 1 + cx.choose(np);
            let mut c = Ctr(0);
            let v: Vec<Vec<Q>> = (0..n).map(|_| if cx.flip() { c.ring(if kind == 3 { 1 } else { 2 }) } else { vec![] }).collect();
            cx.outcome(v.iter().all(|l| !l.is_empty()) as usize);
            let part = |l: &Vec<Q>| {
                if l.is_empty() { return "EMPTY".to_string(); }
                let s = l.iter().map(|q| format!("{} {}", q.0, q.1)).collect::<Vec<_>>().join(",");
                if kind == 5 { format!("(({}))", s) } else { format!("({})", s) }
            };
            let s = format!("{}({})", KINDS[kind], v.iter().map(part).collect::<Vec<_>>().join(","));
            cx.note(|| s.clone());
            cx.op(1);
            let g = match parse_wkt(&s) {
                Ok(g) if g.len() == 1 => g,
                r => return Err(Fail::new(format!("{} yields {:?}", s, r))),
            };
            let full: Vec<Vec<Q>> = v.iter().filter(|l| !l.is_empty()).cloned().collect();
            let ok = match read(&g[0]) {
                W::MPoint(l) => kind == 3 && l == full.concat(),
                W::MLine(p) => kind == 4 && p.into_iter().filter(|l| !l.is_empty()).collect::<Vec<_>>() == full,
                W::MPoly(m) => kind == 5 && m.into_iter().map(|p| p.into_iter().filter(|l| !l.is_empty()).collect::<Vec<_>>()).filter(|p| !p.is_empty()).collect::<Vec<_>>() == full.iter().map(|l| vec![l.clone()]).collect::<Vec<_>>(),
                _ => false,
            };
            ensure!(ok, "{} yields {:?}", s, read(&g[0]));
            Ok(())
        }),
    });
    fams.push(Family {
        name: "nothing",
        bound: "texts of up to 3 white space characters".into(),
        outcomes: &[],
        f: Box::new(|cx| {
            let n = cx.choose(4);
            let s: String = (0..n).map(|_| *cx.pick(&[' ', '\t', '\n', '\r'])).collect();
            cx.note(|| format!("{:?}", s));
            cx.op(1);
            match parse_wkt(&s) {
                Ok(v) => ensure!(v.is_empty(), "{:?} yields {} geometries", s, v.len()),
                Err(e) => return Err(Fail::new(format!("{:?} is rejected: {}", s, e))),
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C18",
        assumptions: vec![
            "well-formed means the grammar of the OGC text form in two dimensions with every multipoint position in its own parentheses",
            "whether an EMPTY part inside a multi-geometry is kept as an empty part or dropped is not specified",
        ],
        families: fams,
    })
}
