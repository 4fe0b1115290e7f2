//! WKT model: geometries as nested lists, and their text.
use magog::planar::primitives::Position;
use magog::planar::types::Geometry;

pub type Q = (f64, f64);
/// A geometry as spelled: type and polygons / rings / positions.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Nothing,
    Point(Q),
    Line(Vec<Q>),
    Poly(Vec<Vec<Q>>),
    MPoint(Vec<Q>),
    MLine(Vec<Vec<Q>>),
    MPoly(Vec<Vec<Vec<Q>>>),
}
pub const KINDS: [&str; 6] = ["POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"];

fn qs(p: &[Position<f64>]) -> Vec<Q> {
    p.iter().map(|p| (p.x, p.y)).collect()
}
/// What the library returned, part by part, through its public fields.
pub fn read(g: &Geometry<f64>) -> W {
    let poly = |p: &magog::planar::types::Polygon<f64>| {
        let mut v = vec![qs(&p.exterior.positions)];
        v.extend(p.interiors.iter().map(|r| qs(&r.positions)));
        v
    };
    match g {
        Geometry::Empty(_) => W::Nothing,
        Geometry::Point(p) => W::Point((p.0.x, p.0.y)),
        Geometry::LineString(l) => W::Line(qs(&l.positions)),
        Geometry::Polygon(p) => W::Poly(poly(p)),
        Geometry::MultiPoint(m) => W::MPoint(m.points.iter().map(|p| (p.0.x, p.0.y)).collect()),
        Geometry::MultiLineString(m) => W::MLine(m.line_strings.iter().map(|l| qs(&l.positions)).collect()),
        Geometry::MultiPolygon(m) => W::MPoly(m.polygons.iter().map(poly).collect()),
    }
}
/// Bit-exact equality (so that -0 and 0 differ).
pub fn exactly(a: &W, b: &W) -> bool {
    fn q(a: &Q, b: &Q) -> bool {
        a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
    }
    fn l(a: &[Q], b: &[Q]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| q(x, y))
    }
    fn p(a: &[Vec<Q>], b: &[Vec<Q>]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| l(x, y))
    }
    match (a, b) {
        (W::Nothing, W::Nothing) => true,
        (W::Point(x), W::Point(y)) => q(x, y),
        (W::Line(x), W::Line(y)) | (W::MPoint(x), W::MPoint(y)) => l(x, y),
        (W::Poly(x), W::Poly(y)) | (W::MLine(x), W::MLine(y)) => p(x, y),
        (W::MPoly(x), W::MPoly(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| p(x, y)),
        _ => false,
    }
}
/// Tokens of the text, numbers written by `num`.
pub fn tokens(w: &W, num: &mut dyn FnMut(f64) -> String) -> Vec<String> {
    let mut t: Vec<String> = vec![];
    fn s(t: &mut Vec<String>, x: &str) {
        t.push(x.into());
    }
    fn pos(t: &mut Vec<String>, q: &Q, num: &mut dyn FnMut(f64) -> String) {
        t.push(num(q.0));
        t.push(num(q.1));
    }
    fn list<T>(t: &mut Vec<String>, v: &[T], num: &mut dyn FnMut(f64) -> String, f: &dyn Fn(&mut Vec<String>, &T, &mut dyn FnMut(f64) -> String)) {
        if v.is_empty() {
            s(t, "EMPTY");
            return;
        }
        s(t, "(");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                s(t, ",");
            }
            f(t, x, num);
        }
        s(t, ")");
    }
    fn rings(t: &mut Vec<String>, v: &Vec<Vec<Q>>, num: &mut dyn FnMut(f64) -> String) {
        list(t, v, num, &|t, r, num| list(t, r, num, &pos));
    }
    match w {
        W::Nothing => {
            s(&mut t, "POINT");
            s(&mut t, "EMPTY");
        }
        W::Point(q) => {
            s(&mut t, "POINT");
            list(&mut t, &[*q], num, &pos);
        }
        W::Line(l) => {
            s(&mut t, "LINESTRING");
            list(&mut t, l, num, &pos);
        }
        W::Poly(p) => {
            s(&mut t, "POLYGON");
            rings(&mut t, p, num);
        }
        W::MPoint(l) => {
            s(&mut t, "MULTIPOINT");
            list(&mut t, l, num, &|t, q, num| list(t, &[*q], num, &pos));
        }
        W::MLine(p) => {
            s(&mut t, "MULTILINESTRING");
            rings(&mut t, p, num);
        }
        W::MPoly(m) => {
            s(&mut t, "MULTIPOLYGON");
            list(&mut t, m, num, &rings);
        }
    }
    t
}
fn solid(x: &str) -> bool {
    x == "(" || x == ")" || x == ","
}
/// Must the gap between two tokens contain white space?
pub fn needs_space(a: &str, b: &str) -> bool {
    !solid(a) && !solid(b)
}
/// The usual spelling.
pub fn plain(t: &[String]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 && (needs_space(&t[i - 1], x) || (t[i - 1] == "," ) || (i == 1 && x == "(")) {
            s.push(' ');
        }
        s.push_str(x);
    }
    s
}
