//! C24: the geometry wrapper is transparent.
use magog::planar::primitives::{Envelope, HasEnvelope, Position};
use magog::planar::types::{Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::wk::W;

type Q = (f64, f64);
fn line<C: Co>(v: &[Q]) -> LineString<C> {
    LineString::new(v.iter().map(|p| Position::new(C::of(p.0), C::of(p.1))).collect())
}
fn poly<C: Co>(v: &[Vec<Q>]) -> Polygon<C> {
    match v.split_first() {
        None => Polygon::new(line(&[]), vec![]),
        Some((e, h)) => Polygon::new(line(e), h.iter().map(|l| line(l)).collect()),
    }
}
fn mpoint<C: Co>(v: &[Q]) -> MultiPoint<C> {
    MultiPoint::new(v.iter().map(|p| Point(Position::new(C::of(p.0), C::of(p.1)))).collect())
}
fn mline<C: Co>(v: &[Vec<Q>]) -> MultiLineString<C> {
    MultiLineString::new(v.iter().map(|l| line(l)).collect())
}
fn mpoly<C: Co>(v: &[Vec<Vec<Q>>]) -> MultiPolygon<C> {
    MultiPolygon::new(v.iter().map(|p| poly(p)).collect())
}
fn point<C: Co>(p: Q) -> Point<C> {
    Point::new(Position::new(C::of(p.0), C::of(p.1)))
}
/// The bare answers of the wrapped geometry.
struct Bare<C: Co> {
    dim: u8,
    name: &'static str,
    empty: bool,
    simple: bool,
    envelope: Envelope<C>,
    boundary: Geometry<C>,
}
macro_rules! bare {
    ($x:expr) => {{
        let x = $x;
        Bare { dim: x.dimension(), name: x.geometry_type(), empty: x.is_empty(), simple: x.is_simple(), envelope: x.envelope(), boundary: x.boundary() }
    }};
}
fn judge<C: Co>(cx: &mut Cx, w: &W) -> R {
    let t = C::NAME;
    let wrap = |via_from: bool| -> Geometry<C> {
        if via_from {
            match w {
                W::Nothing => Empty::new().into(),
                W::Point(p) => point(*p).into(),
                W::Line(v) => line(v).into(),
                W::Poly(v) => poly(v).into(),
                W::MPoint(v) => mpoint(v).into(),
                W::MLine(v) => mline(v).into(),
                W::MPoly(v) => mpoly(v).into(),
            }
        } else {
            match w {
                W::Nothing => Geometry::empty(),
                W::Point(p) => Geometry::Point(point(*p)),
                W::Line(v) => Geometry::LineString(line(v)),
                W::Poly(v) => Geometry::Polygon(poly(v)),
                W::MPoint(v) => Geometry::MultiPoint(mpoint(v)),
                W::MLine(v) => Geometry::MultiLineString(mline(v)),
                W::MPoly(v) => Geometry::MultiPolygon(mpoly(v)),
            }
        }
    };
    let b: Bare<C> = match w {
        W::Nothing => bare!(Empty::<C>::new()),
        W::Point(p) => bare!(point::<C>(*p)),
        W::Line(v) => bare!(line::<C>(v)),
        W::Poly(v) => bare!(poly::<C>(v)),
        W::MPoint(v) => bare!(mpoint::<C>(v)),
        W::MLine(v) => bare!(mline::<C>(v)),
        W::MPoly(v) => bare!(mpoly::<C>(v)),
    };
    let (dim, name, empty) = match w {
        W::Nothing => (0, "Empty", true),
        W::Point(_) => (0, "Point", false),
        W::Line(v) => (1, "LineString", v.is_empty()),
        W::Poly(v) => (2, "Polygon", v.first().map_or(true, |e| e.is_empty())),
        W::MPoint(v) => (0, "MultiPoint", v.is_empty()),
        W::MLine(v) => (1, "MultiLineString", v.iter().all(|l| l.is_empty())),
        W::MPoly(v) => (2, "MultiPolygon", v.iter().all(|p| p.first().map_or(true, |e| e.is_empty()))),
    };
    cx.op(6);
    ensure!(b.dim == dim && b.name == name && b.empty == empty, "{} {:?}: dimension {}, type {}, is_empty {}", t, w, b.dim, b.name, b.empty);
    cx.outcome(empty as usize);
    let nan = format!("{:?}", w).contains("NaN");
    for f in [false, true] {
        let g = wrap(f);
        cx.op(7);
        ensure!(g.dimension() == dim, "{} wrapped {:?}: dimension {}", t, w, g.dimension());
        ensure!(g.geometry_type() == name, "{} wrapped {:?}: type {}", t, w, g.geometry_type());
        ensure!(g.is_empty() == empty, "{} wrapped {:?}: is_empty {}", t, w, g.is_empty());
        ensure!(g.is_simple() == b.simple, "{} wrapped {:?}: is_simple {}, bare {}", t, w, g.is_simple(), b.simple);
        let (e, bd) = (g.envelope(), g.boundary());
        if nan {
            ensure!(format!("{:?}", e) == format!("{:?}", b.envelope), "{} wrapped {:?}: envelope {:?}, bare {:?}", t, w, e, b.envelope);
            ensure!(format!("{:?}", bd) == format!("{:?}", b.boundary), "{} wrapped {:?}: boundary {:?}, bare {:?}", t, w, bd, b.boundary);
        } else {
            ensure!(e == b.envelope, "{} wrapped {:?}: envelope {:?}, bare {:?}", t, w, e, b.envelope);
            ensure!(bd == b.boundary, "{} wrapped {:?}: boundary {:?}, bare {:?}", t, w, bd, b.boundary);
            ensure!(g == wrap(!f), "{} {:?} wrapped in two ways differs", t, w);
        }
        // unwrapping
        cx.op(7);
        let is = |what: &str, got: Option<String>, want: Option<String>| -> R {
            ensure!(got == want, "{} {:?} unwrapped as {}: {:?}, should be {:?}", t, w, what, got, want);
            Ok(())
        };
        macro_rules! un {
            ($m:ident, $pat:pat => $e:expr) => {
                is(stringify!($m), wrap(f).$m().map(|x| format!("{:?}", x)), match w { $pat => Some(format!("{:?}", $e)), _ => None })?;
                if let (Some(x), $pat) = (wrap(f).$m(), w) {
                    ensure!(nan || x == $e, "{} {:?} unwrapped is not equal", t, w);
                }
            };
        }
        un!(as_point, W::Point(p) => point::<C>(*p));
        un!(as_linestring, W::Line(v) => line::<C>(v));
        un!(as_polygon, W::Poly(v) => poly::<C>(v));
        un!(as_multipoint, W::MPoint(v) => mpoint::<C>(v));
        un!(as_multilinestring, W::MLine(v) => mline::<C>(v));
        un!(as_multipolygon, W::MPoly(v) => mpoly::<C>(v));
        ensure!(wrap(f).as_empty().is_some() == empty, "{} {:?} unwrapped as empty: {:?}", t, w, wrap(f).as_empty());
    }
    Ok(())
}
const PTS: [Q; 6] = [(0., 0.), (2., 0.), (2., 2.), (0., 2.), (1., 1.), (f64::NAN, 1.)];
const LINES: [&[Q]; 9] = [
    &[],
    &[(1., 1.)],
    &[(0., 0.), (4., 0.)],
    &[(0., 0.), (4., 4.), (4., 0.), (0., 4.)],
    &[(0., 0.), (4., 0.), (4., 4.), (0., 4.), (0., 0.)],
    &[(1., 1.), (2., 1.), (2., 2.), (1., 1.)],
    &[(3., 3.), (3., 3.)],
    &[(-5., -5.), (-5., -1.), (-1., -5.), (-5., -5.)],
    &[(0., f64::INFINITY), (1., 0.)],
];

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let n = if th { 6 } else { 5 };
    fams.push(Family {
        name: "flat",
        bound: format!("empty, every point, line and multipoint of up to {} of 6 positions (repeated, NaN)", n),
        outcomes: &["not empty", "empty"],
        f: Box::new(move |cx| {
            let w = match cx.choose(4) {
                0 => W::Nothing,
                1 => W::Point(*cx.pick(&PTS)),
                k => {
                    let n = cx.choose(n + 1);
                    let v = (0..n).map(|_| *cx.pick(&PTS)).collect();
                    if k == 2 { W::Line(v) } else { W::MPoint(v) }
                }
            };
            cx.note(|| format!("{:?}", w));
            judge::<f64>(cx, &w)?;
            judge::<f32>(cx, &w)
        }),
    });
    let m = if th { 5 } else { 4 };
    fams.push(Family {
        name: "parts",
        bound: format!("every polygon and multilinestring of up to {} of 9 lines (empty, single, crossing, rings, infinite)", m),
        outcomes: &["not empty", "empty"],
        f: Box::new(move |cx| {
            let poly = cx.flip();
            let n = cx.choose(m + 1);
            let v = (0..n).map(|_| cx.pick(&LINES).to_vec()).collect();
            let w = if poly { W::Poly(v) } else { W::MLine(v) };
            cx.note(|| format!("{:?}", w));
            judge::<f64>(cx, &w)?;
            judge::<f32>(cx, &w)
        }),
    });
    let p = if th { 4 } else { 3 };
    fams.push(Family {
        name: "multipolygons",
        bound: format!("every multipolygon of up to {} of 8 polygons (empty, with holes, empty with holes, invalid)", p),
        outcomes: &["not empty", "empty"],
        f: Box::new(move |cx| {
            let l = |k: &[usize]| -> Vec<Vec<Q>> { k.iter().map(|i| LINES[*i].to_vec()).collect() };
            let polys = [l(&[]), l(&[0]), l(&[4]), l(&[4, 5]), l(&[0, 5]), l(&[7]), l(&[3]), l(&[5, 0, 0])];
            let n = cx.choose(p + 1);
            let w = W::MPoly((0..n).map(|_| cx.pick(&polys).clone()).collect());
            cx.note(|| format!("{:?}", w));
            judge::<f64>(cx, &w)?;
            judge::<f32>(cx, &w)
        }),
    });
    let big = if th { 300 } else { 80 };
    fams.push(Family {
        name: "sizes",
        bound: format!("every type with every number of parts up to {}, all empty, or only the last or only the first not", big),
        outcomes: &["not empty", "empty"],
        f: Box::new(move |cx| {
            let n = cx.choose(big + 1);
            let at = match cx.choose(4) { 0 => usize::MAX, 1 => 0, 2 => n.saturating_sub(1), _ => n / 2 };
            let part = |i: usize| -> Vec<Q> { if i == at { LINES[5].to_vec() } else { vec![] } };
            let w = match cx.choose(5) {
                0 => W::MLine((0..n).map(part).collect()),
                1 => W::MPoly((0..n).map(|i| vec![part(i)]).collect()),
                2 => W::Poly((0..n).map(part).collect()),
                3 => W::MPoint((0..n).map(|i| (i as f64, if i == at { 1. } else { 0. })).collect()),
                _ => W::Line((0..n).map(|i| (i as f64, if i == at { 1. } else { 0. })).collect()),
            };
            cx.note(|| format!("{} parts, number {} not empty", n, at));
            judge::<f64>(cx, &w)?;
            judge::<f32>(cx, &w)
        }),
    });
    run_check(Check { id: "C24", assumptions: vec!["whether the answers of the wrapped geometries are right is the matter of the other properties"], families: fams })
}
