//! C22: construction, validation and queries never panic, whatever the coordinates.
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::planar::types::{Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use std::sync::Arc;

type Q = (f64, f64);
/// Three or more values, used for the abscissas and ordinates of an index grid.
type A = (&'static str, &'static [f64]);
const D: f64 = 5e-324;
const MX: f64 = f64::MAX;
const U: f64 = f64::EPSILON;
const ALPHA: [A; 16] = [
    ("-max,0,max", &[-MX, 0., MX]),
    ("0,max/2,max", &[0., MX / 2., MX]),
    ("max-ulp..", &[MX * (1. - U), MX * (1. - U / 2.), MX]),
    ("denormal", &[0., D, 2. * D]),
    ("-denormal", &[-D, -0., D]),
    ("ulps", &[1., 1. + U, 1. + 2. * U]),
    ("ulps below", &[1. - U, 1. - U / 2., 1.]),
    ("1e200", &[0., 1e200, 2e200]),
    ("1e-200", &[0., 1e-200, 2e-200]),
    ("1e160 uneven", &[-1e160, 1e150, 3e160]),
    ("mixed", &[-1e308, 1e-308, 1e308]),
    ("tiny step", &[0., 1e-300, 1.]),
    ("decimals", &[0.1, 0.3, 0.7]),
    ("f32 max", &[-3.4028234663852886e38, 0., 3.4028234663852886e38]),
    ("f32 1e25", &[0., 1e25, 2e25]),
    ("small", &[0., 1., 2.]),
];
const BAD: [f64; 5] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0., 1.];
/// A single list with everything.
const ALL: [f64; 16] = [
    0., -0., 1., -1., 1. + U, D, -D, 1e-200, 1e200, -1e200, MX, -MX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
];

fn line<C: Co>(l: &[Q]) -> LineString<C> {
    LineString::new(l.iter().map(|p| Position::new(C::of(p.0), C::of(p.1))).collect())
}
fn fin<C: Co>(l: &[Q]) -> bool {
    l.iter().all(|p| C::of(p.0).is_finite() && C::of(p.1).is_finite())
}
fn sound(ok: bool, finite: bool, what: impl Fn() -> String) -> R {
    ensure!(finite || !ok, "{} has a coordinate that is not finite but is valid", what());
    Ok(())
}
/// Everything that can be asked of a geometry.
fn ask<C: Co>(cx: &mut Cx, g: Geometry<C>, finite: bool, ok: bool) -> R {
    cx.op(6);
    let s = g.is_simple();
    ensure!(!s || ok || !finite || matches!(g, Geometry::MultiPoint(_) | Geometry::Empty(_) | Geometry::Point(_)), "{} {:?} is simple but invalid", C::NAME, g);
    let e = g.envelope();
    std::hint::black_box(e.validate().is_ok());
    let b = g.boundary();
    std::hint::black_box((b.envelope(), b.is_empty(), b.is_simple(), g.dimension()));
    Ok(())
}
fn lines<C: Co>(cx: &mut Cx, l: &[Q]) -> R {
    let a: LineString<C> = line(l);
    cx.op(6);
    let ok = a.validate().is_ok();
    sound(ok, fin::<C>(l), || format!("{} line {:?}", C::NAME, l))?;
    std::hint::black_box((a.is_simple(), a.envelope(), a.is_closed(), a.is_ring(), a.boundary()));
    ask(cx, Geometry::LineString(a), fin::<C>(l), ok)?;
    let m = MultiLineString::new(vec![line::<C>(l)]);
    cx.op(4);
    let ok = m.validate().is_ok();
    sound(ok, fin::<C>(l), || format!("{} multilinestring {:?}", C::NAME, l))?;
    ask(cx, Geometry::MultiLineString(m), fin::<C>(l), ok)?;
    let p = Polygon::new(line::<C>(l), vec![]);
    cx.op(4);
    let ok = p.validate().is_ok();
    sound(ok, fin::<C>(l), || format!("{} polygon {:?}", C::NAME, l))?;
    ask(cx, Geometry::Polygon(p), fin::<C>(l), ok)
}
fn two<C: Co>(cx: &mut Cx, a: &[Q], b: &[Q]) -> R {
    let finite = fin::<C>(a) && fin::<C>(b);
    let (la, lb): (LineString<C>, LineString<C>) = (line(a), line(b));
    cx.op(3);
    let what = || format!("{} {:?} with {:?}", C::NAME, a, b);
    let m = MultiLineString::new(vec![line::<C>(a), line::<C>(b)]);
    let ok = m.validate().is_ok();
    sound(ok, finite, || format!("multilinestring {}", what()))?;
    std::hint::black_box((m.envelope(), m.boundary()));
    let p = Polygon::new(line::<C>(a), vec![lb]);
    let ok = p.validate().is_ok();
    sound(ok, finite, || format!("polygon {}", what()))?;
    std::hint::black_box((p.envelope(), p.boundary()));
    let m = MultiPolygon::new(vec![Polygon::new(la, vec![]), Polygon::new(line(b), vec![])]);
    let ok = m.validate().is_ok();
    sound(ok, finite, || format!("multipolygon {}", what()))?;
    std::hint::black_box((m.envelope(), m.boundary()));
    Ok(())
}
/// Sequences of distinct grid indices, closed.
fn rings(n: usize, first_least: bool) -> Vec<Vec<usize>> {
    fn go(s: &mut Vec<usize>, n: usize, fl: bool, out: &mut Vec<Vec<usize>>) {
        if s.len() == n {
            let mut r = s.clone();
            r.push(s[0]);
            out.push(r);
            return;
        }
        for k in 0..9 {
            if s.contains(&k) || (fl && !s.is_empty() && k < s[0]) {
                continue;
            }
            s.push(k);
            go(s, n, fl, out);
            s.pop();
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, first_least, &mut out);
    out
}
fn place(r: &[usize], xs: &[f64], ys: &[f64]) -> Vec<Q> {
    r.iter().map(|&k| (xs[k / 3], ys[k % 3])).collect()
}

fn queries<C: Co>(cx: &mut Cx, items: &[[f64; 4]], degrees: &[usize], probes: &[[f64; 4]]) -> R {
    let env = |b: &[f64; 4]| Envelope::<C>::new(Position::new(C::of(b[0]), C::of(b[1])), Position::new(C::of(b[2]), C::of(b[3])));
    let mut es: Vec<Envelope<C>> = items.iter().map(env).collect();
    es.push(Envelope::Empty);
    let other = Flatbush::new_unsorted(&es[..es.len() / 2 + 1], 2);
    for &d in degrees {
        for sorted in [true, false] {
            let t = if sorted { Flatbush::new(&es, d) } else { Flatbush::new_unsorted(&es, d) };
            cx.op(4);
            std::hint::black_box(t.envelope());
            for p in probes {
                cx.op(2);
                let got = t.find_intersection_candidates(env(p));
                ensure!(got.iter().all(|i| *i < es.len()), "{} query {:?} of {:?} yields {:?}", C::NAME, p, items, got);
                let got = t.find_candidates_within(Position::new(C::of(p[0]), C::of(p[1])), C::of(p[2]));
                ensure!(got.iter().all(|i| *i < es.len()), "{} query within {:?} of {:?} yields {:?}", C::NAME, p, items, got);
            }
            let got = t.find_self_intersection_candidates();
            ensure!(got.iter().all(|i| i.0 < i.1 && i.1 < es.len()), "{} self join of {:?} yields {:?}", C::NAME, items, got);
            std::hint::black_box((t.find_other_rtree_intersection_candidates(&other), other.find_other_rtree_intersection_candidates(&t)));
        }
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];

    fams.push(Family {
        name: "positions",
        bound: format!("every position over {} values: position, point, multipoint of one and two; every segment over them: envelope, validity, intersection with itself, its reverse and a fixed one", ALL.len()),
        outcomes: &["not finite", "finite"],
        f: Box::new(|cx| {
            let p = (*cx.pick(&ALL), *cx.pick(&ALL));
            let q = (*cx.pick(&ALL), *cx.pick(&ALL));
            cx.note(|| format!("{:?} {:?}", p, q));
            fn go<C: Co>(cx: &mut Cx, p: Q, q: Q) -> R {
                let (a, b) = (Position::new(C::of(p.0), C::of(p.1)), Position::new(C::of(q.0), C::of(q.1)));
                let (fa, fb) = (fin::<C>(&[p]), fin::<C>(&[q]));
                cx.outcome((fa && fb) as usize);
                cx.op(12);
                ensure!(a.validate().is_ok() == fa, "{} position {:?}: validate {:?}", C::NAME, p, a.validate());
                ensure!(Point(a).validate().is_ok() == fa, "{} point {:?}: validate {:?}", C::NAME, p, Point(a).validate());
                let s = Segment::new(a, b);
                ensure!(s.validate().is_ok() == (fa && fb), "{} segment {:?} {:?}: validate {:?}", C::NAME, p, q, s.validate());
                let f = Segment::new(Position::new(C::zero(), C::zero()), Position::new(C::one(), C::one()));
                let r = Segment::new(b, a);
                std::hint::black_box((s.envelope(), s.length(), s.contains(a), s.contains(b), f.contains(a), s.position_location(b)));
                std::hint::black_box((s.intersect_segment(r), s.intersect_segment(s), s.intersect_segment(f), f.intersect_segment(s)));
                std::hint::black_box((s.envelope().center(), s.envelope().buffer(C::of(1e300)), s.envelope().validate().is_ok()));
                ask(cx, Geometry::Point(Point(a)), fa, fa)?;
                let m = MultiPoint::new(vec![Point(a), Point(b)]);
                let ok = m.validate().is_ok();
                ensure!(ok == (fa && fb && !(a == b)), "{} multipoint {:?} {:?}: validate {:?}", C::NAME, p, q, m.validate());
                std::hint::black_box((m.is_simple(), m.envelope(), m.boundary()));
                ask(cx, Geometry::MultiPoint(m), fa && fb, ok)
            }
            go::<f64>(cx, p, q)?;
            go::<f32>(cx, p, q)
        }),
    });

    fams.push(Family {
        name: "nonfinite",
        bound: format!("every line of 1..={} positions over NaN, infinities, 0, 1, open and closed, as line, multilinestring and polygon; second of two parts; hole: invalid unless finite", 4),
        outcomes: &[],
        f: Box::new(|cx| {
            let n = 1 + cx.choose(4);
            let mut l: Vec<Q> = vec![];
            for i in 0..n {
                if i == 3 {
                    // the fourth position over a smaller alphabet
                    l.push((*cx.pick(&BAD[..3]), 2.));
                } else if i == 2 {
                    l.push((*cx.pick(&BAD), *cx.pick(&BAD[2..])));
                } else {
                    l.push((*cx.pick(&BAD), *cx.pick(&BAD)));
                }
            }
            if cx.flip() {
                l.push(l[0]);
            }
            cx.note(|| format!("{:?}", l));
            lines::<f64>(cx, &l)?;
            lines::<f32>(cx, &l)?;
            let sq = [(0., 0.), (9., 0.), (9., 9.), (0., 9.), (0., 0.)];
            two::<f64>(cx, &sq, &l)?;
            two::<f64>(cx, &l, &sq)?;
            two::<f32>(cx, &sq, &l)
        }),
    });
    let at = if th { 64 } else { 24 };
    fams.push(Family {
        name: "nonfinite-at",
        bound: format!("one coordinate NaN, inf or -inf at every place of a line, multilinestring, polygon with holes, multipoint and multipolygon of up to {} positions in up to 3 parts: always invalid, and everything else can be asked", at),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = 3 + cx.choose(at - 2);
            let i = cx.choose(n);
            let bad = *cx.pick(&BAD[..3]);
            let y = cx.flip();
            let kind = cx.choose(6);
            let part = cx.choose(3);
            cx.note(|| format!("{} positions, number {} of part {} has {} {}, kind {}", n, i, part, if y { "y" } else { "x" }, bad, kind));
            fn go<C: Co>(cx: &mut Cx, n: usize, i: usize, bad: f64, y: bool, kind: usize, part: usize) -> R {
                let mk = |k: usize, closed: bool| -> LineString<C> {
                    let r = 1. + k as f64 * 4.;
                    let mut v: Vec<Q> = mc::gen::zigzag_ring(n.max(4)).iter().map(|p| (p.0 as f64 / 4. + r, p.1 as f64 / 4. + 1.)).take(n).collect();
                    if k == part {
                        if y { v[i.min(n - 1)].1 = bad } else { v[i.min(n - 1)].0 = bad }
                    }
                    if closed {
                        v.push(v[0]);
                    }
                    line(&v)
                };
                cx.op(1);
                let big = line::<C>(&[(-9., -9.), (99., -9.), (99., 99.), (-9., 99.), (-9., -9.)]);
                let g: Geometry<C> = match kind {
                    0 => Geometry::LineString(mk(part, false)),
                    1 => Geometry::LineString(mk(part, true)),
                    2 => Geometry::MultiLineString(MultiLineString::new((0..3).map(|k| mk(k, false)).collect())),
                    3 => Geometry::Polygon(Polygon::new(big, (0..3).map(|k| mk(k, true)).collect())),
                    4 => Geometry::MultiPolygon(MultiPolygon::new((0..3).map(|k| Polygon::new(mk(k, true), vec![])).collect())),
                    _ => {
                        let mut v: Vec<Point<C>> = (0..3 * n).map(|k| Point(Position::new(C::of(k as f64), C::of(1.)))).collect();
                        let at = part * n + i;
                        v[at] = Point(if y { Position::new(C::of(at as f64), C::of(bad)) } else { Position::new(C::of(bad), C::of(1.)) });
                        Geometry::MultiPoint(MultiPoint::new(v))
                    }
                };
                let r = match &g {
                    Geometry::LineString(x) => x.validate(),
                    Geometry::MultiLineString(x) => x.validate(),
                    Geometry::Polygon(x) => x.validate(),
                    Geometry::MultiPolygon(x) => x.validate(),
                    Geometry::MultiPoint(x) => x.validate(),
                    _ => Ok(()),
                };
                ask(cx, g, false, r.is_ok())?;
                ensure!(r.is_err(), "{} kind {}: {} positions with coordinate {} at {} of part {}: valid", C::NAME, kind, n, bad, i, part);
                Ok(())
            }
            go::<f64>(cx, n, i, bad, y, kind, part)?;
            go::<f32>(cx, n, i, bad, y, kind, part)
        }),
    });

    let ln = if th { 5 } else { 4 };
    fams.push(Family {
        name: "lines",
        bound: format!("every line of 2..={} positions of each 3x3 grid spanned by two of {} extreme alphabets, open and closed, as line, multilinestring and polygon", ln, ALPHA.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let xs = cx.pick(&ALPHA);
            let ys = cx.pick(&ALPHA);
            let n = 2 + cx.choose(ln - 1);
            let mut v: Vec<usize> = (0..n).map(|_| cx.choose(9)).collect();
            if cx.flip() {
                v.push(v[0]);
            }
            let l = place(&v, xs.1, ys.1);
            cx.note(|| format!("x {} y {}: {:?}", xs.0, ys.0, l));
            lines::<f64>(cx, &l)?;
            if n <= 3 {
                lines::<f32>(cx, &l)?;
            }
            Ok(())
        }),
    });
    let mut r3 = rings(3, true);
    r3.extend(rings(4, true));
    let r3 = Arc::new(r3);
    let r4 = Arc::new(if th { let mut v = (*r3).clone(); v.extend(rings(5, true)); v } else { (*r3).clone() });
    let a = r3.clone();
    let b = r4.clone();
    fams.push(Family {
        name: "ringpairs",
        bound: format!("each 3x3 grid spanned by two {} extreme alphabets: every pair of {} and {} closed sequences of its points (the shorter ones where the alphabets differ) as multilinestring, polygon with hole and two polygons", if th { "of the 16" } else { "equal" }, a.len(), b.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let i = cx.choose(ALPHA.len());
            let j = cx.choose(ALPHA.len());
            if !th && i != j {
                return Ok(());
            }
            let (xs, ys) = (&ALPHA[i], &ALPHA[j]);
            let r = cx.pick(&a);
            // five-point rings only where both axes use the same alphabet
            let s = if i == j { cx.pick(&b) } else { cx.pick(&a) };
            let (r, s) = (place(r, xs.1, ys.1), place(s, xs.1, ys.1));
            cx.note(|| format!("x {} y {}: {:?} with {:?}", xs.0, ys.0, r, s));
            two::<f64>(cx, &r, &s)?;
            if i == j && i >= 12 {
                two::<f32>(cx, &r, &s)?;
            }
            Ok(())
        }),
    });
    // two rings on neighbouring floats, from a 4x4 grid of ulps: triangles only
    fams.push(Family {
        name: "ulp-triangles",
        bound: "every pair of the closed triangles on 4x4 grids of neighbouring floats (near 1, 0.1, 1e200, smallest denormals), f64 and f32".into(),
        outcomes: &[],
        f: Box::new(|cx| {
            let base = cx.choose(4);
            let t = |cx: &mut Cx| -> [usize; 3] {
                let a = cx.choose(16);
                let b = cx.choose(16);
                let c = cx.choose(16);
                [a, b, c]
            };
            let (p, q) = (t(cx), t(cx));
            // each triangle from its least vertex, in both directions
            if p[0] >= p[1] || p[0] >= p[2] || p[1] == p[2] || q[0] >= q[1] || q[0] >= q[2] || q[1] == q[2] {
                return Ok(());
            }
            fn go<C: Co>(cx: &mut Cx, base: usize, p: [usize; 3], q: [usize; 3]) -> R {
                let v = |k: usize| -> f64 {
                    if C::SINGLE {
                        let b = [1f32, 0.1, 1e30, 0.][base].to_bits();
                        f32::from_bits(b + k as u32) as f64
                    } else {
                        let b = [1f64, 0.1, 1e200, 0.][base].to_bits();
                        f64::from_bits(b + k as u64)
                    }
                };
                let m = |t: [usize; 3]| -> Vec<Q> { [t[0], t[1], t[2], t[0]].iter().map(|&k| (v(k / 4), v(k % 4))).collect() };
                let (r, s) = (m(p), m(q));
                cx.note(|| format!("{} {:?} with {:?}", C::NAME, r, s));
                two::<C>(cx, &r, &s)
            }
            if (p[0] + q[1]) % 2 == 0 { go::<f64>(cx, base, p, q) } else { go::<f32>(cx, base, p, q) }
        }),
    });
    let sq: Arc<Vec<Vec<usize>>> = Arc::new(rings(3, true));
    let k = if th { 1 } else { 8 };
    fams.push(Family {
        name: "holes",
        bound: format!("each 3x3 grid over one extreme alphabet: its outer square with every pair of triangles as holes; every triple of triangles (every {}th first) as multipolygon and multilinestring", k),
        outcomes: &[],
        f: Box::new(move |cx| {
            let (name, xs) = *cx.pick(&ALPHA);
            let i = cx.choose((sq.len() + k - 1) / k) * k;
            let (a, b, c) = (&sq[i], cx.pick(&sq), cx.pick(&sq));
            let [a, b, c] = [a, b, c].map(|r| place(r, xs, xs));
            cx.note(|| format!("{}: {:?} {:?} {:?}", name, a, b, c));
            let sqr = place(&[0, 2, 8, 6, 0], xs, xs);
            cx.op(3);
            if i == 0 {
                std::hint::black_box(Polygon::new(line::<f64>(&sqr), vec![line(&b), line(&c)]).validate().is_ok());
            }
            std::hint::black_box(MultiPolygon::new([&a, &b, &c].map(|r| Polygon::new(line::<f64>(r), vec![])).into_iter().collect()).validate().is_ok());
            std::hint::black_box(MultiLineString::new([&a, &b, &c].map(|r| line::<f64>(r)).into_iter().collect()).validate().is_ok());
            Ok(())
        }),
    });

    let probes: Arc<Vec<[f64; 4]>> = Arc::new({
        let v = [0., MX, -MX, D, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.];
        let mut p = vec![];
        for &a in &v {
            for &b in &v {
                p.push([a, a, b, b]);
                p.push([a, b, b, 1.]);
            }
        }
        p
    });
    let pr = probes.clone();
    fams.push(Family {
        name: "index",
        bound: format!("indexes over every pair of boxes with corners from {} values: degrees 2, 8, both constructors, {} windows and positions with distances, both joins", ALL.len(), probes.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = if th { ALL.len() } else { 12 };
            let vals: Vec<f64> = if th { ALL.to_vec() } else { vec![0., 1., 1. + U, D, 1e200, -1e200, MX, -MX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] };
            let b1 = [vals[cx.choose(n)], vals[cx.choose(n)], vals[cx.choose(n)], 0.5];
            let b2 = [vals[cx.choose(n)], -1., 1e10, vals[cx.choose(n)]];
            cx.note(|| format!("boxes {:?} {:?}", b1, b2));
            let step = if th { 1 } else { 8 };
            let some: Vec<[f64; 4]> = pr.iter().step_by(step).copied().collect();
            queries::<f64>(cx, &[b1, b2], &[2, 8], &some)?;
            queries::<f32>(cx, &[b2, b1], &[4], &some)
        }),
    });
    let pr = probes.clone();
    let m = if th { 6 } else { 5 };
    fams.push(Family {
        name: "index-points",
        bound: format!("indexes over every list of up to {} points (x,x), (x,1) over 9 extreme values", m),
        outcomes: &[],
        f: Box::new(move |cx| {
            const V: [f64; 9] = [0., 1., D, 1e200, MX, -MX, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
            let n = cx.choose(m + 1);
            let diag = cx.flip();
            let it: Vec<[f64; 4]> = (0..n).map(|_| { let x = *cx.pick(&V); let y = if diag { x } else { 1. }; [x, y, x, y] }).collect();
            cx.note(|| format!("points {:?}", it));
            let some: Vec<[f64; 4]> = pr.iter().step_by(if n > 3 { 43 } else { 8 }).copied().collect();
            queries::<f64>(cx, &it, &[2], &some)
        }),
    });
    let big = if th { 3000 } else { 700 };
    let pr = probes.clone();
    fams.push(Family {
        name: "index-sizes",
        bound: format!("indexes of every size up to {} over points and boxes running from -MAX to MAX, over denormals, coincident, with NaN and infinities mixed in: degrees 2, 16, 1024", big),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(big + 1);
            let k = cx.choose(5);
            cx.note(|| format!("{} items, pattern {}", n, k));
            let it: Vec<[f64; 4]> = (0..n)
                .map(|i| {
                    let t = i as f64 / n as f64;
                    match k {
                        0 => { let x = MX * (2. * t - 1.); [x, -x, x, -x] }
                        1 => { let x = f64::from_bits(i as u64); [x, x, x, 0.] }
                        2 => [MX, MX, MX, MX],
                        3 => { let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1., 2., 3., 4.][i % 7]; [x, t, x, t] }
                        _ => [-MX * t, t, MX * t, 1e300],
                    }
                })
                .collect();
            let some: Vec<[f64; 4]> = pr.iter().step_by(29).copied().collect();
            // the joins of coinciding items grow with the square of their number
            if n > 100 && (k == 2 || k == 4) {
                return queries::<f64>(cx, &it[..100 + n % 100], &[16], &some);
            }
            queries::<f64>(cx, &it, &[2, 16, 1024], &some)
        }),
    });
    run_check(Check {
        id: "C22",
        assumptions: vec!["the verdict on finite coordinates whose differences or products over- or underflow is not judged, only that there is one", "overflow checks and debug assertions are on in the build under test"],
        families: fams,
    })
}
