//! C20: the one-dimensional types agree with the number line.
use magog::linear::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::linear::types::{Line, MultiLine, MultiPoint, Point};
use mc::adapt::*;
use mc::engine::*;
use mc::rt::beyond;
use mc::ensure;

/// None = empty; otherwise [min, max].
type I = Option<[f64; 2]>;
fn lo(a: f64, b: f64) -> f64 {
    if a.is_nan() || b < a { b } else { a }
}
fn hi(a: f64, b: f64) -> f64 {
    if a.is_nan() || b > a { b } else { a }
}
fn eq(x: f64, y: f64) -> bool {
    x == y || (x.is_nan() && y.is_nan())
}
fn iv(a: f64, b: f64) -> I {
    Some([lo(a, b), hi(a, b)])
}
fn union(a: &I, b: &I) -> I {
    match (a, b) {
        (None, x) | (x, None) => *x,
        (Some(a), Some(b)) => Some([lo(a[0], b[0]), hi(a[1], b[1])]),
    }
}
fn meet(a: &I, b: &I) -> bool {
    matches!((a, b), (Some(a), Some(b)) if a[0] <= b[1] && b[0] <= a[1])
}
fn inside(a: &I, b: &I) -> bool {
    matches!((a, b), (Some(a), Some(b)) if a[0] <= b[0] && b[1] <= a[1])
}
fn pos<C: Co>(x: f64) -> Position<C> {
    Position::new(C::of(x))
}
fn env<C: Co>(i: &I) -> Envelope<C> {
    match i {
        None => Envelope::Empty,
        Some(b) => Envelope::Bounds { min: pos(b[0]), max: pos(b[1]) },
    }
}
fn item<C: Co>(e: &Envelope<C>) -> I {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some([min.x.f(), max.x.f()]),
    }
}
fn is<C: Co>(got: Envelope<C>, want: &I, what: impl Fn() -> String) -> R {
    let g = item(&got);
    let ok = match (&g, want) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a[0], b[0]) && eq(a[1], b[1]),
        _ => false,
    };
    ensure!(ok, "{} {} = {:?}, should be {:?}", C::NAME, what(), g, want);
    ensure!(got.is_empty() == want.is_none(), "{} {}: is_empty() = {}", C::NAME, what(), got.is_empty());
    Ok(())
}
const SP: [f64; 13] =
    [0.0, -0.0, 1.0, -1.5, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f32::MAX as f64, -(f32::MAX as f64), f32::MIN_POSITIVE as f64, -1.1754943508222875e-38, 16777216.0];

fn points<C: Co>(cx: &mut Cx, a: f64, b: f64) -> R {
    let (p, q) = (pos::<C>(a), pos::<C>(b));
    let n = C::NAME;
    cx.op(20);
    ensure!(eq(p.x.f(), a) && eq(Position::from(C::of(a)).x.f(), a), "{} position of {:?}: {:?}", n, a, p);
    ensure!(p.validate().is_ok() == a.is_finite(), "{} validate {:?}: {:?}", n, a, p.validate());
    ensure!((p == q) == (a == b), "{} {:?} == {:?}: {}", n, a, b, p == q);
    ensure!(p.partial_cmp(&q) == a.partial_cmp(&b), "{} {:?} compared with {:?}: {:?}", n, a, b, p.partial_cmp(&q));
    ensure!((p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b), "{} order of {:?} and {:?}", n, a, b);
    ensure!(eq(p.min(q).x.f(), lo(a, b)), "{} min of {:?} and {:?} = {:?}", n, a, b, p.min(q));
    ensure!(eq(p.max(q).x.f(), hi(a, b)), "{} max of {:?} and {:?} = {:?}", n, a, b, p.max(q));
    let (m, x) = Position::min_max(p, q);
    ensure!(eq(m.x.f(), lo(a, b)) && eq(x.x.f(), hi(a, b)), "{} min_max of {:?} and {:?} = {:?}", n, a, b, (m, x));
    let (ca, cb) = (C::of(a), C::of(b));
    for (op, got, want) in [("+", (p + q).x, ca + cb), ("-", (p - q).x, ca - cb), ("*", (p * cb).x, ca * cb), ("/", (p / cb).x, ca / cb)] {
        ensure!(eq(got.f(), want.f()), "{} {:?} {} {:?} = {:?}", n, a, op, b, got);
    }
    match p.to_hashable() {
        Ok(v) => ensure!(!a.is_nan() && v.into_inner().f() == a, "{} hashable of {:?}: {:?}", n, a, v),
        Err(_) => ensure!(a.is_nan(), "{} hashable of {:?} fails", n, a),
    }
    // points
    let z = Point::new(p);
    for z in [z, Point::from(C::of(a)), Point(p)] {
        ensure!(z.is_empty() == a.is_nan(), "{} point {:?} is_empty = {}", n, a, z.is_empty());
        ensure!(z.x().map(|v| v.f()) == if a.is_nan() { None } else { Some(a) }, "{} point {:?} x = {:?}", n, a, z.x());
        is(z.envelope(), &if a.is_nan() { None } else { iv(a, a) }, || format!("envelope of point {:?}", a))?;
    }
    ensure!(Point::<C>::empty().is_empty() && Point::<C>::empty().x().is_none() && Point::<C>::empty().envelope().is_empty(), "{} empty point", n);
    is(p.envelope(), &iv(a, a), || format!("envelope of position {:?}", a))?;
    // segments and lines
    let s = Segment::new(p, q);
    for s in [s, Segment::from((ca, cb)), Segment { start: p, end: q }] {
        cx.op(6);
        ensure!(eq(s.start.x.f(), a) && eq(s.end.x.f(), b), "{} segment ({:?}, {:?}) is {:?}", n, a, b, s);
        ensure!(s.validate().is_ok() == (a.is_finite() && b.is_finite()), "{} segment ({:?}, {:?}) validate: {:?}", n, a, b, s.validate());
        ensure!(eq(s.min().x.f(), lo(a, b)) && eq(s.max().x.f(), hi(a, b)), "{} segment ({:?}, {:?}): min {:?}, max {:?}", n, a, b, s.min(), s.max());
        is(s.envelope(), &iv(a, b), || format!("envelope of segment {:?} {:?}", a, b))?;
    }
    for l in [Line::new(p, q), Line::from(s), Line::from((ca, cb))] {
        line(&l, a, b)?;
        is(l.envelope(), &iv(a, b), || format!("envelope of line {:?} {:?}", a, b))?;
    }
    // intervals
    cx.op(4);
    is(Envelope::new(p, q), &iv(a, b), || format!("interval of {:?} {:?}", a, b))?;
    is(Envelope::from((ca, cb)), &iv(a, b), || format!("interval from {:?} {:?}", a, b))?;
    let want = a.is_finite() && b.is_finite() && a <= b;
    let e = env::<C>(&Some([a, b]));
    ensure!(e.validate().is_ok() == want, "{} bounds {:?} {:?}: validate = {:?}", n, a, b, e.validate());
    ensure!(Envelope::<C>::Empty.validate().is_ok() && Envelope::<C>::empty() == Envelope::Empty && Envelope::<C>::Empty.is_empty(), "{} empty interval", n);
    is(Envelope::<C>::Empty.envelope(), &None, || "envelope of the empty interval".into())
}
fn line<C: Co>(l: &Line<C>, a: f64, b: f64) -> R {
    let x = |p: Option<Point<C>>| p.map(|p| p.0.x.f());
    ensure!(!l.is_empty(), "{} line {:?} {:?} is empty", C::NAME, a, b);
    ensure!(x(l.start()).map_or(false, |v| eq(v, a)) && x(l.end()).map_or(false, |v| eq(v, b)), "{} line {:?} {:?}: start {:?}, end {:?}", C::NAME, a, b, l.start(), l.end());
    Ok(())
}
fn binary<C: Co>(cx: &mut Cx, a: &I, b: &I) -> R {
    let (ea, eb) = (env::<C>(a), env::<C>(b));
    for (x, y, ex, ey) in [(a, b, ea, eb), (b, a, eb, ea)] {
        cx.op(5);
        ensure!(ex.intersects(ey) == meet(x, y), "{} {:?} intersects {:?} = {}", C::NAME, x, y, !meet(x, y));
        ensure!(ex.contains(ey) == inside(x, y), "{} {:?} contains {:?} = {}", C::NAME, x, y, !inside(x, y));
        let u = union(x, y);
        is(ex.merge(ey), &u, || format!("{:?} merged with {:?}", x, y))?;
        let mut g = ex;
        g.expand(ey);
        is(g, &u, || format!("{:?} expanded by {:?}", x, y))?;
        is(Envelope::of([ex, ey].iter()), &u, || format!("interval of {:?} and {:?}", x, y))?;
        if let Some([p, q]) = *y {
            cx.op(8);
            let s = Segment::new(pos::<C>(p), pos::<C>(q));
            let si = iv(p, q);
            ensure!(ex.contains(s) == inside(x, &si), "{} {:?} contains segment {:?}", C::NAME, x, s);
            is(ex.merge(s), &union(x, &si), || format!("{:?} merged with segment {:?}", x, s))?;
            is(ex.merge(Line::from(s)), &union(x, &si), || format!("{:?} merged with line {:?}", x, s))?;
            is(ex.merge(MultiLine::<C>::new(vec![s])), &union(x, &si), || format!("{:?} merged with multiline {:?}", x, s))?;
            let pi = iv(p, p);
            ensure!(ex.contains(pos::<C>(p)) == inside(x, &pi), "{} {:?} contains {:?}", C::NAME, x, p);
            is(ex.merge(pos::<C>(p)), &union(x, &pi), || format!("{:?} merged with {:?}", x, p))?;
            let qi = if p.is_nan() { None } else { pi };
            ensure!(ex.contains(Point::new(pos::<C>(p))) == inside(x, &qi), "{} {:?} contains point {:?}", C::NAME, x, p);
            let mut g = ex;
            g.expand(Point::new(pos::<C>(p)));
            is(g, &union(x, &qi), || format!("{:?} expanded by point {:?}", x, p))?;
            g.expand(Line::empty());
            g.expand(MultiPoint::empty());
            is(g, &union(x, &qi), || format!("{:?} expanded by point {:?} and nothing", x, p))?;
        }
    }
    Ok(())
}
fn lists<C: Co>(cx: &mut Cx, v: &[f64]) -> R {
    let n = C::NAME;
    let tight = |w: &[f64]| w.iter().fold(None, |acc, &x| union(&acc, &Some([x, x])));
    let ps: Vec<Position<C>> = v.iter().map(|&x| pos(x)).collect();
    let cs: Vec<C> = v.iter().map(|&x| C::of(x)).collect();
    let mut made = vec![MultiPoint::new(ps.clone()), MultiPoint::from(cs), MultiPoint::from(ps.clone())];
    if v.is_empty() {
        made.push(MultiPoint::empty());
    }
    for m in &made {
        cx.op(3 + v.len() as u64);
        ensure!(m.num_points() == v.len() && m.positions.len() == v.len(), "{} multipoint {:?}: num_points = {}", n, v, m.num_points());
        for i in 0..v.len() + 3 {
            let g = m.get_point(i);
            let ok = match (&g, v.get(i)) {
                (None, None) => true,
                (Some(p), Some(&x)) => eq(p.0.x.f(), x) && eq(m.positions[i].x.f(), x),
                _ => false,
            };
            ensure!(ok, "{} multipoint {:?}: point {} = {:?}", n, v, i, g);
        }
        for i in beyond(v.len()) {
            ensure!(m.get_point(i).is_none(), "{} multipoint {:?}: point {}", n, v, i);
        }
        is(m.envelope(), &tight(v), || format!("envelope of multipoint {:?}", v))?;
    }
    is(Envelope::of(ps.iter()), &tight(v), || format!("interval of positions {:?}", v))?;
    // consecutive pairs as segments, also overlapping ones
    for step in [1, 2] {
        let sv: Vec<[f64; 2]> = (0..v.len().saturating_sub(1)).step_by(step).map(|i| [v[i], v[i + 1]]).collect();
        let used: Vec<f64> = sv.iter().flatten().copied().collect();
        let seg: Vec<Segment<C>> = sv.iter().map(|s| Segment::new(pos(s[0]), pos(s[1]))).collect();
        let tup: Vec<(C, C)> = sv.iter().map(|s| (C::of(s[0]), C::of(s[1]))).collect();
        let mut made = vec![MultiLine::new(seg.clone()), MultiLine::from(tup), MultiLine::from(seg.clone())];
        if sv.is_empty() {
            made.push(MultiLine::empty());
        }
        for m in &made {
            cx.op(2 + sv.len() as u64);
            ensure!(m.is_empty() == sv.is_empty(), "{} multiline {:?}: is_empty = {}", n, sv, m.is_empty());
            for i in 0..sv.len() + 3 {
                match (m.get_line(i), sv.get(i)) {
                    (None, None) => {}
                    (Some(l), Some(s)) => line(&l, s[0], s[1])?,
                    (g, _) => return Err(Fail::new(format!("{} multiline {:?}: line {} = {:?}", n, sv, i, g))),
                }
            }
            for i in beyond(sv.len()) {
                ensure!(m.get_line(i).is_none(), "{} multiline {:?}: line {}", n, sv, i);
            }
            is(m.envelope(), &tight(&used), || format!("envelope of multiline {:?}", sv))?;
        }
        let lines: Vec<Line<C>> = sv.iter().map(|s| Line::new(pos(s[0]), pos(s[1]))).collect();
        is(Envelope::of(lines.iter()), &tight(&used), || format!("interval of lines {:?}", sv))?;
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    fams.push(Family {
        name: "values",
        bound: format!("every pair of {} values (zeros, NaN, infinities, largest and smallest floats): positions, points, segments, lines, intervals and every way to build them", SP.len()),
        outcomes: &["not finite", "finite"],
        f: Box::new(|cx| {
            let (a, b) = (*cx.pick(&SP), *cx.pick(&SP));
            cx.note(|| format!("{:?} and {:?}", a, b));
            cx.outcome((a.is_finite() && b.is_finite()) as usize);
            points::<f64>(cx, a, b)?;
            points::<f32>(cx, a, b)
        }),
    });
    let g = if th { 14 } else { 9 };
    fams.push(Family {
        name: "intervals",
        bound: format!("every pair of the intervals (and empty) with ends in 0..{}, at scales 1, 2^-40, 2^40, 0.1, shifted; meeting and containment also checked against the enumerated points", g),
        outcomes: &["disjoint", "meet", "inside"],
        f: Box::new(move |cx| {
            let one = |cx: &mut Cx| -> I {
                if cx.flip() {
                    return None;
                }
                let a = cx.choose(g);
                let b = a + cx.choose(g - a);
                Some([a as f64, b as f64])
            };
            let x = one(cx);
            let y = one(cx);
            cx.note(|| format!("intervals {:?} and {:?}", x, y));
            let (mut share, mut sub) = (false, x.is_some() && y.is_some());
            for i in 0..g {
                let p = iv(i as f64, i as f64);
                let (ix, iy) = (inside(&x, &p), inside(&y, &p));
                share |= ix && iy;
                sub &= ix || !iy;
            }
            if share != meet(&x, &y) || sub != inside(&x, &y) {
                return Err(Fail::new("MC-HARNESS the interval model disagrees with the point sets"));
            }
            cx.outcome(if sub { 2 } else { share as usize });
            for (k, o) in [(1., 0.), (TINY, 0.), (HUGE, 0.), (1., -5.), (0.25, 1000.), (-1., 0.)] {
                let m = |i: &I| i.map(|b| if k > 0. { b.map(|v| v * k + o) } else { [b[1] * k, b[0] * k] });
                binary::<f64>(cx, &m(&x), &m(&y))?;
                binary::<f32>(cx, &m(&x), &m(&y))?;
            }
            let m = |i: &I| i.map(|b| b.map(|v| v * 0.1));
            binary::<f64>(cx, &m(&x), &m(&y))
        }),
    });
    fams.push(Family {
        name: "special",
        bound: format!("every pair of intervals spanned by two of {} special values: intersects, contains, merge, expand, of", SP.len()),
        outcomes: &["disjoint", "meet"],
        f: Box::new(|cx| {
            let x = iv(*cx.pick(&SP), *cx.pick(&SP));
            let y = if cx.flip() { None } else { iv(*cx.pick(&SP), *cx.pick(&SP)) };
            cx.note(|| format!("intervals {:?} and {:?}", x, y));
            cx.outcome(meet(&x, &y) as usize);
            binary::<f64>(cx, &x, &y)?;
            binary::<f32>(cx, &x, &y)
        }),
    });
    let len = if th { 8 } else { 6 };
    const LV: [f64; 7] = [0.0, -3.5, 2.0, 7.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    fams.push(Family {
        name: "lists",
        bound: format!("every list of up to {} of {} values (NaN, infinities): multipoints and multilines from every constructor, elements in and out of range, envelope", len, LV.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(len + 1);
            let v: Vec<f64> = (0..n).map(|_| *cx.pick(&LV)).collect();
            cx.note(|| format!("{:?}", v));
            lists::<f64>(cx, &v)?;
            lists::<f32>(cx, &v)
        }),
    });
    let big = if th { 3000 } else { 600 };
    fams.push(Family {
        name: "long-lists",
        bound: format!("every length up to {}: rising, falling, zigzag, two extremes, and rising or falling with a spike up or down at any of 12 places", big),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(big + 1);
            let k = cx.choose(4 + 48);
            cx.note(|| format!("{} values, pattern {}", n, k));
            let (spike, at) = if k < 4 {
                (0, usize::MAX)
            } else {
                let a = [0, 1, 2, 3, n / 8, n / 4, n / 2, n * 3 / 4, n.wrapping_sub(4), n.wrapping_sub(3), n.wrapping_sub(2), n.wrapping_sub(1)];
                ((k - 4) % 4, a[(k - 4) / 4])
            };
            let v: Vec<f64> = (0..n)
                .map(|i| match k {
                    0 => i as f64,
                    1 => -(i as f64) * 2.,
                    2 => if i % 2 == 0 { i as f64 } else { -(i as f64) },
                    4.. => if i == at {
                        if spike < 2 { 9000. } else { -9000. }
                    } else if spike % 2 == 0 { i as f64 } else { -(i as f64) },
                    _ => if i == n * 7 / 8 { 5000. } else if i == n / 8 { -5000. } else { 1. },
                })
                .collect();
            lists::<f64>(cx, &v)?;
            lists::<f32>(cx, &v)
        }),
    });
    fams.push(Family {
        name: "nothing",
        bound: "the empty line".into(),
        outcomes: &[],
        f: Box::new(|cx| {
            cx.op(2);
            let l = Line::<f64>::empty();
            ensure!(l.is_empty() && l.start().is_none() && l.end().is_none() && l.envelope().is_empty(), "empty line: {:?}", l);
            let l = Line::<f32>::empty();
            ensure!(l.is_empty() && l.start().is_none() && l.end().is_none() && l.envelope().is_empty(), "empty line: {:?}", l);
            ensure!(MultiLine::<f64>::empty().is_empty(), "empty multiline");
            Ok(())
        }),
    });
    run_check(Check {
        id: "C20",
        assumptions: vec!["an interval with a NaN end contains no number and so neither meets nor contains anything; infinite ends are closed"],
        families: fams,
    })
}
