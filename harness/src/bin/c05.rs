//! C05: validity of points and multipoints; make_simple.
use magog::planar::primitives::Position;
use magog::planar::types::{Geometry, MultiPoint, Point};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;

type Q = (f64, f64);
/// representable in f32 too
fn values<C: Co>() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 16777215.0, (f32::MIN_POSITIVE / 8.0) as f64,
        -((f32::MIN_POSITIVE / 8.0) as f64), f32::MAX as f64, f32::MIN as f64, 1.0 + f32::EPSILON as f64,
    ];
    if !C::SINGLE {
        v.extend([f64::MAX, f64::MIN, 5e-324, -5e-324, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2., 0.1, 0.30000000000000004, 0.3, 9007199254740993.0, 9007199254740992.0, -f64::NAN]);
    }
    v
}
fn fin(q: &Q) -> bool {
    q.0.is_finite() && q.1.is_finite()
}
fn mp<C: Co>(cx: &mut Cx, qs: &[Q], how: usize) -> MultiPoint<C> {
    let _ = cx;
    match how {
        0 => MultiPoint::new(qs.iter().map(|q| Point(Position::new(C::of(q.0), C::of(q.1)))).collect()),
        1 => MultiPoint::from(qs.iter().map(|q| (C::of(q.0), C::of(q.1))).collect::<Vec<_>>()),
        _ => MultiPoint::from(qs.iter().map(|q| [C::of(q.0), C::of(q.1)]).collect::<Vec<_>>()),
    }
}
fn show(qs: &[Q]) -> String {
    format!("{:?}", qs)
}
fn judge<C: Co>(cx: &mut Cx, qs: &[Q], how: usize) -> R {
    let all_fin = qs.iter().all(fin);
    let mut distinct: Vec<Q> = vec![];
    let mut dup = false;
    let mut seen = std::collections::HashSet::new();
    // adding 0.0 turns -0.0 into 0.0
    let key = |q: &Q| ((q.0 + 0.0).to_bits(), (q.1 + 0.0).to_bits());
    for q in qs.iter().filter(|q| fin(q)) {
        if seen.insert(key(q)) {
            distinct.push(*q);
        } else {
            dup = true;
        }
    }
    let want = all_fin && !dup;
    cx.outcome(if !all_fin { 0 } else if dup { 1 } else { 2 });
    cx.op(3);
    let m: MultiPoint<C> = mp(cx, qs, how);
    let got = m.validate();
    ensure!(got.is_ok() == want, "{} multipoint {}: should be {} but validate() = {:?}", C::NAME, show(qs), if want { "valid" } else { "invalid" }, got);
    ensure!(m.is_simple() == want, "{} multipoint {}: is_simple() = {}", C::NAME, show(qs), !want);
    ensure!(m.num_points() == qs.len(), "{} multipoint {}: num_points() = {}", C::NAME, show(qs), m.num_points());
    // contained points: the points themselves (written with the other zero, too) and some others
    let tests: Vec<Q> = if qs.len() <= 40 { qs.to_vec() } else { [0, 1, 7, 8, qs.len() / 2, qs.len() - 9, qs.len() - 2, qs.len() - 1].iter().map(|i| qs[*i]).collect() };
    let members: std::collections::HashSet<(u64, u64)> = qs.iter().filter(|q| !q.0.is_nan() && !q.1.is_nan()).map(|q| key(q)).collect();
    let others = [(0., 0.), (0.5, 0.), (1., 2.), (f64::NAN, 0.), (f64::INFINITY, 0.), (-7.25, 3.)];
    for t in tests.iter().chain(others.iter()) {
        let zs = [*t, (t.1, t.0), (-t.0, t.1)];
        for &z in if qs.len() > 300 { &zs[..1] } else { &zs[..] } {
            let want = members.contains(&key(&z));
            cx.op(1);
            let got = m.contains_point(&Point::new(Position::new(C::of(z.0), C::of(z.1))));
            ensure!(got == want, "{} multipoint {}: contains_point({:?}) = {}", C::NAME, show(qs), z, got);
        }
    }
    match m.make_simple() {
        Geometry::Empty(_) => {
            ensure!(distinct.is_empty(), "{} make_simple of {} is empty", C::NAME, show(qs));
        }
        Geometry::MultiPoint(s) => {
            ensure!(!distinct.is_empty(), "{} make_simple of {} = {:?}, not the empty geometry", C::NAME, show(qs), s.points);
            ensure!(s.validate().is_ok(), "{} make_simple of {} = {:?}, not valid", C::NAME, show(qs), s.points);
            let got: Vec<Q> = s.points.iter().map(|p| (p.0.x.f(), p.0.y.f())).collect();
            ensure!(
                got.len() == distinct.len() && got.iter().all(|g| seen.contains(&key(g))),
                "{} make_simple of {} = {:?}", C::NAME, show(qs), got
            );
        }
        g => return Err(Fail::new(format!("{} make_simple of {} = {:?}", C::NAME, show(qs), g))),
    }
    Ok(())
}
fn points<C: Co>(cx: &mut Cx) -> R {
    let v = values::<C>();
    let q = (*cx.pick(&v), *cx.pick(&v));
    cx.note(|| format!("{} point {:?}", C::NAME, q));
    cx.op(2);
    let p: Point<C> = if cx.flip() { Point::from((C::of(q.0), C::of(q.1))) } else { Point::new(Position::new(C::of(q.0), C::of(q.1))) };
    cx.outcome(fin(&q) as usize);
    ensure!(p.validate().is_ok() == fin(&q), "{} point {:?}: validate() = {:?}", C::NAME, q, p.validate());
    ensure!(p.is_simple() == fin(&q), "{} point {:?}: is_simple() = {}", C::NAME, q, p.is_simple());
    ensure!(p.0.validate().is_ok() == fin(&q), "{} position {:?}: validate() = {:?}", C::NAME, q, p.0.validate());
    ensure!(p.0.to_hashable().is_err() == (q.0.is_nan() || q.1.is_nan()), "{} position {:?}: to_hashable() = {:?}", C::NAME, q, p.0.to_hashable());
    Ok(())
}
fn pair<C: Co>(cx: &mut Cx) -> R {
    let v = values::<C>();
    let p = (*cx.pick(&v), *cx.pick(&v));
    let q = (*cx.pick(&v), *cx.pick(&v));
    cx.note(|| format!("{} multipoint {:?} {:?}", C::NAME, p, q));
    judge::<C>(cx, &[p, q], 0)
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["not finite", "duplicate", "valid"];
    fams.push(Family {
        name: "points",
        bound: "every point with both coordinates from 26 (f32: 14) special values; two constructors".into(),
        outcomes: &["invalid", "valid"],
        f: Box::new(|cx| if cx.flip() { points::<f32>(cx) } else { points::<f64>(cx) }),
    });
    fams.push(Family {
        name: "pairs",
        bound: "every multipoint of two points over the special values".into(),
        outcomes: out,
        f: Box::new(|cx| if cx.flip() { pair::<f32>(cx) } else { pair::<f64>(cx) }),
    });
    let few: Vec<f64> = vec![0.0, -0.0, 1.0, f64::NAN];
    let len = if th { 5 } else { 4 };
    fams.push(Family {
        name: "lists",
        bound: format!("every list of up to {} points with coordinates from 0, -0, 1, NaN; f64 and f32", len),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(len + 1);
            let qs: Vec<Q> = (0..n).map(|_| (*cx.pick(&few), *cx.pick(&few))).collect();
            cx.note(|| format!("multipoint {}", show(&qs)));
            let how = n % 3;
            judge::<f64>(cx, &qs, how)?;
            judge::<f32>(cx, &qs, (how + 1) % 3)
        }),
    });
    let alpha: Vec<Q> = vec![(0., 0.), (0., -0.), (1., 2.), (2., 1.), (f64::INFINITY, 0.), (0., f64::NAN), (-1., 0.), (1., 2. + f32::EPSILON as f64 * 2.)];
    let len2 = if th { 7 } else { 6 };
    fams.push(Family {
        name: "longlists",
        bound: format!("every list of up to {} of 8 points (zeros of both signs, exchanged coordinates, neighbouring floats, inf, NaN)", len2),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(len2 + 1);
            let qs: Vec<Q> = (0..n).map(|_| *cx.pick(&alpha)).collect();
            cx.note(|| format!("multipoint {}", show(&qs)));
            judge::<f64>(cx, &qs, 1)?;
            judge::<f32>(cx, &qs, 2)
        }),
    });
    // grids of many different points; one of them replaced
    let sizes: Vec<usize> = if th { (1..=40).chain([63, 64, 65, 127, 128, 129, 200, 256, 257, 500, 1000, 1024, 1025, 4096, 4097, 32769, 65536, 65537, 70000]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 1000, 1025, 4097, 65536, 65537]).collect() };
    fams.push(Family {
        name: "many",
        bound: format!("{:?} different points of 6 layouts (grid, column, row, diagonal, decimals, neighbouring floats); point i (any; 12 of them for more than 40, 3 for more than 300) replaced by a copy of another, a copy with the other zero, NaN, inf, or not", sizes),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes);
            let lay = cx.choose(6);
            let w = (n as f64).sqrt().ceil() as i64;
            let mut qs: Vec<Q> = (0..n as i64)
                .map(|i| match lay {
                    0 => ((i % w - w / 2) as f64, (i / w - w / 2) as f64),
                    1 => (0., i as f64),
                    2 => (-(i as f64), 0.),
                    3 => (i as f64 * 3., i as f64 * 3.),
                    4 => ((i * 37 % 1009) as f64 / 1024., (i * 91 % 4099) as f64 / 1024.),
                    _ => (1. + (i % w) as f64 * f32::EPSILON as f64, 4. + (i / w) as f64 * 4. * f32::EPSILON as f64),
                })
                .collect();
            let mut spots: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 4, n / 3, n / 2, n / 2 + 1, n - 9, n - 8, n - 2, n - 1] };
            spots.dedup();
            if n > 300 {
                spots = vec![0, n / 2 + 1, n - 1];
            }
            let i = *cx.pick(&spots);
            match cx.choose(6) {
                0 => {}
                1 => qs[i] = qs[*cx.pick(&spots)],
                2 => {
                    let q = qs[*cx.pick(&spots)];
                    let z = |v: f64| if v == 0. { -v } else { v };
                    qs[i] = (z(q.0), z(q.1));
                }
                3 => qs[i].0 = f64::NAN,
                4 => qs[i].1 = f64::NEG_INFINITY,
                _ => qs[i] = (qs[i].1, qs[i].0),
            }
            cx.note(|| format!("multipoint of {} points, layout {}, point {} is {:?}", n, lay, i, qs[i]));
            judge::<f64>(cx, &qs, 0)?;
            judge::<f32>(cx, &qs, 1)
        }),
    });
    // different numbers that look alike when they are packed, cut, rounded or mixed together
    fn spread(top: i32, single: bool) -> Vec<f64> {
        let mut v = vec![];
        for k in [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 21, 23, 24, 26, 30, 31, 32, 33, 40, 47, 48, 52, 53, 62, 63, 64, 65, 100] {
            let f = 2f64.powi(k);
            for w in [f - 1., f, f + 1., 1.5 * f, 1. / f, -f, -f - 1., -1. / f, f + 0.5] {
                if k <= top && (!single || (w as f32) as f64 == w) && !v.contains(&w) {
                    v.push(w);
                }
            }
        }
        v
    }
    fams.push(Family {
        name: "packed",
        bound: "every pair of points of which both coordinates are whole numbers around powers of two up to 2^32; and all points over the numbers around powers of two up to 2^k (k = 3, 9, 16, 17, 24, 33, 53, 100), their halves and inverses, both signs, in one multipoint, with none of them or one of 25 repeated; f64 and f32".into(),
        outcomes: &["duplicate", "valid"],
        f: Box::new(move |cx| {
            let top = *cx.pick(&[3, 9, 16, 17, 24, 33, 53, 100]);
            let single = cx.flip();
            if top != 33 || cx.flip() {
                let v = spread(top, single);
                let mut qs: Vec<Q> = v.iter().flat_map(|x| v.iter().map(move |y| (*x, *y))).collect();
                let r = cx.choose(26);
                if r > 0 {
                    let k = qs.len();
                    qs.push(qs[(r * r * 7 + r) % k]);
                }
                let m = if single { mp::<f32>(cx, &qs, 0).validate() } else { mp::<f64>(cx, &qs, 0).validate() };
                cx.op(1);
                cx.outcome((r == 0) as usize);
                cx.note(|| format!("{} points over {:?}, repeated: {}", qs.len(), v, r));
                ensure!(m.is_ok() == (r == 0), "validate() = {:?} though {} of the {} points over {:?} {} repeated", m, (r > 0) as u8, qs.len(), v, if r > 0 { "is" } else { "are" });
                let g = mp::<f64>(cx, &qs, 0).make_simple();
                let n = match &g { Geometry::MultiPoint(m) => m.num_points(), _ => 0 };
                cx.op(1);
                ensure!(n == v.len() * v.len(), "make_simple keeps {} of the {} different points over {:?}", n, v.len() * v.len(), v);
                return Ok(());
            }
            let v: Vec<f64> = spread(33, single).into_iter().filter(|w| w.fract() == 0. && *w > -2.).collect();
            let p = (*cx.pick(&v), *cx.pick(&v));
            for x in &v {
                for y in &v {
                    let q = (*x, *y);
                    cx.op(1);
                    let m = if single { mp::<f32>(cx, &[p, q], 0).validate() } else { mp::<f64>(cx, &[p, q], 0).validate() };
                    ensure!(m.is_ok() == (p != q), "multipoint {:?}, {:?}: validate() = {:?}", p, q, m);
                }
            }
            cx.note(|| format!("{:?} with every other point", p));
            Ok(())
        }),
    });
    run_check(Check {
        id: "C05",
        assumptions: vec!["the order of the points of a simplified multipoint is not specified"],
        families: fams,
    })
}
