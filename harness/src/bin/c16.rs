//! C16: tight bounding boxes of all geometry types, for every way to construct them.
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::planar::types::{Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::rt::{item_of, same, union, Item};

type Q = (f64, f64);
/// Least box, coordinate by coordinate, NaN yielding.
fn tight<'a>(it: impl Iterator<Item = &'a Q>) -> Item {
    let mut w: Item = None;
    for q in it {
        w = union(&w, &Some([q.0, q.1, q.0, q.1]));
    }
    w
}
fn p<C: Co>(q: &Q) -> Position<C> {
    Position::new(C::of(q.0), C::of(q.1))
}
fn ps<C: Co>(v: &[Q]) -> Vec<Position<C>> {
    v.iter().map(p).collect()
}
fn chk<C: Co>(cx: &mut Cx, e: Envelope<C>, want: &Item, what: impl Fn() -> String) -> R {
    cx.op(1);
    let w = want.map(|b| b.map(|x| C::of(x).f()));
    ensure!(same(&item_of(&e), &w), "{} envelope of {} is {:?}, should be {:?}", C::NAME, what(), item_of(&e), w);
    Ok(())
}
/// The linestring built in one of four ways.
fn line<C: Co>(v: &[Q], how: usize) -> LineString<C> {
    match how % 4 {
        0 => LineString::new(ps(v)),
        1 => LineString::from(v.iter().map(|q| (C::of(q.0), C::of(q.1))).collect::<Vec<_>>()),
        2 => LineString::from(v.iter().map(|q| [C::of(q.0), C::of(q.1)]).collect::<Vec<_>>()),
        _ => LineString::collect_from(v.iter().map(p)),
    }
}
fn flat<C: Co>(cx: &mut Cx, v: &[Q]) -> R {
    let w = tight(v.iter());
    for how in 0..4 {
        let l = line::<C>(v, how);
        chk(cx, l.envelope(), &w, || format!("line {:?} built in way {}", v, how))?;
        chk(cx, l.clone().envelope(), &w, || format!("copy of line {:?} built in way {}", v, how))?;
        chk(cx, Geometry::from(line::<C>(v, how)).envelope(), &w, || format!("wrapped line {:?} built in way {}", v, how))?;
        chk(cx, Polygon::from(line::<C>(v, how)).envelope(), &w, || format!("polygon from line {:?}", v))?;
        chk(cx, MultiLineString::from(vec![line::<C>(v, how)]).envelope(), &w, || format!("multiline of {:?}", v))?;
        chk(cx, MultiPolygon::from(vec![line::<C>(v, how)]).envelope(), &w, || format!("multipolygon of {:?}", v))?;
    }
    let mps = [
        MultiPoint::<C>::new(v.iter().map(|q| Point(p(q))).collect()),
        MultiPoint::from(ps(v)),
        MultiPoint::from(v.iter().map(|q| (C::of(q.0), C::of(q.1))).collect::<Vec<_>>()),
    ];
    for m in mps {
        chk(cx, m.envelope(), &w, || format!("multipoint {:?}", v))?;
        chk(cx, Geometry::from(m).envelope(), &w, || format!("wrapped multipoint {:?}", v))?;
    }
    chk(cx, Envelope::of(ps::<C>(v).iter()), &w, || format!("positions {:?}", v))?;
    let pts: Vec<Position<C>> = ps(v);
    for d in [2, 8] {
        chk(cx, Flatbush::new(&pts, d).envelope(), &w, || format!("index of degree {} of {:?}", d, v))?;
        chk(cx, Flatbush::new_unsorted(&pts, d).envelope(), &w, || format!("unsorted index of degree {} of {:?}", d, v))?;
    }
    if v.len() >= 2 {
        chk(cx, line::<C>(v, 0).build_rtree().envelope(), &w, || format!("index of line {:?}", v))?;
    }
    if v.len() == 1 {
        chk(cx, p::<C>(&v[0]).envelope(), &w, || format!("position {:?}", v))?;
        chk(cx, Point::<C>::from((C::of(v[0].0), C::of(v[0].1))).envelope(), &w, || format!("point {:?}", v))?;
        chk(cx, Point::new(p::<C>(&v[0])).envelope(), &w, || format!("point {:?}", v))?;
        chk(cx, Geometry::from(Point::new(p::<C>(&v[0]))).envelope(), &w, || format!("wrapped point {:?}", v))?;
    }
    if v.len() == 2 {
        chk(cx, Segment::new(p::<C>(&v[0]), p(&v[1])).envelope(), &w, || format!("segment {:?}", v))?;
        chk(cx, Segment::from((p::<C>(&v[0]), p(&v[1]))).envelope(), &w, || format!("segment {:?}", v))?;
        chk(cx, line::<C>(v, 0).get_segment(0).envelope(), &w, || format!("segment 0 of {:?}", v))?;
    }
    Ok(())
}
/// Parts as multilinestring, as polygon (first is the exterior), and cut into polygons.
fn parts<C: Co>(cx: &mut Cx, v: &[Vec<Q>], how: usize) -> R {
    let w = tight(v.iter().flatten());
    let ls = |v: &[Vec<Q>]| v.iter().map(|l| line::<C>(l, how)).collect::<Vec<_>>();
    chk(cx, MultiLineString::new(ls(v)).envelope(), &w, || format!("multiline {:?}", v))?;
    chk(cx, MultiLineString::from(ls(v)).envelope(), &w, || format!("multiline {:?}", v))?;
    chk(cx, MultiLineString::from(v.iter().map(|l| ps::<C>(l)).collect::<Vec<_>>()).envelope(), &w, || format!("multiline {:?}", v))?;
    chk(cx, Geometry::from(MultiLineString::new(ls(v))).envelope(), &w, || format!("wrapped multiline {:?}", v))?;
    chk(cx, MultiPolygon::from(ls(v)).envelope(), &w, || format!("multipolygon of rings {:?}", v))?;
    chk(cx, MultiPolygon::from(v.iter().map(|l| ps::<C>(l)).collect::<Vec<_>>()).envelope(), &w, || format!("multipolygon of rings {:?}", v))?;
    if v.len() > 0 {
        let x = tight(v[0].iter());
        let poly = || Polygon::new(line::<C>(&v[0], how), ls(&v[1..]));
        chk(cx, poly().envelope(), &x, || format!("polygon {:?}", v))?;
        chk(cx, Geometry::from(poly()).envelope(), &x, || format!("wrapped polygon {:?}", v))?;
        if v.len() > 1 {
            for cut in 1..v.len() {
                let w2 = union(&x, &tight(v[cut].iter()));
                let mp = || MultiPolygon::new(vec![Polygon::new(line::<C>(&v[0], how), ls(&v[1..cut])), Polygon::new(line(&v[cut], how), ls(&v[cut + 1..]))]);
                chk(cx, mp().envelope(), &w2, || format!("multipolygon of {:?} cut at {}", v, cut))?;
                chk(cx, Geometry::from(mp()).envelope(), &w2, || format!("wrapped multipolygon of {:?} cut at {}", v, cut))?;
            }
            // the boundary of a polygon has all rings
            let b = poly().boundary();
            chk(cx, b.envelope(), &w, || format!("boundary of polygon {:?}", v))?;
        }
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["empty", "box"];
    let sp: Vec<f64> = vec![0.0, -0.0, 1.0, -3.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f32::MAX as f64, f32::MIN as f64, 1e-30];
    let s = sp.clone();
    fams.push(Family {
        name: "special",
        bound: format!("every list of up to {} positions with coordinates from {:?}, all types and constructors, f64 and f32", if th { 3 } else { 2 }, sp),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(if th { 4 } else { 3 });
            let v: Vec<Q> = (0..n).map(|_| (*cx.pick(&s), *cx.pick(&s))).collect();
            cx.note(|| format!("positions {:?}", v));
            cx.outcome((n > 0) as usize);
            flat::<f64>(cx, &v)?;
            flat::<f32>(cx, &v)
        }),
    });
    let few: Vec<Q> = vec![(0., 0.), (1., -2.), (-3., 5.), (f64::NAN, 1.), (2., f64::NAN), (f64::INFINITY, -0.), (-7., -7.), (f64::NAN, f64::NAN)];
    let len = if th { 7 } else { 6 };
    let f = few.clone();
    fams.push(Family {
        name: "lists",
        bound: format!("every list of up to {} of {} positions (NaN in either or both coordinates, infinite), all types and constructors", len, few.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(len + 1);
            let v: Vec<Q> = (0..n).map(|_| *cx.pick(&f)).collect();
            cx.note(|| format!("positions {:?}", v));
            cx.outcome((n > 0) as usize);
            flat::<f64>(cx, &v)?;
            flat::<f32>(cx, &v)
        }),
    });
    let sizes: Vec<usize> = if th { (1..=80).chain([127, 128, 129, 255, 256, 257, 1000, 4097]).collect() } else { (1..=40).chain([63, 64, 65, 127, 128, 129, 257, 1000]).collect() };
    let sz = sizes.clone();
    fams.push(Family {
        name: "many",
        bound: format!("{:?} positions of 4 layouts, one of them (any; 14 spots for more than 70) the only extreme in one of 4 directions, NaN or an infinity", sizes),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let lay = cx.choose(4);
            let mut v: Vec<Q> = (0..n)
                .map(|i| match lay {
                    0 => ((i % 7) as f64, (i % 11) as f64),
                    1 => (5., 5.),
                    2 => (i as f64, -(i as f64)),
                    _ => (n as f64 - i as f64, if i % 3 == 0 { f64::NAN } else { i as f64 }),
                })
                .collect();
            let spots: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, 1, 7, 8, 9, 63, 64, n / 2, n / 2 + 1, n - 10, n - 9, n - 8, n - 2, n - 1] };
            let i = *cx.pick(&spots);
            match cx.choose(6) {
                0 => v[i].0 = -9999.,
                1 => v[i].0 = 9999.,
                2 => v[i].1 = -9999.,
                3 => v[i].1 = 9999.,
                4 => v[i] = (f64::NAN, 4.5),
                _ => v[i].1 = f64::NEG_INFINITY,
            }
            cx.note(|| format!("{} positions, layout {}, position {} is {:?}", n, lay, i, v[i]));
            flat::<f64>(cx, &v)?;
            if n < 100 {
                flat::<f32>(cx, &v)?;
            }
            Ok(())
        }),
    });
    // lists of parts
    let cat: Vec<Vec<Q>> = vec![
        vec![],
        vec![(1., 2.)],
        vec![(0., 0.), (4., 0.), (0., 4.), (0., 0.)],
        vec![(-9., -1.), (-8., 3.)],
        vec![(10., f64::NAN), (f64::NAN, 20.), (12., -5.)],
        vec![(f64::NAN, f64::NAN)],
        vec![(0., 0.), (f64::NEG_INFINITY, 1.)],
        vec![(-100., 50.), (100., -50.), (0., 0.), (-100., 50.)],
    ];
    let pl = if th { 6 } else { 5 };
    fams.push(Family {
        name: "parts",
        bound: format!("every list of up to {} parts of {} kinds (empty, one position, NaN, infinite, small, large) as multilinestring, polygon with holes, multipolygon cut anywhere; 4 constructors", pl, cat.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(pl + 1);
            let v: Vec<Vec<Q>> = (0..n).map(|_| cx.pick(&cat).clone()).collect();
            cx.note(|| format!("parts {:?}", v));
            cx.outcome(v.iter().any(|l| !l.is_empty()) as usize);
            for how in 0..4 {
                parts::<f64>(cx, &v, how)?;
            }
            parts::<f32>(cx, &v, 0)
        }),
    });
    let sz: Vec<usize> = sizes.iter().copied().filter(|n| *n <= 300).collect();
    fams.push(Family {
        name: "manyparts",
        bound: format!("{:?} small parts, one (any; 14 spots for more than 70) replaced by an empty, NaN, or far-reaching one", sz),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let mut v: Vec<Vec<Q>> = (0..n).map(|i| vec![(i as f64, 0.), (i as f64 + 1., 1. + (i % 5) as f64), (i as f64, 0.)]).collect();
            let spots: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, 1, 7, 8, 9, 63, 64, n / 2, n / 2 + 1, n - 10, n - 9, n - 8, n - 2, n - 1] };
            let i = *cx.pick(&spots);
            v[i] = match cx.choose(5) {
                0 => vec![],
                1 => vec![(f64::NAN, -7.)],
                2 => vec![(-50., 3.), (0., 0.)],
                3 => vec![(0., 0.), (5000., 3.)],
                _ => vec![(3., -60.), (3., 60.)],
            };
            cx.note(|| format!("{} parts, part {} is {:?}", n, i, v[i]));
            let w = tight(v.iter().flatten());
            let ls = || v.iter().map(|l| line::<f64>(l, 0)).collect::<Vec<_>>();
            chk(cx, MultiLineString::new(ls()).envelope(), &w, || "multiline".into())?;
            chk(cx, MultiPolygon::from(ls()).envelope(), &w, || "multipolygon".into())?;
            chk(cx, Polygon::new(line::<f64>(&v[0], 0), ls()).envelope(), &tight(v[0].iter()), || "polygon".into())?;
            chk(cx, Flatbush::new(&ls(), 8).envelope(), &w, || "index".into())?;
            chk(cx, Flatbush::new_unsorted(&ls(), 4).envelope(), &w, || "index".into())
        }),
    });
    let sizes: Vec<usize> = if th { (4..=40).chain([63, 64, 65, 66, 100, 129, 257]).collect() } else { vec![4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 34, 65, 66] };
    fams.push(Family {
        name: "polygons",
        bound: format!("polygons with {:?} positions in the exterior, any of them the extreme in one of 4 directions, and 0..5, 8, 9, 17 or 33 holes (inside, or reaching out), alone, wrapped, and first or second of a multipolygon", sizes),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes);
            let holes = *cx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 17, 33]);
            let i = cx.choose(n);
            let dir = cx.choose(4);
            let out = cx.flip();
            let mut e: Vec<Q> = (0..n).map(|i| (((i * 7) % 10) as f64, ((i * 3) % 10) as f64)).collect();
            match dir {
                0 => e[i].0 = -50.,
                1 => e[i].0 = 50.,
                2 => e[i].1 = -50.,
                _ => e[i].1 = 50.,
            }
            cx.note(|| format!("exterior of {} positions, position {} is {:?}, {} holes", n, i, e[i], holes));
            let h = |k: usize| -> Vec<Q> {
                let f = (k % 5) as f64 * if out { -40. } else { 1. };
                vec![(f, 2.), (f + 1., 2.), (f, 3.), (f, 2.)]
            };
            let w = tight(e.iter());
            let poly = |how| Polygon::new(line::<f64>(&e, how), (0..holes).map(|k| line(&h(k), how)).collect());
            chk(cx, poly(0).envelope(), &w, || "polygon".into())?;
            chk(cx, poly(2).envelope(), &w, || "polygon".into())?;
            chk(cx, Geometry::from(poly(1)).envelope(), &w, || "wrapped polygon".into())?;
            let other = vec![(7., 7.), (8., 8.), (8., 9.), (7., 7.)];
            let w2 = union(&w, &tight(other.iter()));
            chk(cx, MultiPolygon::new(vec![Polygon::new(line(&other, 0), vec![]), poly(3)]).envelope(), &w2, || "multipolygon".into())?;
            chk(cx, MultiPolygon::new(vec![poly(0), Polygon::new(line(&other, 0), vec![])]).envelope(), &w2, || "multipolygon".into())
        }),
    });
    fams.push(Family {
        name: "empties",
        bound: "every geometry type without positions".into(),
        outcomes: &[],
        f: Box::new(|cx| {
            chk::<f64>(cx, Geometry::empty().envelope(), &None, || "the empty geometry".into())?;
            chk::<f32>(cx, Empty::new().envelope(), &None, || "the empty geometry".into())?;
            chk::<f64>(cx, Flatbush::<f64>::new_empty().envelope(), &None, || "the empty index".into())?;
            chk::<f64>(cx, Polygon::<f64>::new(LineString::new(vec![]), vec![LineString::from(vec![(0., 0.)])]).envelope(), &None, || "polygon with empty exterior".into())?;
            chk::<f64>(cx, MultiPolygon::<f64>::new(vec![]).envelope(), &None, || "empty multipolygon".into())?;
            chk::<f64>(cx, MultiPoint::<f64>::new(vec![]).envelope(), &None, || "empty multipoint".into())
        }),
    });
    run_check(Check {
        id: "C16",
        assumptions: vec!["a NaN coordinate does not extend a box; a geometry with positions but only NaN coordinates has a box with NaN sides, not an empty one"],
        families: fams,
    })
}
