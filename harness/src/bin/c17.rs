//! C17: boundaries.
use magog::planar::primitives::{HasEnvelope, Position};
use magog::planar::types::{Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::P;
use mc::gen::*;
use std::sync::Arc;

type Q = (f64, f64);
fn ps<C: Co>(v: &[Q]) -> Vec<Position<C>> {
    v.iter().map(|q| Position::new(C::of(q.0), C::of(q.1))).collect()
}
fn ln<C: Co>(v: &[Q]) -> LineString<C> {
    LineString::new(ps(v))
}
fn back<C: Co>(p: &[Position<C>]) -> Vec<Q> {
    p.iter().map(|p| (p.x.f(), p.y.f())).collect()
}
/// The points of a boundary that should consist of points.
fn points<C: Co>(g: &Geometry<C>, what: &dyn Fn() -> String) -> Result<Vec<Q>, Fail> {
    match g {
        Geometry::Empty(_) => Ok(vec![]),
        Geometry::MultiPoint(m) => Ok(m.points.iter().map(|p| (p.0.x.f(), p.0.y.f())).collect()),
        Geometry::Point(p) => Ok(vec![(p.0.x.f(), p.0.y.f())]),
        _ => Err(Fail::new(format!("{} boundary of {} is a {}", C::NAME, what(), g.geometry_type()))),
    }
}
fn rings_of<C: Co>(g: &Geometry<C>, what: &dyn Fn() -> String) -> Result<Vec<Vec<Q>>, Fail> {
    let v = match g {
        Geometry::Empty(_) => vec![],
        Geometry::MultiLineString(m) => m.line_strings.iter().map(|l| back(&l.positions)).collect(),
        Geometry::LineString(l) => vec![back(&l.positions)],
        _ => return Err(Fail::new(format!("{} boundary of {} is a {}", C::NAME, what(), g.geometry_type()))),
    };
    Ok(v.into_iter().filter(|r: &Vec<Q>| !r.is_empty()).collect())
}
fn closed(v: &[Q]) -> bool {
    v.len() >= 4 && v[0] == v[v.len() - 1]
}
fn one_line<C: Co>(cx: &mut Cx, v: &[Q]) -> R {
    cx.op(2);
    let want: Vec<Q> = if v.is_empty() || closed(v) { vec![] } else { vec![v[0], v[v.len() - 1]] };
    let what = || format!("line {:?}", v);
    for g in [ln::<C>(v).boundary(), Geometry::from(ln::<C>(v)).boundary()] {
        let got = points(&g, &what)?;
        ensure!(g.is_empty() == want.is_empty() && (got == want || (got.len() == 2 && want.len() == 2 && got[0] == want[1] && got[1] == want[0])),
            "{} boundary of line {:?} is {:?}, should be {:?}", C::NAME, v, got, want);
        ensure!(points(&g.boundary(), &what)?.is_empty(), "{} boundary of the boundary of line {:?} is not empty", C::NAME, v);
    }
    Ok(())
}
fn multi<C: Co>(cx: &mut Cx, v: &[Vec<Q>]) -> R {
    cx.op(2);
    let mut ends: Vec<(Q, usize)> = vec![];
    for l in v.iter().filter(|l| !l.is_empty() && !closed(l)) {
        for q in [l[0], l[l.len() - 1]] {
            match ends.iter_mut().find(|e| e.0 == q) {
                Some(e) => e.1 += 1,
                None => ends.push((q, 1)),
            }
        }
    }
    let want: Vec<Q> = ends.iter().filter(|e| e.1 % 2 == 1).map(|e| e.0).collect();
    cx.outcome(if ends.is_empty() { 0 } else if want.is_empty() { 1 } else { 2 });
    let what = || format!("multiline {:?}", v);
    let m = || MultiLineString::new(v.iter().map(|l| ln::<C>(l)).collect());
    for g in [m().boundary(), Geometry::from(m()).boundary()] {
        let got = points(&g, &what)?;
        ensure!(
            got.len() == want.len() && want.iter().all(|w| got.contains(w)) && g.is_empty() == want.is_empty(),
            "{} boundary of multiline {} is {:?}, should be {:?}", C::NAME, if v.len() > 20 { format!("of {} parts", v.len()) } else { format!("{:?}", v) }, got, want
        );
        ensure!(points(&g.boundary(), &what)?.is_empty(), "{} boundary of the boundary is not empty", C::NAME);
    }
    Ok(())
}
fn area<C: Co>(cx: &mut Cx, polys: &[Vec<Vec<Q>>]) -> R {
    // each polygon: exterior first
    let mk = |p: &Vec<Vec<Q>>| Polygon::new(ln::<C>(&p[0]), p[1..].iter().map(|r| ln(r)).collect());
    let all_rings: Vec<Vec<Q>> = polys.iter().flatten().filter(|r| !r.is_empty()).cloned().collect();
    let valid_like = all_rings.iter().all(|r| closed(r));
    let check = |cx: &mut Cx, g: Geometry<C>, want: &[Vec<Q>], what: &dyn Fn() -> String| -> R {
        cx.op(1);
        let got = rings_of(&g, what)?;
        ensure!(got == want, "{} boundary of {} is {:?}, should be {:?}", C::NAME, what(), got, want);
        ensure!(g.is_empty() == want.is_empty(), "{} boundary of {}: is_empty() = {}", C::NAME, what(), g.is_empty());
        if valid_like {
            ensure!(g.boundary().is_empty(), "{} boundary of the boundary of {} is not empty", C::NAME, what());
        }
        Ok(())
    };
    if polys.len() == 1 {
        let w: Vec<Vec<Q>> = polys[0].iter().filter(|r| !r.is_empty()).cloned().collect();
        let what = || format!("polygon {:?}", polys[0]);
        let p = mk(&polys[0]);
        check(cx, p.boundary(), &w, &what)?;
        if !w.is_empty() && polys[0].len() == 1 {
            ensure!(p.boundary().envelope() == p.envelope(), "{} boundary of {} has another envelope", C::NAME, what());
        }
        check(cx, Geometry::from(p).boundary(), &w, &what)?;
    }
    let what = || format!("multipolygon {}", if polys.len() > 20 { format!("of {} polygons", polys.len()) } else { format!("{:?}", polys) });
    let m = MultiPolygon::new(polys.iter().map(mk).collect());
    check(cx, m.boundary(), &all_rings, &what)?;
    check(cx, Geometry::from(m).boundary(), &all_rings, &what)
}
fn qs(r: &[P]) -> Vec<Q> {
    r.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let pt: Vec<Q> = vec![(0., 0.), (-0., 0.), (1., 0.), (0., 1.), (-2.5, f64::INFINITY), (f32::MAX as f64, -1e-30f32 as f64)];
    let len = if th { 7 } else { 6 };
    let p = pt.clone();
    fams.push(Family {
        name: "lines",
        bound: format!("every line of up to {} positions over 6 (both zeros, infinite, extreme)", len),
        outcomes: &["empty", "closed", "open"],
        f: Box::new(move |cx| {
            let n = cx.choose(len + 1);
            let v: Vec<Q> = (0..n).map(|_| *cx.pick(&p)).collect();
            cx.note(|| format!("line {:?}", v));
            cx.outcome(if n == 0 { 0 } else if closed(&v) { 1 } else { 2 });
            one_line::<f64>(cx, &v)?;
            one_line::<f32>(cx, &v)
        }),
    });
    let cat: Vec<Vec<Q>> = vec![
        vec![],
        vec![(0., 0.), (1., 0.)],
        vec![(1., 0.), (0., 1.)],
        vec![(0., 1.), (-0., -0.)],
        vec![(0., 0.), (5., 5.), (2., -2.)],
        vec![(2., -2.), (3., 3.), (1., 0.)],
        vec![(0., 0.), (1., 0.), (0., 1.), (0., -0.)],
        vec![(0., 0.), (1., 0.), (0., 0.)],
        vec![(1., 0.)],
        vec![(f64::INFINITY, 0.), (0., 1.)],
        vec![(0., 0.), (1. + f32::EPSILON as f64, 0.)],
        vec![(2., -2.), (-2., 2.), (0., 0.), (1., 0.), (0., 1.)],
    ];
    let np = if th { 6 } else { 5 };
    let c = cat.clone();
    fams.push(Family {
        name: "multi",
        bound: format!("every multiline of up to {} of {} parts (open between shared points, closed, empty, one position, doubling back, nearly sharing)", np, cat.len()),
        outcomes: &["no end points", "all even", "some odd"],
        f: Box::new(move |cx| {
            let n = cx.choose(np + 1);
            let v: Vec<Vec<Q>> = (0..n).map(|_| cx.pick(&c).clone()).collect();
            cx.note(|| format!("multiline {:?}", v));
            multi::<f64>(cx, &v)?;
            multi::<f32>(cx, &v)
        }),
    });
    let sizes: Vec<usize> = if th { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 129, 256, 257]).collect() };
    let sz = sizes.clone();
    fams.push(Family {
        name: "manyparts",
        bound: format!("stars, chains, cycles, bundles between two points of {:?} lines; every direction pattern; line i (any; 10 for more than 40) reversed, removed, closed, doubled, emptied", sizes),
        outcomes: &["all even", "some odd"],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let shape = cx.choose(5);
            let at = |i: usize| -> Q { (((i * 31) % 509) as f64, ((i * 17) % 127) as f64) };
            let mut v: Vec<Vec<Q>> = (0..n)
                .map(|i| match shape {
                    0 => vec![(-1., -1.), at(i)],
                    1 => vec![at(i), (0.5, i as f64), at(i + 1)],
                    2 => vec![at(i), at((i + 1) % n)],
                    3 => vec![(0., 0.), (i as f64, 1.), (9., 9.)],
                    _ => vec![at(i % 3), at((i + 1) % 3)],
                })
                .collect();
            if cx.flip() {
                for l in v.iter_mut().step_by(2) {
                    l.reverse();
                }
            }
            let spots: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n / 2 + 1, n - 9, n - 8, n - 2, n - 1] };
            let i = *cx.pick(&spots);
            match cx.choose(6) {
                0 => v[i].reverse(),
                1 => {
                    v.remove(i);
                }
                2 => {
                    let q = v[i][0];
                    v[i] = vec![q, (50., 51.), (60., 70.), q];
                }
                3 => {
                    let l = v[i].clone();
                    v.push(l);
                }
                4 => v[i].clear(),
                _ => v[i] = vec![(0., -0.), (3., 3.), (77., 78.)],
            }
            cx.note(|| format!("{} lines of shape {}, line {} changed: {:?}", n, shape, i, v.get(i)));
            let mut ends: Vec<Q> = vec![];
            let _ = &mut ends;
            multi_many(cx, &v)
        }),
    });
    let sizes2: Vec<usize> = if th { (0..=40).chain([63, 64, 65, 127, 128, 129, 256, 257]).collect() } else { vec![0, 1, 2, 5, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 65] };
    fams.push(Family {
        name: "among",
        bound: format!("{:?} separate open lines (short or long), with one or two further lines of 16 kinds (there and back, doubling back to a neighbour's end, between ends of others, closed, nearly closed, equal to another one, one position, empty) first, in the middle or last", sizes2),
        outcomes: &["no end points", "all even", "some odd"],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes2);
            let long = cx.flip();
            let mut v: Vec<Vec<Q>> = (0..n)
                .map(|i| {
                    let f = 3. * i as f64;
                    if long { (0..9).map(|k| (f + (k % 2) as f64, k as f64)).collect() } else { vec![(f, 0.), (f, 8.)] }
                })
                .collect();
            let m = n as f64;
            let special: [Vec<Q>; 16] = [
                vec![(0., 0.), (0., 5.), (0., 0.)],
                vec![(0., 0.), (0., 0.)],
                vec![(0., 0.), (9., 9.), (-1., 4.), (9., 9.), (0., 0.)],
                vec![(0., 0.), (9., 9.), (-1., 4.), (0., -0.)],
                vec![(0., 0.), (9., 9.), (-1., 4.), (0., 8.)],
                vec![(0., 8.), (9., 9.), (-1., 4.), (3., 0.)],
                vec![(0., 0.), (0., 8.)],
                vec![(0., 8.), (0., 0.)],
                vec![(0., 0.)],
                vec![],
                vec![(m * 3. - 3., 0.), (-8., -8.)],
                vec![(m * 3. - 3., 8.), (0., 0.)],
                vec![(-7., -7.), (-7., 3.), (-7., -7.)],
                vec![(-7., -7.), (-7., 3.), (-6., 2.), (-7., -7.)],
                vec![(0., 0.), (1., 1.), (2., 2.), (0., 0. + f64::EPSILON)],
                vec![(-7., -7.), (0., 0.)],
            ];
            let p = cx.pick(&special).clone();
            let at = [0, n / 2, n][cx.choose(3)];
            v.insert(at, p);
            if cx.flip() {
                let p = cx.pick(&special).clone();
                let at = [0, n, n + 1][cx.choose(3)];
                v.insert(at, p);
            }
            cx.note(|| format!("{} lines among {} others (long: {})", v.len() - n, n, long));
            multi::<f64>(cx, &v)
        }),
    });
    let ring_cat: Arc<Vec<Vec<Q>>> = Arc::new(vec![
        vec![],
        qs(&rect(0, 0, 4, 4)),
        qs(&[(1, 1), (2, 1), (1, 2), (1, 1)]),
        vec![(10., -0.), (12., 0.), (11., 5.), (10., 0.)],
        vec![(0., 0.), (4., 0.), (4., 4.)],
        vec![(7., 7.)],
        qs(&rect(-3, -3, -2, -2)),
        vec![(0., 0.), (f64::INFINITY, 1.), (2., 2.), (0., 0.)],
    ]);
    let k = if th { 6 } else { 5 };
    let rc = ring_cat.clone();
    fams.push(Family {
        name: "areas",
        bound: format!("every list of up to {} rings of {} kinds (empty, closed, open, one position, infinite), divided into polygons in every way", k, rc.len()),
        outcomes: &["no rings", "rings"],
        f: Box::new(move |cx| {
            let n = cx.choose(k + 1);
            let mut polys: Vec<Vec<Vec<Q>>> = vec![];
            for i in 0..n {
                let r = cx.pick(&rc).clone();
                if i == 0 || cx.flip() {
                    polys.push(vec![r]);
                } else {
                    polys.last_mut().unwrap().push(r);
                }
            }
            cx.note(|| format!("polygons {:?}", polys));
            cx.outcome(polys.iter().flatten().any(|r| !r.is_empty()) as usize);
            // a polygon without exterior but with holes is not a geometry with rings to speak of
            if polys.iter().any(|p| p[0].is_empty() && p.iter().any(|r| !r.is_empty())) {
                return Ok(());
            }
            area::<f64>(cx, &polys)?;
            area::<f32>(cx, &polys)
        }),
    });
    let sz = sizes.clone();
    fams.push(Family {
        name: "manyrings",
        bound: format!("{:?} rings as holes of one polygon, as polygons, or in threes; ring i empty, open, reversed or as is", sizes),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let per = *cx.pick(&[1, 3, usize::MAX]);
            let mut rs: Vec<Vec<Q>> = (0..n as i64).map(|i| qs(&rect(10 * (i % 16), 10 * (i / 16), 10 * (i % 16) + 3, 10 * (i / 16) + 5))).collect();
            let spots: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n / 2 + 1, n - 9, n - 8, n - 2, n - 1] };
            let i = *cx.pick(&spots);
            match cx.choose(4) {
                0 => {
                    if per == 1 || i % per.min(n) != 0 {
                        rs[i].clear()
                    }
                }
                1 => rs[i].truncate(3),
                2 => rs[i].reverse(),
                _ => {}
            }
            cx.note(|| format!("{} rings, {} per polygon, ring {} is {:?}", n, per, i, rs[i]));
            let polys: Vec<Vec<Vec<Q>>> = rs.chunks(per.min(n)).map(|c| c.to_vec()).collect();
            area::<f64>(cx, &polys)
        }),
    });
    let counts: Vec<usize> = if th { (0..=10).chain([15, 16, 17, 31, 32, 33, 40, 63, 64, 65]).collect() } else { vec![0, 1, 2, 4, 5, 8, 9, 17, 33] };
    let most = 4;
    fams.push(Family {
        name: "holecounts",
        bound: format!("every list of 1 to {} polygons, each empty or with one of {:?} holes; all holes alike, or every third one empty or open", most, counts),
        outcomes: &["no rings", "rings"],
        f: Box::new(move |cx| {
            let n = 1 + cx.choose(most);
            let odd = cx.choose(3);
            let polys: Vec<Vec<Vec<Q>>> = (0..n as i64)
                .map(|m| {
                    let k = cx.choose(counts.len() + 1);
                    if k == 0 {
                        return vec![vec![]];
                    }
                    let mut v = vec![qs(&rect(0, 100 * m, 900, 100 * m + 90))];
                    for h in 0..counts[k - 1] as i64 {
                        let mut r = qs(&rect(10 * h + 1, 100 * m + 1 + h, 10 * h + 6, 100 * m + 5 + h));
                        match (odd, h % 3) {
                            (1, 1) => r.clear(),
                            (2, 1) => r.truncate(4),
                            _ => {}
                        }
                        v.push(r);
                    }
                    v
                })
                .collect();
            cx.note(|| format!("polygons with {:?} rings, kind {}", polys.iter().map(|p| if p[0].is_empty() { 0 } else { p.len() }).collect::<Vec<_>>(), odd));
            cx.outcome(polys.iter().any(|p| !p[0].is_empty()) as usize);
            area::<f64>(cx, &polys)
        }),
    });
    let g: Vec<f64> = vec![0., -0., 1., f64::INFINITY, f64::NAN];
    fams.push(Family {
        name: "pointlike",
        bound: "points and multipoints of up to 2 points over 0, -0, 1, inf, NaN; the empty geometry; types without parts".into(),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(3);
            let v: Vec<Q> = (0..n).map(|_| (*cx.pick(&g), *cx.pick(&g))).collect();
            cx.note(|| format!("points {:?}", v));
            cx.op(4);
            let e = |g: Geometry<f64>, what: &str| -> R {
                ensure!(g.is_empty(), "boundary of {} {:?} is {:?}", what, v, g);
                Ok(())
            };
            e(MultiPoint::from(ps::<f64>(&v)).boundary(), "multipoint")?;
            e(Geometry::from(MultiPoint::from(ps::<f64>(&v))).boundary(), "multipoint")?;
            if n == 1 {
                e(Point::from(v[0]).boundary(), "point")?;
                e(Geometry::from(Point::from(v[0])).boundary(), "point")?;
            }
            e(Geometry::empty().boundary(), "empty")?;
            e(Empty::new().boundary(), "empty")?;
            e(Polygon::new(LineString::new(vec![]), vec![]).boundary(), "empty polygon")?;
            e(MultiPolygon::new(vec![]).boundary(), "empty multipolygon")?;
            e(MultiLineString::new(vec![]).boundary(), "empty multiline")?;
            e(LineString::new(vec![]).boundary(), "empty line")
        }),
    });
    run_check(Check {
        id: "C17",
        assumptions: vec!["end points have no NaN coordinate; an open part that doubles back to its start counts that point twice"],
        families: fams,
    })
}
/// As `multi`, with a sorted oracle for many parts.
fn multi_many(cx: &mut Cx, v: &[Vec<Q>]) -> R {
    cx.op(1);
    let mut ends: Vec<Q> = v.iter().filter(|l| !l.is_empty() && !closed(l)).flat_map(|l| vec![l[0], l[l.len() - 1]]).map(|q| (q.0 + 0., q.1 + 0.)).collect();
    ends.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut want: Vec<Q> = vec![];
    for q in ends {
        if want.last() == Some(&q) {
            want.pop();
        } else {
            want.push(q);
        }
    }
    cx.outcome(!want.is_empty() as usize);
    let g = MultiLineString::new(v.iter().map(|l| ln::<f64>(l)).collect()).boundary();
    let mut got = points(&g, &|| "multiline".into())?;
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(got == want, "boundary of {} lines has {} points instead of {}", v.len(), got.len(), want.len());
    Ok(())
}
