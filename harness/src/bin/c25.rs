//! C25: a surface point lies on the surface.
use magog::planar::types::{MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

type Ring = Vec<P>;
fn dist(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0. { 0. } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0., 1.) };
    ((p.0 - a.0 - t * dx).powi(2) + (p.1 - a.1 - t * dy).powi(2)).sqrt()
}
/// 1 inside, 0 on the ring up to rounding, -1 outside.
fn place(p: (f64, f64), r: &[(f64, f64)]) -> i32 {
    if r.len() < 2 {
        return -1;
    }
    let scale = r.iter().fold(0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
    if r.windows(2).any(|w| dist(p, w[0], w[1]) <= 1e-6 * scale) {
        return 0;
    }
    let mut inside = false;
    for w in r.windows(2) {
        let (a, b) = (w[0], w[1]);
        if (a.1 > p.1) != (b.1 > p.1) && p.0 < a.0 + (p.1 - a.1) / (b.1 - a.1) * (b.0 - a.0) {
            inside = !inside;
        }
    }
    if inside { 1 } else { -1 }
}
fn on<C: Co>(e: &Emb, got: &Option<Point<C>>, polys: &[Poly], what: impl Fn() -> String) -> R {
    let empty = polys.iter().all(|p| p.0.is_empty());
    let p = match got {
        None => {
            ensure!(empty, "{} {} has no surface point", C::NAME, what());
            return Ok(());
        }
        Some(p) => (p.0.x.f(), p.0.y.f()),
    };
    ensure!(!empty, "{} {} is empty but has the surface point {:?}", C::NAME, what(), p);
    if !multipolygon_valid(polys) {
        return Ok(());
    }
    let m = |r: &Ring| -> Vec<(f64, f64)> { r.iter().map(|q| e.xy(*q)).collect() };
    // exactly, if the point is one of the model plane
    let ok = polys.iter().any(|q| place(p, &m(&q.0)) >= 0 && q.1.iter().all(|h| place(p, &m(h)) <= 0));
    ensure!(ok, "{} {}: surface point {:?} is not on the surface", C::NAME, what(), p);
    Ok(())
}
fn judge(cx: &mut Cx, polys: &[Poly]) -> R {
    cx.note(|| format!("{:?}", polys));
    cx.outcome(if polys.iter().all(|p| p.0.is_empty()) { 2 } else { multipolygon_valid(polys) as usize });
    for e in [ID, FAR, ROT45, SMALL] {
        cx.op(2);
        let what = || format!("{:?} mapped by {}", polys, e.name);
        if let [p] = polys {
            let h: Vec<&[P]> = p.1.iter().map(|x| &x[..]).collect();
            let a: Polygon<f64> = e.poly(&p.0, &h);
            on(&e, &a.point_on_surface(), polys, || format!("polygon {}", what()))?;
            let a: Polygon<f32> = e.poly(&p.0, &h);
            on(&e, &a.point_on_surface(), polys, || format!("polygon {}", what()))?;
            if h.is_empty() {
                let a: Polygon<f64> = Polygon::from(e.line(&p.0));
                on(&e, &a.point_on_surface(), polys, || format!("polygon {}", what()))?;
            }
        }
        let a: MultiPolygon<f64> = e.mpoly(polys);
        on(&e, &a.point_on_surface(), polys, || format!("multipolygon {}", what()))?;
        let a: MultiPolygon<f32> = e.mpoly(polys);
        on(&e, &a.point_on_surface(), polys, || format!("multipolygon {}", what()))?;
    }
    Ok(())
}
fn cat(pts: &[P], ns: &[usize], both: bool) -> Vec<Ring> {
    ns.iter().flat_map(|n| rings(pts, *n, both, true)).collect()
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let c = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5, 6, 7, 8, 9] } else { &[3, 4, 5, 6, 7] }, true));
    fams.push(Family {
        name: "rings",
        bound: format!("the {} simple rings of the 3x3 grid in both directions from every vertex, and the empty polygon", c.len()),
        outcomes: &["invalid", "valid", "empty"],
        f: Box::new(move |cx| {
            let r = match cx.choose(3) {
                0 => vec![],
                1 => vec![(0, 0), (2, 2), (2, 0), (0, 2), (0, 0)],
                _ => {
                    let r = cx.pick(&c);
                    respell(r, cx.choose(r.len() - 1), false)
                }
            };
            judge(cx, &[(r, vec![])])
        }),
    });
    let h = Arc::new(cat(&grid(4, 4), if th { &[3, 4, 5] } else { &[3, 4] }, false));
    let e4: Arc<Vec<Ring>> = Arc::new(vec![
        rect(0, 0, 3, 3),
        rect(-1, -1, 4, 4),
        vec![(0, 0), (6, 0), (0, 6), (0, 0)],
        vec![(0, 0), (3, 0), (3, 3), (2, 1), (0, 3), (0, 0)],
        spiral_ring(3, 1),
        comb(3),
        scale(&comb(3), 4),
    ]);
    let (hh, ee) = (h.clone(), e4.clone());
    fams.push(Family {
        name: "hole",
        bound: format!("7 exteriors from every vertex with every one of {} rings of the 4x4 grid as hole, and a second hole from 4", h.len()),
        outcomes: &["invalid", "valid"],
        f: Box::new(move |cx| {
            let r = cx.pick(&ee);
            let e = respell(r, cx.choose(r.len() - 1), false);
            let mut holes = vec![cx.pick(&hh).clone()];
            if cx.flip() {
                let more = [rect(0, 0, 1, 1), rect(1, 1, 3, 3), vec![(0, 0), (3, 0), (0, 3), (0, 0)], vec![(0, 0), (1, 2), (2, 1), (0, 0)]];
                holes.push(cx.pick(&more).clone());
                if cx.flip() {
                    holes.reverse();
                }
            }
            judge(cx, &[(e, holes)])
        }),
    });
    let s = Arc::new(cat(&grid(3, 3), &[3], false));
    let few: Arc<Vec<Poly>> = Arc::new(vec![
        (vec![], vec![]),
        (rect(0, 0, 9, 9), vec![rect(1, 1, 8, 8)]),
        (rect(2, 2, 4, 4), vec![]),
        (rect(5, 5, 7, 7), vec![vec![(5, 5), (6, 5), (6, 6), (5, 5)]]),
        (rect(20, 0, 22, 2), vec![]),
        (vec![(-1, -1), (-3, -1), (-3, -3), (-1, -1)], vec![]),
        (rect(0, 0, 5, 5), vec![rect(0, 0, 5, 5)]),
        (vec![(0, 9), (0, 12), (4, 9), (0, 9)], vec![]),
    ]);
    let (ss, ff) = (s.clone(), few.clone());
    let n = if th { 5 } else { 4 };
    fams.push(Family {
        name: "multi",
        bound: format!("every list of up to {} of 8 polygons (empty ones at any place, nested in holes, far away, invalid)", n),
        outcomes: &["invalid", "valid", "empty"],
        f: Box::new(move |cx| {
            let k = cx.choose(n + 1);
            let v: Vec<Poly> = (0..k).map(|_| cx.pick(&ff).clone()).collect();
            judge(cx, &v)
        }),
    });
    fams.push(Family {
        name: "pairs",
        bound: format!("every pair of the {} triangles of the 3x3 grid, the second moved by 0..=2 in x, also with an empty polygon in front, between or behind", s.len()),
        outcomes: &["invalid", "valid"],
        f: Box::new(move |cx| {
            let a = cx.pick(&ss).clone();
            let b = cx.pick(&ss);
            let b = shift(b, (cx.choose(3) as i64, 0));
            let mut v = vec![(a, vec![]), (b, vec![])];
            let k = cx.choose(4);
            if k < 3 {
                v.insert(k, (vec![], vec![]));
            }
            judge(cx, &v)
        }),
    });
    let big = if th { 200 } else { 60 };
    fams.push(Family {
        name: "shapes",
        bound: format!("combs, spirals and zigzag rings of every size up to {} from several starting vertices; up to {} empty polygons in front", big, big),
        outcomes: &["valid", "empty"],
        f: Box::new(move |cx| {
            let k = 1 + cx.choose(big);
            let r = match cx.choose(4) {
                0 => comb(k),
                1 => spiral_ring(1 + k / 4, 1),
                2 => zigzag_ring(k + 3),
                _ => {
                    let mut v: Vec<Poly> = vec![(vec![], vec![]); k];
                    if cx.flip() {
                        v.push((rect(3, 3, 4, 4), vec![]));
                    }
                    if v.len() > k { cx.outcome(0) } else { cx.outcome(1) }
                    cx.op(1);
                    let m: MultiPolygon<f64> = ID.mpoly(&v);
                    return on(&ID, &m.point_on_surface(), &v, || format!("{} empty polygons", k));
                }
            };
            let s = (r.len() - 1) * cx.choose(4) / 4;
            let v = [(respell(&r, s, false), vec![])];
            cx.note(|| format!("{:?}", v));
            cx.op(1);
            cx.outcome(0);
            let m: Polygon<f64> = ID.poly(&v[0].0, &[]);
            on(&ID, &m.point_on_surface(), &v, || format!("{:?}", v))
        }),
    });
    // polygons with holes among others
    let c = Arc::new(cat(&grid(3, 3), &[3, 4], false));
    let inner: Arc<Vec<Vec<Ring>>> = Arc::new(c.iter().map(|r| nooks(&scale(r, 32), 4)).collect());
    let st = if th { 1 } else { 2 };
    fams.push(Family {
        name: "dressed",
        bound: format!("the valid ones of every ordered pair of the {} rings of 3 or 4 vertices of the 3x3 grid as exterior and hole, the hole a quarter, half or all of its size at every {} offset, each with one combination of: 0-4 more holes before or after, sides of either cut into 1, 2, 4 or 8, start and direction of either, 0-3 more polygons (empty, far away, around it) anywhere", c.len(), if th { "" } else { "second" }),
        outcomes: &["invalid", "valid"],
        f: Box::new(move |cx| {
            let (i, j) = (cx.choose(c.len()), cx.choose(c.len()));
            let n = 10 / st as usize;
            let (x, y) = (cx.choose(n), cx.choose(n));
            let mut t = Turn::new(&[i, j, x, y]);
            let a = scale(&c[i], 32);
            let k = *t.pick(&[8, 8, 16, 32]);
            let b = shift(&scale(&c[j], k), (8 * (st * x as i64 - 1), 8 * (st * y as i64 - 1)));
            let mut holes: Vec<Ring> = inner[i][..t.take(inner[i].len() + 1)].to_vec();
            let at = t.take(holes.len() + 1);
            holes.insert(at, b);
            let valid = polygon_valid(&a, &holes.iter().map(|h| &h[..]).collect::<Vec<_>>());
            cx.outcome(valid as usize);
            if !valid {
                return Ok(());
            }
            let mut fine = |r: &Ring| -> Ring {
                let k = *t.pick(&[1, 1, 2, 4, 8]);
                respell(&cut(r, 8, k), t.take(4) * (1 + t.take(2) * k as usize), t.take(2) == 1)
            };
            let p: Poly = (fine(&a), holes.iter().map(|h| fine(h)).collect());
            let mut v = vec![p];
            for m in 0..t.take(4) as i64 {
                let o = 1000 + 1000 * m;
                let q: Poly = match t.take(3) {
                    0 => (vec![], vec![]),
                    1 => (respell(&rect(o, 0, o + 200, 200), t.take(4), false), vec![]),
                    _ => (rect(-o, -o, 2 * o, 2 * o), vec![respell(&rect(-o + 9, -o + 9, 2 * o - 9, 2 * o - 9), t.take(4), false)]),
                };
                // frames around frames only
                if q.1.is_empty() || v.iter().all(|w| w.0.is_empty() || w.0.iter().all(|p| p.0 < o && p.1 < o)) {
                    let at = t.take(v.len() + 1);
                    v.insert(at, q);
                }
            }
            cx.note(|| format!("{:?}", v));
            for e in [&ID, &ROT45] {
                cx.op(2);
                let what = || format!("{:?} mapped by {}", v, e.name);
                let m: MultiPolygon<f64> = e.mpoly(&v);
                on(e, &m.point_on_surface(), &v, || format!("multipolygon {}", what()))?;
                let one = v.iter().find(|p| !p.0.is_empty()).unwrap();
                let h: Vec<&[P]> = one.1.iter().map(|x| &x[..]).collect();
                let p: Polygon<f64> = e.poly(&one.0, &h);
                on(e, &p.point_on_surface(), &[one.clone()], || format!("polygon {:?} of {}", one, what()))?;
            }
            Ok(())
        }),
    });
    run_check(Check { id: "C25", assumptions: vec!["a point within 1e-6 of a ring, relative to the ring's coordinates, counts as on it"], families: fams })
}
