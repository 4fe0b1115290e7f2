//! C06: intersection of two segments.
use magog::planar::primitives::{Position, Segment, SegmentIntersection};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

/// Compare one call with the exact intersection of the integer segments.
fn one<C: Co>(cx: &mut Cx, e: &Emb, a: P, b: P, c: P, d: P, want: &Isect) -> R {
    cx.op(1);
    let s: Segment<C> = e.seg(a, b);
    let t: Segment<C> = e.seg(c, d);
    let got = s.intersect_segment(t);
    let fail = |w: String| -> R {
        Err(Fail::new(format!(
            "{} segments {:?}-{:?} and {:?}-{:?} mapped by {}: expected {}, got {:?}",
            C::NAME, a, b, c, d, e.name, w, got
        )))
    };
    match (want, &got) {
        (Isect::None, SegmentIntersection::None) => Ok(()),
        (Isect::None, _) => fail("no intersection".into()),
        (Isect::Overlap(p, q), SegmentIntersection::Segment(g)) => {
            let (p1, q1) = (e.pos::<C>(*p), e.pos::<C>(*q));
            if (g.start == p1 && g.end == q1) || (g.start == q1 && g.end == p1) {
                Ok(())
            } else {
                fail(format!("the stretch {} {}", show_pos(p1), show_pos(q1)))
            }
        }
        (Isect::Overlap(p, q), _) => fail(format!("the stretch {:?} {:?}", p, q)),
        (Isect::Point { x, y, den }, SegmentIntersection::Position(g)) => {
            for p in [a, b, c, d] {
                if isect_is(want, p) {
                    let w = e.pos::<C>(p);
                    return if *g == w { Ok(()) } else { fail(format!("exactly {}", show_pos(w))) };
                }
            }
            let (fx, fy) = (*x as f64 / *den as f64, *y as f64 / *den as f64);
            let wx = fx * e.m[0] + fy * e.m[1] + e.o[0];
            let wy = fx * e.m[2] + fy * e.m[3] + e.o[1];
            let mut mag: f64 = 0.;
            for p in [a, b, c, d] {
                let (x, y) = e.xy(p);
                mag = mag.max(x.abs()).max(y.abs());
            }
            // 1e-10-ish relative slack would hide nothing but a wrong formula; stay near rounding
            let tol = 16. * C::EPS * mag;
            if (g.x.f() - wx).abs() <= tol && (g.y.f() - wy).abs() <= tol {
                Ok(())
            } else {
                fail(format!("the position ({}, {})", wx, wy))
            }
        }
        (Isect::Point { .. }, _) => fail(format!("one position {:?}", want)),
    }
}
fn class(cx: &mut Cx, i: &Isect) {
    cx.outcome(match i {
        Isect::None => 0,
        Isect::Point { .. } => 1,
        Isect::Overlap(..) => 2,
    })
}
fn all(cx: &mut Cx, embs: &[Emb], a: P, b: P, c: P, d: P) -> R {
    cx.note(|| format!("segments {:?}-{:?} and {:?}-{:?}", a, b, c, d));
    let want = isect(a, b, c, d);
    class(cx, &want);
    for e in embs {
        one::<f64>(cx, e, a, b, c, d, &want)?;
        if !e.wide {
            one::<f32>(cx, e, a, b, c, d, &want)?;
        }
    }
    Ok(())
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["none", "position", "stretch"];
    let mut embs: Vec<Emb> = EMBS.to_vec();
    embs.extend(EXTREME);
    let embs = Arc::new(embs);
    let g = Arc::new(grid(4, 4));
    let (gg, ee) = (g.clone(), embs.clone());
    fams.push(Family {
        name: "quadruples4",
        bound: format!("all 65536 pairs of segments (degenerate ones included) with end points on the 4x4 grid, {} embeddings, f64 and f32", embs.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let (a, b, c, d) = (*cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg));
            all(cx, &ee, a, b, c, d)
        }),
    });
    let (w, h) = if th { (7, 6) } else { (6, 5) };
    let g = Arc::new(grid(w, h));
    let (gg, ee) = (g.clone(), if th { embs.clone() } else { Arc::new(vec![SHIFT, SHEAR, FAR, MIXED]) });
    fams.push(Family {
        name: "quadruples6",
        bound: format!("all pairs of segments with end points on the {}x{} grid, {} embeddings", w, h, ee.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let (a, b, c, d) = (*cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg));
            all(cx, &ee, a, b, c, d)
        }),
    });
    // oblique long segments: contact exactly at, just before and just after every lattice point
    let lim: usize = if th { 60 } else { 28 };
    fams.push(Family {
        name: "touch",
        bound: format!("segment (0,0)-(w,h)*k, w,h <= {} coprime, k <= 12; other segment ending on, one unit before or past each lattice point (also its ends), coming from either side, perpendicular, oblique or nearly parallel; every operand order and direction", lim),
        outcomes: &["none", "position"],
        f: Box::new(move |cx| {
            let w = cx.choose(lim) as i64 + 1;
            let h = cx.choose(lim + 1) as i64;
            let k = *cx.pick(&[1i64, 2, 3, 7, 10, 11, 12]);
            if gcd(w, h) != 1 {
                return Ok(());
            }
            let b = (w * k, h * k);
            let t = cx.choose(k as usize + 1) as i64;
            let q = (w * t, h * t);
            let side = if cx.flip() { 1 } else { -1 };
            let dir = match cx.choose(4) {
                0 => (-h * side, w * side),
                1 => (w - h * side, h + w * side),
                2 => (7 * w - h * side, 7 * h + w * side),
                _ => (-3 * w - 2 * h * side, -3 * h + 2 * w * side),
            };
            let s = 8;
            let end = cx.choose(3) as i64 - 1;
            let (a, b) = ((0, 0), (b.0 * s, b.1 * s));
            let c = (q.0 * s + dir.0 * end, q.1 * s + dir.1 * end);
            let d = (q.0 * s + dir.0 * 24, q.1 * s + dir.1 * 24);
            cx.note(|| format!("segments {:?}-{:?} and {:?}-{:?}, all orders and directions", a, b, c, d));
            let want = isect(a, b, c, d);
            class(cx, &want);
            for e in [ID, MIXED, FAR20] {
                for r in 0..8 {
                    let (a1, b1) = if r & 1 == 0 { (a, b) } else { (b, a) };
                    let (c1, d1) = if r & 2 == 0 { (c, d) } else { (d, c) };
                    let (a1, b1, c1, d1) = if r & 4 == 0 { (a1, b1, c1, d1) } else { (c1, d1, a1, b1) };
                    one::<f64>(cx, &e, a1, b1, c1, d1, &want)?;
                }
            }
            Ok(())
        }),
    });
    // collinear pairs on long lines
    let lim: i64 = if th { 14 } else { 9 };
    let dirs: Vec<P> = vec![(1, 0), (0, 1), (1, 1), (1, -1), (3, 7), (7, -3), (49, 1), (1, -49), (1000, 999), (13, 4)];
    fams.push(Family {
        name: "collinear",
        bound: format!("all quadruples of positions -{0}..{0} (step 1..3) on lines in {1} directions, f64 and f32", lim / 2, dirs.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let u = *cx.pick(&dirs);
            let o = *cx.pick(&[(0i64, 0i64), (5, -3)]);
            let k = *cx.pick(&[1i64, 3]);
            let mut at = || {
                let t = (cx.choose(lim as usize) as i64 - lim / 2) * k;
                (o.0 + t * u.0, o.1 + t * u.1)
            };
            let (a, b, c, d) = (at(), at(), at(), at());
            cx.note(|| format!("segments {:?}-{:?} and {:?}-{:?}", a, b, c, d));
            let want = isect(a, b, c, d);
            class(cx, &want);
            one::<f64>(cx, &ID, a, b, c, d, &want)?;
            one::<f64>(cx, &SWAP, a, b, c, d, &want)?;
            if u.0 < 100 && u.0.abs() < 100 {
                one::<f32>(cx, &ID, a, b, c, d, &want)?;
            }
            one::<f64>(cx, &XBIG, a, b, c, d, &want)
        }),
    });
    // nearly parallel, nearly touching: neighbours in exact arithmetic far below coarse tolerances
    let ns: Vec<i64> = if th { (1..400).collect() } else { vec![1, 2, 3, 10, 99, 100, 101, 1000, 4095, 4096, 65535, 65536, 99999, 1000000, 8388607] };
    fams.push(Family {
        name: "narrow",
        bound: format!("segment (0,0)-(n,m) with n of {} sizes up to 2^23 and m in 0..3, against segments joining two of the 12 lattice points within one unit of its two ends or its middle; 3 embeddings", ns.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let m = cx.choose(4) as i64;
            let b = (n, m);
            let pts: Vec<P> = vec![(0, 0), (0, 1), (0, -1), (1, 0), (-1, 0), (n, m), (n, m + 1), (n, m - 1), (n - 1, m), (n + 1, m), (n / 2, m / 2), (n / 2, m / 2 + 1)];
            let c = *cx.pick(&pts);
            let d = *cx.pick(&pts);
            let k = *cx.pick(&[1i64, 2]);
            let (b, c, d) = ((b.0 * k, b.1 * k), (c.0 * k, c.1 * k), (d.0 * k, d.1 * k));
            cx.note(|| format!("segments (0,0)-{:?} and {:?}-{:?}", b, c, d));
            let want = isect((0, 0), b, c, d);
            class(cx, &want);
            for e in [ID, SMALL, MIRY] {
                one::<f64>(cx, &e, (0, 0), b, c, d, &want)?;
                one::<f64>(cx, &e, d, c, b, (0, 0), &want)?;
            }
            Ok(())
        }),
    });
    fams.push(Family {
        name: "slivers",
        bound: format!("segments (0,0)-(n, s n + i) and (p, j)-(n + q, s n + l), n of {} powers of two up to 2^50, s of 0, 1, -1, 2, the rest small, wherever all products are exact; f64, and f32 where exact there; swapped, reversed", if th { 47 } else { 15 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (4..=50).collect() } else { vec![5, 8, 10, 12, 16, 20, 21, 24, 25, 26, 30, 36, 40, 45, 50] };
            let m = *cx.pick(&sizes);
            let n = 1i64 << m;
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            cx.note(|| format!("segments {:?}-{:?} and {:?}-{:?}", a, b, c, e));
            let want = isect(a, b, c, e);
            class(cx, &want);
            one::<f64>(cx, &ID, a, b, c, e, &want)?;
            one::<f64>(cx, &ID, e, c, a, b, &want)?;
            one::<f64>(cx, &SWAP, e, c, b, a, &want)?;
            if sliver(n, s, d, 24).is_some() {
                one::<f32>(cx, &ID, a, b, c, e, &want)?;
                one::<f32>(cx, &ID, e, c, a, b, &want)?;
            }
            Ok(())
        }),
    });
    fams.push(Family {
        name: "far-apart",
        bound: "segments of length 2^k (k up to 50) along x, y or a diagonal, crossed by a short one of slope 0, infinity, 1 or -1 at 2^j from either end, and just beside the end; both orders and directions".into(),
        outcomes: &["none", "position", "stretch"],
        f: Box::new(move |cx| {
            let k = 3 + cx.choose(48);
            let j = cx.choose(k);
            let far = cx.flip();
            let (u, w) = *cx.pick(&[((1i64, 0i64), (0i64, 1i64)), ((0, 1), (1, 0)), ((1, 1), (1, -1)), ((1, -1), (1, 1)), ((1, 0), (1, 1)), ((0, 1), (-1, 1)), ((1, 0), (1, 0))]);
            let n = 1i64 << k;
            let at = if far { n - (1 << j) } else { 1 << j };
            let at = match cx.choose(3) { 0 => at, 1 => at - if far { 0 } else { 1 << j }, _ => if far { n + (1 << j) } else { -(1 << j) } };
            let b = (u.0 * n, u.1 * n);
            let c = (u.0 * at, u.1 * at);
            let (p, q) = ((c.0 + w.0, c.1 + w.1), (c.0 - 2 * w.0, c.1 - 2 * w.1));
            cx.note(|| format!("segments (0,0)-{:?} and {:?}-{:?}", b, p, q));
            let want = isect((0, 0), b, p, q);
            class(cx, &want);
            one::<f64>(cx, &ID, (0, 0), b, p, q, &want)?;
            one::<f64>(cx, &ID, b, (0, 0), q, p, &want)?;
            one::<f64>(cx, &MIRY, q, p, (0, 0), b, &want)?;
            one::<f64>(cx, &SWAP, p, q, b, (0, 0), &want)?;
            if k <= 22 {
                one::<f32>(cx, &ID, (0, 0), b, p, q, &want)?;
                one::<f32>(cx, &ID, q, p, b, (0, 0), &want)?;
            }
            Ok(())
        }),
    });
    // coordinates that are not exact: end points must still be returned bit by bit
    let g = Arc::new(grid(4, 4));
    let gg = g.clone();
    fams.push(Family {
        name: "decimal",
        bound: "all pairs of non-parallel segments of the 4x4 grid that are disjoint, cross properly or share an end point, at scales 0.1, 1/3, 0.001, -0.7; f64 and f32".into(),
        outcomes: &["none", "position"],
        f: Box::new(move |cx| {
            let (a, b, c, d) = (*cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg));
            let par = (b.0 - a.0) * (d.1 - c.1) == (b.1 - a.1) * (d.0 - c.0);
            if par || !robust_pair(a, b, c, d) {
                return Ok(());
            }
            cx.note(|| format!("segments {:?}-{:?} and {:?}-{:?}", a, b, c, d));
            let want = isect(a, b, c, d);
            class(cx, &want);
            fn go<C: Co>(cx: &mut Cx, k: f64, o: f64, q: [P; 4], want: &Isect) -> R {
                let m = |p: P| Position::<C>::new(C::of(p.0 as f64 * k + o), C::of(p.1 as f64 * k - o));
                let s = Segment::new(m(q[0]), m(q[1]));
                let t = Segment::new(m(q[2]), m(q[3]));
                cx.op(1);
                let got = s.intersect_segment(t);
                let ok = match (want, &got) {
                    (Isect::None, SegmentIntersection::None) => true,
                    (Isect::Point { x, y, den }, SegmentIntersection::Position(g)) => {
                        match q.iter().find(|p| isect_is(want, **p)) {
                            Some(p) => *g == m(*p),
                            None => {
                                let (fx, fy) = (*x as f64 / *den as f64 * k + o, *y as f64 / *den as f64 * k - o);
                                let tol = 64. * C::EPS * (3. * k.abs() + o.abs());
                                (g.x.f() - fx).abs() <= tol && (g.y.f() - fy).abs() <= tol
                            }
                        }
                    }
                    _ => false,
                };
                ensure!(ok, "{} mapped by {}x{:+}: expected {:?}, got {:?}", C::NAME, k, o, want, got);
                Ok(())
            }
            for (k, o) in [(0.1, 0.0), (1. / 3., 0.7), (0.001, 0.1), (-0.7, 1.3)] {
                go::<f64>(cx, k, o, [a, b, c, d], &want)?;
                go::<f32>(cx, k, o, [a, b, c, d], &want)?;
            }
            Ok(())
        }),
    });
    let vals: Vec<f64> = vec![0.1, 0.2, 0.1 + 0.2, 0.3, 1. / 3., 0.7, 1.1, 1e-3, -0.1, 0.0, 1e17, -7e-9];
    let vals = if th { vals } else { vals[..9].to_vec() };
    fams.push(Family {
        name: "linedecimal",
        bound: format!("all pairs of segments on a horizontal, vertical or diagonal line with positions from {:?}; f64 and f32", vals),
        outcomes: out,
        f: Box::new(move |cx| {
            let line = cx.choose(4);
            let n = vals.len();
            let (a, b, c, d) = (vals[cx.choose(n)], vals[cx.choose(n)], vals[cx.choose(n)], vals[cx.choose(n)]);
            fn go<C: Co>(cx: &mut Cx, line: usize, v: [f64; 4]) -> R {
                cx.op(1);
                let m = |t: f64| match line {
                    0 => Position::<C>::new(C::of(t), C::of(0.7)),
                    1 => Position::new(C::of(-1. / 3.), C::of(t)),
                    2 => Position::new(C::of(t), C::of(t)),
                    _ => Position::new(C::of(t), -C::of(t)),
                };
                let r: Vec<f64> = v.iter().map(|x| C::of(*x).f()).collect();
                let (lo, hi) = (r[0].min(r[1]).max(r[2].min(r[3])), r[0].max(r[1]).min(r[2].max(r[3])));
                let got = Segment::new(m(v[0]), m(v[1])).intersect_segment(Segment::new(m(v[2]), m(v[3])));
                let ok = match &got {
                    SegmentIntersection::None => lo > hi,
                    SegmentIntersection::Position(p) => lo == hi && *p == m(lo),
                    SegmentIntersection::Segment(s) => {
                        lo < hi && ((s.start == m(lo) && s.end == m(hi)) || (s.end == m(lo) && s.start == m(hi)))
                    }
                };
                cx.outcome(if lo > hi { 0 } else if lo == hi { 1 } else { 2 });
                ensure!(ok, "{}: expected the common part {}..{} of the line, got {:?}", C::NAME, lo, hi, got);
                Ok(())
            }
            cx.note(|| format!("segments {:?}..{:?} and {:?}..{:?} on line {}", a, b, c, d, ["y=0.7", "x=-1/3", "y=x", "y=-x"][line]));
            go::<f64>(cx, line, [a, b, c, d])?;
            go::<f32>(cx, line, [a, b, c, d])
        }),
    });
    run_check(Check {
        id: "C06",
        assumptions: vec![
            "inputs have exactly representable coordinate differences and products (except family decimal, where only configurations that rounding cannot change are judged)",
            "the direction in which an overlap is reported is not specified",
        ],
        families: fams,
    })
}
