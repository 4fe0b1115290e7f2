//! C23: linestring accessors and length agree with the list of positions.
use magog::planar::primitives::{HasEnvelope, Position, Segment};
use magog::planar::types::{LineString, MultiLineString, Point};
use mc::adapt::*;
use mc::engine::*;
use mc::rt::beyond;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;

type Q = (f64, f64);
fn eq<C: Co>(p: Position<C>, q: Q) -> bool {
    let s = |a: f64, b: f64| (a == b && a.is_sign_negative() == b.is_sign_negative()) || (a.is_nan() && b.is_nan());
    s(p.x.f(), C::of(q.0).f()) && s(p.y.f(), C::of(q.1).f())
}
fn made<C: Co>(v: &[Q]) -> Vec<LineString<C>> {
    let ps: Vec<Position<C>> = v.iter().map(|p| Position::new(C::of(p.0), C::of(p.1))).collect();
    let ts: Vec<(C, C)> = v.iter().map(|p| (C::of(p.0), C::of(p.1))).collect();
    vec![LineString::new(ps.clone()), LineString::from(ts), LineString::collect_from(ps.iter().copied()), LineString::from(ps)]
}
/// Everything but the length.
fn access<C: Co>(cx: &mut Cx, v: &[Q], all_out: bool) -> R {
    let n = v.len();
    let t = C::NAME;
    for l in made::<C>(v) {
        cx.op(8 + 2 * n as u64);
        ensure!(l.num_points() == n && l.positions.len() == n, "{} {:?}: num_points = {}", t, v, l.num_points());
        ensure!(l.is_empty() == (n == 0), "{} {:?}: is_empty = {}", t, v, l.is_empty());
        for i in 0..n {
            ensure!(eq(l.positions[i], v[i]), "{} {:?}: position {} is {:?}", t, v, i, l.positions[i]);
            match l.get_point(i) {
                Some(p) => ensure!(eq(p.0, v[i]), "{} {:?}: point {} is {:?}", t, v, i, p),
                None => return Err(Fail::new(format!("{} {:?}: point {} is missing", t, v, i))),
            }
        }
        for i in beyond(n) {
            ensure!(l.get_point(i).is_none(), "{} {:?}: point {} is {:?}", t, v, i, l.get_point(i));
        }
        let at = |p: &Option<Point<C>>, q: Option<&Q>| match (p, q) {
            (None, None) => true,
            (Some(p), Some(q)) => eq(p.0, *q),
            _ => false,
        };
        ensure!(at(&l.start_point(), v.first()), "{} {:?}: start point {:?}", t, v, l.start_point());
        ensure!(at(&l.end_point(), v.last()), "{} {:?}: end point {:?}", t, v, l.end_point());
        let segs: Vec<Segment<C>> = l.segments_iter().collect();
        ensure!(segs.len() == n.saturating_sub(1), "{} {:?}: {} segments", t, v, segs.len());
        for (i, s) in segs.iter().enumerate() {
            ensure!(eq(s.start, v[i]) && eq(s.end, v[i + 1]), "{} {:?}: segment {} of the sequence is {:?}", t, v, i, s);
            let g = l.get_segment(i);
            ensure!(eq(g.start, v[i]) && eq(g.end, v[i + 1]), "{} {:?}: segment {} is {:?}", t, v, i, g);
        }
        if all_out {
            for i in [n.saturating_sub(1), n, n + 3, 1 << 32, usize::MAX - 1] {
                let g = guarded(|| l.get_segment(i));
                ensure!(g.is_err(), "{} {:?}: segment {} is {:?}", t, v, i, g);
            }
        }
        let closed = n >= 4 && {
            let (a, b) = (v[0], v[n - 1]);
            C::of(a.0) == C::of(b.0) && C::of(a.1) == C::of(b.1)
        };
        ensure!(l.is_closed() == closed, "{} {:?}: is_closed = {}", t, v, !closed);
        if closed {
            cx.outcome(1);
        } else {
            cx.outcome(0);
            ensure!(!l.is_ring(), "{} {:?} is not closed but a ring", t, v);
        }
        // a copy and an equal line are equal
        let c = l.clone();
        ensure!(v.iter().any(|q| q.0.is_nan() || q.1.is_nan()) || c == l, "{} {:?} differs from its copy", t, v);
    }
    Ok(())
}
/// The index over the segments finds exactly the segments whose boxes meet a window.
fn index<C: Co>(cx: &mut Cx, v: &[Q]) -> R {
    let l = &made::<C>(v)[0];
    let tree = l.build_rtree();
    let boxes: Vec<_> = l.segments_iter().map(|s| s.envelope()).collect();
    for w in boxes.iter().copied().take(12).chain([l.envelope()]) {
        cx.op(1);
        let mut got = tree.find_intersection_candidates(w);
        got.sort();
        let want: Vec<usize> = (0..boxes.len()).filter(|i| boxes[*i].intersects(w)).collect();
        ensure!(got == want, "{} index of {:?} finds segments {:?} in {:?}, should be {:?}", C::NAME, v, got, w, want);
    }
    Ok(())
}
fn model_len<C: Co>(v: &[Q]) -> f64 {
    v.windows(2)
        .map(|w| {
            let (dx, dy) = (C::of(w[1].0).f() - C::of(w[0].0).f(), C::of(w[1].1).f() - C::of(w[0].1).f());
            (dx * dx + dy * dy).sqrt()
        })
        .sum()
}
fn length<C: Co>(cx: &mut Cx, parts: &[Vec<Q>], exact: bool) -> R {
    let mut total = 0.;
    let mut lines = vec![];
    let mut n = 0;
    for v in parts {
        let want = model_len::<C>(v);
        let l = &made::<C>(v)[0];
        cx.op(1);
        let got = l.length().f();
        let tol = if exact { 0. } else { (v.len() as f64 + 8.) * C::EPS * want };
        ensure!((got - want).abs() <= tol, "{} {:?}: length = {:?}, should be {:?}", C::NAME, v, got, want);
        total += want;
        n += v.len();
        lines.push(made::<C>(v).remove(1));
    }
    let closed = parts.iter().zip(&lines).all(|(_, l)| l.is_closed());
    let m = MultiLineString::new(lines);
    cx.op(2);
    let got = m.length().f();
    let tol = if exact { 0. } else { (n as f64 + 8.) * C::EPS * total };
    ensure!((got - total).abs() <= tol, "{} {:?}: total length = {:?}, should be {:?}", C::NAME, parts, got, total);
    ensure!(m.is_closed() == closed, "{} {:?}: is_closed = {}", C::NAME, parts, !closed);
    Ok(())
}
/// A length at a scale where squares may leave the range of the numbers.
fn extent<C: Co>(cx: &mut Cx, p: Q, e: i32, twice: bool) -> R {
    let (low, high, min, max) = if C::NAME == "f32" { (-58, 58, -149, 120) } else { (-500, 500, -1074, 1015) };
    if e < min || e > max {
        return Ok(());
    }
    // 2^e by steps: powi(2., -1060) may divide by infinity
    let up = (0..e.abs()).fold(1f64, |v, _| if e < 0 { v / 2. } else { v * 2. });
    let q = (p.0 * up, p.1 * up);
    let want = (p.0 * p.0 + p.1 * p.1).sqrt();
    // lengths that are integral are exact, all others rounded
    let close = |got: f64, k: f64| (got / up - want * k).abs() <= 8. * C::EPS * want * k;
    let pts: Vec<Q> = if twice { vec![(0., 0.), q, (0., 0.)] } else { vec![(0., 0.), q] };
    let k = if twice { 2. } else { 1. };
    let l = made::<C>(&pts).remove(0);
    let seg = Segment::new(Position::new(C::of(q.0), C::of(q.1)), Position::new(C::of(0.), C::of(0.)));
    cx.op(3);
    cx.outcome(if e < low { 0 } else if e <= high { 1 } else { 2 });
    let m = MultiLineString::new(vec![made::<C>(&pts).remove(1), LineString::new(vec![])]);
    for (what, got, k) in [("line", l.length().f(), k), ("lines", m.length().f(), k), ("segment", seg.length().f(), 1.)] {
        let ok = if e >= low && e <= high {
            close(got, k)
        } else if e < low {
            // denormal: a length that is no multiple of the step is rounded
            got >= 0. && got / up <= 2. * want * k + 1e-9
        } else {
            got == f64::INFINITY && want > 0. || close(got, k)
        };
        ensure!(ok, "{} {} {:?} times 2^{} ({:?}): length = {:?}, should be {:?} times that", C::NAME, what, p, e, pts, got, want * k);
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    const SP: [Q; 9] = [(0., 0.), (-0., 0.), (1., 0.), (0., 1.), (f64::NAN, 0.), (1., f64::INFINITY), (-1.5, 3.25), (f64::NAN, f64::NAN), (f64::NEG_INFINITY, f64::NEG_INFINITY)];
    let n = if th { 7 } else { 6 };
    fams.push(Family {
        name: "positions",
        bound: format!("every sequence of up to {} of 9 positions (negative zero, NaN, infinite, repeated), from 4 constructors: every point and segment in range and several out of range, ends, closedness", n),
        outcomes: &["open", "closed"],
        f: Box::new(move |cx| {
            let k = cx.choose(n + 1);
            let v: Vec<Q> = (0..k).map(|_| *cx.pick(&SP)).collect();
            cx.note(|| format!("{:?}", v));
            access::<f64>(cx, &v, k < 5)?;
            if k < n {
                access::<f32>(cx, &v, k < 4)?;
            }
            Ok(())
        }),
    });
    let g = grid(3, 3);
    let m = if th { 6 } else { 5 };
    fams.push(Family {
        name: "rings",
        bound: format!("every sequence of up to {} points of the 3x3 grid, as it is and closed: ring, closed, length (3 placements), index over the segments", m),
        outcomes: &["not a ring", "ring"],
        f: Box::new(move |cx| {
            let k = cx.choose(m + 1);
            let mut s: Vec<P> = (0..k).map(|_| *cx.pick(&g)).collect();
            if k > 0 && cx.flip() {
                s.push(s[0]);
            }
            cx.note(|| format!("{:?}", s));
            let ring = s.len() >= 4 && s[0] == s[s.len() - 1] && line_valid(&s);
            cx.outcome(ring as usize);
            for e in [ID, FAR, SMALL] {
                cx.op(2);
                let v: Vec<Q> = s.iter().map(|p| e.xy(*p)).collect();
                let l: LineString<f64> = e.line(&s);
                ensure!(l.is_ring() == ring, "f64 {} mapped by {}: is_ring = {}", show_pts(&e, &s), e.name, !ring);
                let l: LineString<f32> = e.line(&s);
                ensure!(l.is_ring() == ring, "f32 {} mapped by {}: is_ring = {}", show_pts(&e, &s), e.name, !ring);
                length::<f64>(cx, &[v.clone()], false)?;
                length::<f32>(cx, &[v.clone()], false)?;
            }
            let v: Vec<Q> = s.iter().map(|p| ID.xy(*p)).collect();
            index::<f64>(cx, &v)?;
            index::<f32>(cx, &v)
        }),
    });
    // lengths that are exact: steps with integral length
    const STEP: [Q; 8] = [(3., 4.), (-4., 3.), (0., 5.), (-12., -5.), (8., -15.), (0., 0.), (-7., 0.), (-20., 21.)];
    let k = if th { 7 } else { 6 };
    fams.push(Family {
        name: "exact-length",
        bound: format!("every line of up to {} steps out of 8 steps of integral length (also zero and backwards), at scales 1, 2^-40, 2^40, -1/4, moved far away: the length exactly", k),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(k + 1);
            let mut p = (0., 0.);
            let mut v = vec![p];
            for _ in 0..n {
                let d = *cx.pick(&STEP);
                p = (p.0 + d.0, p.1 + d.1);
                v.push(p);
            }
            cx.note(|| format!("{:?}", v));
            for (s, o) in [(1., 0.), (TINY, 0.), (HUGE, 0.), (-0.25, 1000.)] {
                let w: Vec<Q> = v.iter().map(|p| (p.0 * s + o, p.1 * s - o)).collect();
                length::<f64>(cx, &[w.clone()], true)?;
                length::<f32>(cx, &[w], true)?;
            }
            let w: Vec<Q> = v.iter().map(|p| (p.0 + HUGE, p.1 - HUGE)).collect();
            length::<f64>(cx, &[w], true)
        }),
    });
    let big = if th { 5000 } else { 1200 };
    fams.push(Family {
        name: "long",
        bound: format!("every number of positions up to {}: stair, zigzag, all equal, pythagorean walk, ring; points, segments, ends, length, index", big),
        outcomes: &["open", "closed"],
        f: Box::new(move |cx| {
            let n = cx.choose(big + 1);
            let k = cx.choose(5);
            let mut v: Vec<Q> = (0..n)
                .map(|i| {
                    let f = i as f64;
                    match k {
                        0 => (((i + 1) / 2) as f64, (i / 2) as f64),
                        1 => (f, (i % 2) as f64 * 2.),
                        2 => (7., -7.),
                        3 => (3. * f, if i % 2 == 0 { 4. } else { 0. }),
                        _ => (f, f * f),
                    }
                })
                .collect();
            if k == 4 && n > 1 {
                v[n - 1] = v[0];
            }
            cx.note(|| format!("{} positions, pattern {}", n, k));
            if n % 4 == 0 || n < 70 {
                access::<f64>(cx, &v, false)?;
                access::<f32>(cx, &v, false)?;
                if n < 70 || n % 64 == 0 {
                    index::<f64>(cx, &v)?;
                }
            } else {
                cx.outcome(if k == 4 && n > 3 { 1 } else { 0 });
            }
            let exact = k == 0 || k == 2 || k == 3;
            length::<f64>(cx, &[v.clone()], exact)?;
            length::<f32>(cx, &[v], exact)
        }),
    });
    const PARTS: [&[Q]; 8] = [
        &[],
        &[(5., 5.)],
        &[(0., 0.), (3., 4.)],
        &[(3., 4.), (0., 0.), (3., 4.)],
        &[(0., 0.), (3., 0.), (3., 4.), (0., 0.)],
        &[(1., 1.), (1., 1.)],
        &[(0., 0.), (3., 0.), (3., 4.), (0., 4.), (0., 0.)],
        &[(9., 9.), (0., -31.), (12., 4.), (0., 9.)],
    ];
    let pn = if th { 6 } else { 5 };
    fams.push(Family {
        name: "parts",
        bound: format!("every list of up to {} of 8 lines (empty, single point, folded, rings): total length and closedness of the multilinestring", pn),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(pn + 1);
            let parts: Vec<Vec<Q>> = (0..n).map(|_| cx.pick(&PARTS).to_vec()).collect();
            cx.note(|| format!("{:?}", parts));
            length::<f64>(cx, &parts, false)?;
            length::<f32>(cx, &parts, false)
        }),
    });
    fams.push(Family {
        name: "scales",
        bound: format!("every pair of 12 differences on each of 14 scales from the smallest to the greatest numbers, alone and as two segments, in both directions: the exact length where the squares of the differences are in range, else the length, zero (too short) or infinity (too long)"),
        outcomes: &["too short", "in range", "too long"],
        f: Box::new(move |cx| {
            const D: [f64; 12] = [0., -0., 3., -3., 4., -4., 5., -12., 8., 15., -20., 21.];
            let p: Q = (*cx.pick(&D), *cx.pick(&D));
            const E: [i32; 14] = [-1060, -900, -700, -530, -500, -300, -100, -70, -40, 50, 70, 400, 520, 1000];
            let e = *cx.pick(&E);
            let twice = cx.flip();
            cx.note(|| format!("{:?} times 2^{}", p, e));
            extent::<f64>(cx, p, e, twice)?;
            extent::<f32>(cx, p, e, twice)
        }),
    });
    run_check(Check {
        id: "C23",
        assumptions: vec!["lengths are compared exactly where every step has a representable length, otherwise up to the rounding of the sum", "a multilinestring is closed when all its parts are"],
        families: fams,
    })
}
