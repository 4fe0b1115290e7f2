//! C07: orientation, containment, areas and vector products.
use magog::planar::primitives::{Position, PositionLocation, Segment, Triangle};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

fn loc(s: i32) -> PositionLocation {
    match s {
        1 => PositionLocation::Left,
        0 => PositionLocation::On,
        _ => PositionLocation::Right,
    }
}
fn triple<C: Co>(cx: &mut Cx, e: &Emb, a: P, b: P, c: P) -> R {
    cx.op(4);
    let s: Segment<C> = e.seg(a, b);
    let p: Position<C> = e.pos(c);
    let sg = if e.det() < 0. { -1 } else { 1 };
    let o = orient(a, b, c) * sg;
    let got = s.position_location(p);
    ensure!(got == loc(o), "{} mapped by {}: position_location of {:?} relative to {:?}-{:?} should be {:?}, is {:?}", C::NAME, e.name, c, a, b, loc(o), got);
    let want = on_seg(c, a, b);
    ensure!(s.contains(p) == want, "{} mapped by {}: segment {:?}-{:?} contains {:?} should be {}", C::NAME, e.name, a, b, c, want);
    // 2^k scaling only: areas are exact integers over two times det
    let area = cross(a, b, c) as f64 * e.det() / 2.;
    let t: Triangle<C> = Triangle::new(e.pos(a), e.pos(b), p);
    ensure!(t.signed_area().f() == area, "{} mapped by {}: signed area of {:?} {:?} {:?} should be {}, is {:?}", C::NAME, e.name, a, b, c, area, t.signed_area());
    ensure!(t.area().f() == area.abs() && !t.area().is_sign_negative() | (area == 0.), "{} mapped by {}: area of {:?} {:?} {:?} should be {}, is {:?}", C::NAME, e.name, a, b, c, area.abs(), t.area());
    Ok(())
}
fn out(cx: &mut Cx, a: P, b: P, c: P) {
    cx.outcome((orient(a, b, c) + 1) as usize);
    if on_seg(c, a, b) {
        cx.outcome(3)
    }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let names: &[&str] = &["right", "on", "left", "contained"];
    let (w, h) = if th { (8, 7) } else { (6, 6) };
    let g = Arc::new(grid(w, h));
    let mut embs: Vec<Emb> = EMBS.to_vec();
    embs.extend(EXTREME);
    // exact areas need |det| with few bits: leave the wide sliver to orientation only
    let embs = Arc::new(embs);
    let (gg, ee) = (g.clone(), embs.clone());
    fams.push(Family {
        name: "triples",
        bound: format!("all triples of positions of the {}x{} grid, {} embeddings, f64 and f32", w, h, embs.len()),
        outcomes: names,
        f: Box::new(move |cx| {
            let (a, b, c) = (*cx.pick(&gg), *cx.pick(&gg), *cx.pick(&gg));
            cx.note(|| format!("positions {:?} {:?} {:?}", a, b, c));
            out(cx, a, b, c);
            for e in ee.iter() {
                triple::<f64>(cx, e, a, b, c)?;
                if !e.wide {
                    triple::<f32>(cx, e, a, b, c)?;
                }
            }
            Ok(())
        }),
    });
    let v64: Vec<i64> = if th { vec![0, 1, -1, 2, -3, 5, 1023, -4096, 65537, 1048577, -16777215] } else { vec![0, 1, -1, 3, 1023, -4096, 1048577, -16777215] };
    let n = v64.len();
    let vv = v64.clone();
    fams.push(Family {
        name: "magnitudes",
        bound: format!("all triples of positions with coordinates from {:?} (f64), scales 1 and 2^-40", v64),
        outcomes: names,
        f: Box::new(move |cx| {
            let mut p = || (vv[cx.choose(n)], vv[cx.choose(n)]);
            let (a, b, c) = (p(), p(), p());
            cx.note(|| format!("positions {:?} {:?} {:?}", a, b, c));
            out(cx, a, b, c);
            for e in [ID, SMALL, MIRX] {
                triple::<f64>(cx, &e, a, b, c)?;
            }
            Ok(())
        }),
    });
    let v32: Vec<i64> = vec![0, 1, -1, 2, -5, 100, -1023, 1024];
    let n = v32.len();
    let vv = v32.clone();
    fams.push(Family {
        name: "magnitudes32",
        bound: format!("all triples of positions with coordinates from {:?} (f32), scales 1, 2^-40", v32),
        outcomes: names,
        f: Box::new(move |cx| {
            let mut p = || (vv[cx.choose(n)], vv[cx.choose(n)]);
            let (a, b, c) = (p(), p(), p());
            cx.note(|| format!("positions {:?} {:?} {:?}", a, b, c));
            out(cx, a, b, c);
            for e in [ID, SMALL] {
                triple::<f32>(cx, &e, a, b, c)?;
            }
            Ok(())
        }),
    });
    // points on, next to and beyond long oblique segments
    let lim: usize = if th { 80 } else { 30 };
    fams.push(Family {
        name: "longsegments",
        bound: format!("segment (0,0)-(w,h)*k, w,h <= {}, k in 1,2,7,12; all lattice positions on it, past both ends, and one unit off in 4 directions; both directions; f64 with 3 embeddings", lim),
        outcomes: names,
        f: Box::new(move |cx| {
            let u = (cx.choose(lim) as i64 + 1, cx.choose(2 * lim) as i64 - lim as i64);
            let k = *cx.pick(&[1i64, 2, 7, 12]);
            let t = cx.choose(k as usize + 3) as i64 - 1;
            let d = *cx.pick(&[(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)]);
            let b = (u.0 * k, u.1 * k);
            let c = (u.0 * t + d.0, u.1 * t + d.1);
            cx.note(|| format!("positions (0,0) {:?} {:?}", b, c));
            out(cx, (0, 0), b, c);
            for e in [ID, MIXED, FAR20] {
                triple::<f64>(cx, &e, (0, 0), b, c)?;
                triple::<f64>(cx, &e, b, (0, 0), c)?;
            }
            triple::<f32>(cx, &WEE, (0, 0), b, c)
        }),
    });
    // vector products
    let vals: Vec<i64> = if th { vec![0, 1, -1, 2, 3, -7, 10, 100, -1023, 1024, 2047] } else { vec![0, 1, -1, 2, -7, 100, -1023, 2047] };
    let n = vals.len();
    fams.push(Family {
        name: "products",
        bound: format!("all pairs of vectors with components from {:?}: cross, dot, determinant, squared length, sum, difference; scales 1, 2^-30, 2^30, f64 and f32", vals),
        outcomes: &["zero", "nonzero"],
        f: Box::new(move |cx| {
            let mut p = || (vals[cx.choose(n)], vals[cx.choose(n)]);
            let (a, b) = (p(), p());
            cx.note(|| format!("vectors {:?} {:?}", a, b));
            cx.outcome((a.0 * b.1 != a.1 * b.0) as usize);
            fn go<C: Co>(cx: &mut Cx, k: f64, a: P, b: P) -> R {
                let m = |p: P| Position::<C>::new(C::of(p.0 as f64 * k), C::of(p.1 as f64 * k));
                let (x, y) = (m(a), m(b));
                cx.op(7);
                let k2 = k * k;
                let cr = (a.0 * b.1 - a.1 * b.0) as f64 * k2;
                let dt = (a.0 * b.0 + a.1 * b.1) as f64 * k2;
                let l2 = ((b.0 - a.0) * (b.0 - a.0) + (b.1 - a.1) * (b.1 - a.1)) as f64 * k2;
                ensure!(Position::cross(x, y).f() == cr, "{} cross of {:?} {:?} scaled by {} is {:?}", C::NAME, a, b, k, Position::cross(x, y));
                ensure!(Position::dot(x, y).f() == dt, "{} dot of {:?} {:?} scaled by {} is {:?}", C::NAME, a, b, k, Position::dot(x, y));
                let s = Segment::new(x, y);
                ensure!(s.determinant().f() == cr, "{} determinant of {:?}-{:?} scaled by {} is {:?}", C::NAME, a, b, k, s.determinant());
                ensure!(s.length_squared().f() == l2 || (C::SINGLE && l2 / k2 >= 16777216.), "{} length_squared of {:?}-{:?} scaled by {} is {:?}", C::NAME, a, b, k, s.length_squared());
                ensure!(x + y == m((a.0 + b.0, a.1 + b.1)), "{} sum of {:?} {:?} is {:?}", C::NAME, a, b, x + y);
                ensure!(x - y == m((a.0 - b.0, a.1 - b.1)), "{} difference of {:?} {:?} is {:?}", C::NAME, a, b, x - y);
                ensure!(x * C::of(2.) == m((2 * a.0, 2 * a.1)) && (x * C::of(4.)) / C::of(4.) == x, "{} scaling of {:?}", C::NAME, a);
                Ok(())
            }
            for k in [1., 1. / (1u64 << 30) as f64, (1u64 << 30) as f64] {
                go::<f64>(cx, k, a, b)?;
                go::<f32>(cx, k, a, b)?;
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C07",
        assumptions: vec!["coordinates whose differences and products are exactly representable"],
        families: fams,
    })
}
