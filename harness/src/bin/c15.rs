//! C15: envelope algebra.
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use magog::planar::types::{LineString, Point};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::rt::{env, item_of, meet, same, small_items, union, Item};
use std::sync::Arc;

fn txt(i: &Item) -> String {
    match i {
        None => "empty".into(),
        Some(b) => format!("[{:?} {:?} .. {:?} {:?}]", b[0], b[1], b[2], b[3]),
    }
}
fn inside(a: &Item, b: &Item) -> bool {
    // b is a subset of a
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[0] && a[1] <= b[1] && b[2] <= a[2] && b[3] <= a[3],
        _ => false,
    }
}
fn pt(x: f64, y: f64) -> Item {
    Some([x, y, x, y])
}
fn pos<C: Co>(x: f64, y: f64) -> Position<C> {
    Position::new(C::of(x), C::of(y))
}
fn lo(a: f64, b: f64) -> f64 {
    if a.is_nan() || b < a { b } else { a }
}
fn hi(a: f64, b: f64) -> f64 {
    if a.is_nan() || b > a { b } else { a }
}
fn is<C: Co>(got: Envelope<C>, want: &Item, what: impl Fn() -> String) -> R {
    ensure!(same(&item_of(&got), want), "{} {} = {}, should be {}", C::NAME, what(), txt(&item_of(&got)), txt(want));
    Ok(())
}
/// All binary operations, both ways round.
fn binary<C: Co>(cx: &mut Cx, a: &Item, b: &Item) -> R {
    let (ea, eb) = (env::<C>(a), env::<C>(b));
    for (x, y, ex, ey) in [(a, b, ea, eb), (b, a, eb, ea)] {
        cx.op(5);
        ensure!(ex.intersects(ey) == meet(x, y), "{} {} intersects {} = {}", C::NAME, txt(x), txt(y), !meet(x, y));
        ensure!(ex.contains(ey) == inside(x, y), "{} {} contains {} = {}", C::NAME, txt(x), txt(y), !inside(x, y));
        let u = union(x, y);
        is(ex.merge(ey), &u, || format!("{} merged with {}", txt(x), txt(y)))?;
        let mut g = ex;
        g.expand(ey);
        is(g, &u, || format!("{} expanded by {}", txt(x), txt(y)))?;
        is(Envelope::of([ex, ey].iter()), &u, || format!("envelope of {} and {}", txt(x), txt(y)))?;
    }
    Ok(())
}
/// Operands that are not envelopes.
fn others<C: Co>(cx: &mut Cx, a: &Item, p: (f64, f64), q: (f64, f64)) -> R {
    cx.op(9);
    let e = env::<C>(a);
    let (pp, qq) = (pos::<C>(p.0, p.1), pos::<C>(q.0, q.1));
    let ip = pt(p.0, p.1);
    let iq = pt(q.0, q.1);
    let is_ = Some([lo(p.0, q.0), lo(p.1, q.1), hi(p.0, q.0), hi(p.1, q.1)]);
    let il = union(&ip, &iq);
    ensure!(e.contains(pp) == inside(a, &ip), "{} {} contains position {:?} = {}", C::NAME, txt(a), p, !inside(a, &ip));
    ensure!(e.contains(Point(pp)) == inside(a, &ip), "{} {} contains point {:?} = {}", C::NAME, txt(a), p, !inside(a, &ip));
    ensure!(e.contains(Segment::new(pp, qq)) == inside(a, &is_), "{} {} contains segment {:?} {:?} = {}", C::NAME, txt(a), p, q, !inside(a, &is_));
    is(e.merge(pp), &union(a, &ip), || format!("{} merged with {:?}", txt(a), p))?;
    is(e.merge(Segment::new(pp, qq)), &union(a, &is_), || format!("{} merged with segment {:?} {:?}", txt(a), p, q))?;
    is(e.merge(LineString::new(vec![pp, qq])), &union(a, &il), || format!("{} merged with line {:?} {:?}", txt(a), p, q))?;
    let mut g = e;
    g.expand(qq);
    is(g, &union(a, &iq), || format!("{} expanded by {:?}", txt(a), q))?;
    g.expand(LineString::<C>::new(vec![]));
    is(g, &union(a, &iq), || format!("{} expanded by {:?} and by an empty line", txt(a), q))?;
    g.expand(Segment::new(qq, pp));
    is(g, &union(&union(a, &iq), &is_), || format!("{} expanded by {:?} and segment {:?} {:?}", txt(a), q, q, p))?;
    Ok(())
}
const SP: [f64; 9] = [0.0, -0.0, 1.0, -1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f32::MAX as f64, -1e-30];

fn make<C: Co>(cx: &mut Cx, v: &[f64; 4]) -> R {
    cx.op(3);
    let w = Some([lo(v[0], v[2]), lo(v[1], v[3]), hi(v[0], v[2]), hi(v[1], v[3])]);
    let w = match w {
        // f32 rounds 1e-30 etc.: the alphabet is chosen so that the images keep their order
        Some(b) => Some(b.map(|x| C::of(x).f())),
        None => None,
    };
    let (p, q) = (pos::<C>(v[0], v[1]), pos::<C>(v[2], v[3]));
    is(Envelope::new(p, q), &w, || format!("envelope of corners {:?}", v))?;
    is(Segment::new(p, q).envelope(), &w, || format!("envelope of segment {:?}", v))?;
    is(p.envelope(), &pt(v[0], v[1]).map(|b| b.map(|x| C::of(x).f())), || format!("envelope of position {:?}", (v[0], v[1])))?;
    let e = Envelope::new(p, q);
    let b = w.unwrap();
    cx.op(6);
    let fin = b.iter().all(|x| x.is_finite());
    cx.outcome(fin as usize);
    ensure!(e.validate().is_ok() == fin, "{} envelope of corners {:?}: validate() = {:?}", C::NAME, v, e.validate());
    let nan = b.iter().any(|x| x.is_nan());
    if !nan {
        ensure!(!e.is_empty(), "{} envelope of corners {:?} is empty", C::NAME, v);
    }
    let (mn, mx) = (e.min(), e.max());
    let eq = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    ensure!(
        mn.map_or(false, |m| eq(m.x.f(), b[0]) && eq(m.y.f(), b[1])) && mx.map_or(false, |m| eq(m.x.f(), b[2]) && eq(m.y.f(), b[3])),
        "{} envelope of corners {:?}: min() = {:?}, max() = {:?}", C::NAME, v, mn, mx
    );
    // positions combine coordinate by coordinate
    let same_p = |g: Position<C>, x: f64, y: f64| eq(g.x.f(), x) && eq(g.y.f(), y);
    ensure!(same_p(p.min(q), b[0], b[1]) && same_p(q.min(p), b[0], b[1]), "{} minimum of {:?}: {:?}", C::NAME, v, p.min(q));
    ensure!(same_p(p.max(q), b[2], b[3]) && same_p(q.max(p), b[2], b[3]), "{} maximum of {:?}: {:?}", C::NAME, v, p.max(q));
    let (m1, m2) = Position::min_max(p, q);
    ensure!(same_p(m1, b[0], b[1]) && same_p(m2, b[2], b[3]), "{} min_max of {:?}: {:?}", C::NAME, v, (m1, m2));
    Ok(())
}
fn arith<C: Co>(cx: &mut Cx, b: &[f64; 4], d: f64) -> R {
    let e = env::<C>(&Some(*b));
    cx.op(2);
    let w = Some([b[0] - d, b[1] - d, b[2] + d, b[3] + d]);
    is(e.buffer(C::of(d)), &w, || format!("{} buffered by {}", txt(&Some(*b)), d))?;
    let c = e.center();
    ensure!(
        c.map_or(false, |c| c.x.f() == (b[0] + b[2]) / 2. && c.y.f() == (b[1] + b[3]) / 2.),
        "{} centre of {} = {:?}", C::NAME, txt(&Some(*b)), c
    );
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    fams.push(Family {
        name: "corners",
        bound: "every pair of corners over 9 values (zeros, NaN, infinities, largest float, tiny): construction, validity, corners".into(),
        outcomes: &["not finite", "finite"],
        f: Box::new(|cx| {
            let v = [*cx.pick(&SP), *cx.pick(&SP), *cx.pick(&SP), *cx.pick(&SP)];
            cx.note(|| format!("corners {:?}", v));
            make::<f64>(cx, &v)?;
            make::<f32>(cx, &v)
        }),
    });
    fams.push(Family {
        name: "validate",
        bound: "every explicit box over 9 values, ordered or not".into(),
        outcomes: &["invalid", "valid"],
        f: Box::new(|cx| {
            let v = [*cx.pick(&SP), *cx.pick(&SP), *cx.pick(&SP), *cx.pick(&SP)];
            cx.note(|| format!("box {:?}", v));
            let want = v.iter().all(|x| x.is_finite()) && v[0] <= v[2] && v[1] <= v[3];
            cx.outcome(want as usize);
            cx.op(2);
            let r = env::<f64>(&Some(v)).validate();
            ensure!(r.is_ok() == want, "f64 box {:?}: validate() = {:?}", v, r);
            let r = env::<f32>(&Some(v)).validate();
            ensure!(r.is_ok() == want, "f32 box {:?}: validate() = {:?}", v, r);
            ensure!(Envelope::<f64>::Empty.validate().is_ok() && Envelope::<f64>::empty().is_empty() && Envelope::<f32>::empty() == Envelope::Empty, "empty envelope");
            ensure!(Envelope::<f64>::Empty.min().is_none() && Envelope::<f64>::Empty.max().is_none() && Envelope::<f64>::Empty.center().is_none(), "corners of the empty envelope");
            Ok(())
        }),
    });
    let g = if th { 7 } else { 5 };
    let boxes = Arc::new(small_items(g, g));
    let b = boxes.clone();
    fams.push(Family {
        name: "pairs",
        bound: format!("every pair of the {} boxes (and empty) with corners on the {}x{} grid, at scales 1, 2^-40, 2^40, 0.1, shifted; meeting and containment also checked against the enumerated grid points", b.len(), g, g),
        outcomes: &["disjoint", "meet", "inside"],
        f: Box::new(move |cx| {
            let x = *cx.pick(&b);
            let y = *cx.pick(&b);
            cx.note(|| format!("envelopes {} and {}", txt(&x), txt(&y)));
            // closed boxes with corners on the grid meet iff they share a grid point; likewise subset
            let (mut share, mut sub) = (false, x.is_some() && y.is_some());
            for i in 0..g {
                for j in 0..g {
                    let p = pt(i as f64, j as f64);
                    let (ix, iy) = (inside(&x, &p), inside(&y, &p));
                    share |= ix && iy;
                    sub &= ix || !iy;
                }
            }
            if share != meet(&x, &y) || sub != inside(&x, &y) {
                return Err(Fail::new("MC-HARNESS the box model disagrees with the point sets"));
            }
            cx.outcome(if sub { 2 } else { share as usize });
            for (k, o) in [(1., 0.), (TINY, 0.), (HUGE, 0.), (1., -2.), (0.25, 1000.)] {
                let m = |i: &Item| i.map(|b| b.map(|v| v * k + o));
                binary::<f64>(cx, &m(&x), &m(&y))?;
                binary::<f32>(cx, &m(&x), &m(&y))?;
            }
            let m = |i: &Item| i.map(|b| b.map(|v| v * 0.1));
            binary::<f64>(cx, &m(&x), &m(&y))
        }),
    });
    let b = boxes.clone();
    fams.push(Family {
        name: "operands",
        bound: format!("every box of the {}x{} grid and empty with every position, point, segment and two-point line of that grid as operand", g, g),
        outcomes: &[],
        f: Box::new(move |cx| {
            let x = *cx.pick(&b);
            let n = g as usize;
            let p = (cx.choose(n) as f64, cx.choose(n) as f64);
            let q = (cx.choose(n) as f64, cx.choose(n) as f64);
            cx.note(|| format!("envelope {} with {:?} {:?}", txt(&x), p, q));
            others::<f64>(cx, &x, p, q)?;
            others::<f32>(cx, &x, p, q)
        }),
    });
    let sv: Vec<f64> = vec![0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let sitems: Arc<Vec<Item>> = Arc::new({
        let mut v = vec![None];
        for &a in &sv {
            for &b in &sv {
                for &c in &sv {
                    for &d in &sv {
                        let it = Some([lo(a, c), lo(b, d), hi(a, c), hi(b, d)]);
                        if !v.iter().any(|x: &Item| matches!((x, it), (Some(x), Some(y)) if x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits()))) {
                            v.push(it);
                        }
                    }
                }
            }
        }
        v
    });
    let s = sitems.clone();
    fams.push(Family {
        name: "special",
        bound: format!("every pair of the {} envelopes over 0, -0, 1, NaN, inf, -inf: intersects, contains, merge, expand, of", s.len()),
        outcomes: &["disjoint", "meet"],
        f: Box::new(move |cx| {
            let x = *cx.pick(&s);
            let y = *cx.pick(&s);
            cx.note(|| format!("envelopes {} and {}", txt(&x), txt(&y)));
            cx.outcome(meet(&x, &y) as usize);
            binary::<f64>(cx, &x, &y)?;
            binary::<f32>(cx, &x, &y)?;
            if let Some(b) = y {
                others::<f64>(cx, &x, (b[0], b[1]), (b[2], b[3]))?;
                others::<f32>(cx, &x, (b[2], b[1]), (b[0], b[3]))?;
            }
            Ok(())
        }),
    });
    let len = if th { 7 } else { 6 };
    let alpha: Vec<Item> = vec![
        None, Some([0., 0., 0., 0.]), Some([1., 2., 3., 4.]), Some([-5., 3., -4., 9.]), Some([0., -0., 7., -0.]), Some([f64::NAN, 1., f64::NAN, 2.]),
        Some([f64::NEG_INFINITY, 2., 0., 2.]), Some([4., -6., 8., f64::INFINITY]), Some([-1., -1., 10., 10.]),
    ];
    fams.push(Family {
        name: "folds",
        bound: format!("every list of up to {} of {} envelopes (empty, point-like, NaN, infinite): of(), repeated merge and repeated expand, in the given and in reverse order, agree with the least box", len, alpha.len()),
        outcomes: &["empty", "box"],
        f: Box::new(move |cx| {
            let n = cx.choose(len + 1);
            let v: Vec<Item> = (0..n).map(|_| *cx.pick(&alpha)).collect();
            cx.note(|| format!("envelopes {:?}", v));
            fn go<C: Co>(cx: &mut Cx, v: &[Item]) -> R {
                let mut w: Item = None;
                for k in 0..4 {
                    let mut acc: Option<f64> = None;
                    for b in v.iter().flatten() {
                        acc = Some(match acc {
                            None => b[k],
                            Some(a) => if k < 2 { lo(a, b[k]) } else { hi(a, b[k]) },
                        });
                    }
                    if let Some(a) = acc {
                        let mut b = w.unwrap_or([0.; 4]);
                        b[k] = a;
                        w = Some(b);
                    }
                }
                cx.outcome(w.is_some() as usize);
                let e: Vec<Envelope<C>> = v.iter().map(env).collect();
                let r: Vec<Envelope<C>> = v.iter().rev().map(env).collect();
                for l in [&e, &r] {
                    cx.op(4);
                    is(Envelope::of(l.iter()), &w, || format!("of {:?}", l))?;
                    let mut g = Envelope::Empty;
                    let mut m = Envelope::Empty;
                    let mut h = Envelope::Empty;
                    for x in l {
                        g.expand(*x);
                        m = m.merge(*x);
                        h = x.merge(h);
                    }
                    is(g, &w, || format!("expand by {:?}", l))?;
                    is(m, &w, || format!("merge {:?}", l))?;
                    is(h, &w, || format!("merge backwards {:?}", l))?;
                }
                Ok(())
            }
            go::<f64>(cx, &v)?;
            go::<f32>(cx, &v)
        }),
    });
    let vals: Vec<f64> = if th { vec![-7., -3., -1., -0.5, 0., 0.25, 1., 2., 5., 12., 1000.] } else { vec![-7., -1., -0.5, 0., 0.25, 2., 5., 1000.] };
    fams.push(Family {
        name: "arith",
        bound: format!("every ordered box over {:?}: centre; buffering by 0, 0.5, 3, -0.25, -2; at scales 1, 2^-40, 2^40 and far away", vals),
        outcomes: &[],
        f: Box::new(move |cx| {
            let (a, c) = (*cx.pick(&vals), *cx.pick(&vals));
            let (b, d) = (*cx.pick(&vals), *cx.pick(&vals));
            if a > c || b > d {
                return Ok(());
            }
            let q = [a, b, c, d];
            cx.note(|| format!("box {:?}", q));
            for dist in [0., 0.5, 3., -0.25, -2.] {
                for k in [1., TINY, HUGE] {
                    let m = q.map(|v| v * k);
                    arith::<f64>(cx, &m, dist * k)?;
                    arith::<f32>(cx, &m, dist * k)?;
                }
                arith::<f64>(cx, &q.map(|v| v + 1048576.), dist)?;
                ensure!(Envelope::<f64>::Empty.buffer(dist) == Envelope::Empty, "buffered empty envelope is not empty");
            }
            Ok(())
        }),
    });
    // the smallest floats: centres that need no rounding
    let lim = if th { 9 } else { 5 };
    fams.push(Family {
        name: "subnormal",
        bound: format!("every ordered box with sides -{0}..{0} times the smallest positive float whose centre is such a multiple as well; buffering by 0, 1, 3, -2 of them", lim),
        outcomes: &[],
        f: Box::new(move |cx| {
            let mut v = || cx.choose(2 * lim + 1) as i64 - lim as i64;
            let (a, b, c, d) = (v(), v(), v(), v());
            if a > c || b > d || (a + c) % 2 != 0 || (b + d) % 2 != 0 {
                return Ok(());
            }
            cx.note(|| format!("box [{} {} {} {}] times the smallest float", a, b, c, d));
            for dist in [0, 1, 3, -2] {
                let (t, s) = (f64::from_bits(1), f32::from_bits(1) as f64);
                arith::<f64>(cx, &[a, b, c, d].map(|v| v as f64 * t), dist as f64 * t)?;
                arith::<f32>(cx, &[a, b, c, d].map(|v| v as f64 * s), dist as f64 * s)?;
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C15",
        assumptions: vec!["a box with a NaN side contains no point and so neither meets nor contains anything; infinite sides are closed"],
        families: fams,
    })
}
