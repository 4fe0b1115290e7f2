//! C02: polygon validity <=> closed simple rings, holes inside the exterior, holes disjoint.
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

fn show(ext: &[P], holes: &[&[P]]) -> String {
    format!("polygon exterior {:?} holes {:?}", ext, holes)
}
fn verdict<C: Co>(cx: &mut Cx, e: &Emb, ext: &[P], holes: &[&[P]], want: bool) -> R {
    cx.op(1);
    let p: Polygon<C> = e.poly(ext, holes);
    let got = p.validate();
    ensure!(
        got.is_ok() == want,
        "{} {} mapped by {} should be {} but validate() = {:?}",
        C::NAME, show(ext, holes), e.name, if want { "valid" } else { "invalid" }, got
    );
    if e.name == ID.name || e.name == SHIFT.name {
        ensure!(p.is_simple() == want, "{} {}: is_simple() disagrees with validity", C::NAME, show(ext, holes));
    }
    Ok(())
}
fn judge(cx: &mut Cx, embs: &[Emb], single: bool, ext: &[P], holes: &[&[P]]) -> R {
    cx.note(|| show(ext, holes));
    let want = polygon_valid(ext, holes);
    cx.outcome(want as usize);
    judged(cx, embs, single, ext, holes, want)
}
fn judged(cx: &mut Cx, embs: &[Emb], single: bool, ext: &[P], holes: &[&[P]], want: bool) -> R {
    for e in embs {
        verdict::<f64>(cx, e, ext, holes, want)?;
        if single && !e.wide {
            verdict::<f32>(cx, e, ext, holes, want)?;
        }
    }
    Ok(())
}
/// Without the coordinates in the message.
fn judged_big(cx: &mut Cx, ext: &[P], holes: &[&[P]], want: bool) -> R {
    cx.op(1);
    let p: Polygon<f64> = ID.poly(ext, holes);
    let got = p.validate();
    ensure!(got.is_ok() == want, "should be {} but validate() = {:?}", if want { "valid" } else { "invalid" }, got);
    Ok(())
}
fn dx_like(cx: &mut Cx, l: i64) -> i64 {
    [0, 1, -5, l, -l - 4, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(9)]
}
fn cat(pts: &[P], ns: &[usize], straight: bool) -> Vec<Vec<P>> {
    ns.iter().flat_map(|n| rings(pts, *n, false, straight)).collect()
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["invalid", "valid"];

    let n3 = if th { 6 } else { 5 };
    let g3 = grid(3, 3);
    fams.push(Family {
        name: "exterior",
        bound: format!("all sequences of 0..={} points of the 3x3 grid as exterior without holes, as they are and closed; 21 embeddings (one mixing 0.0 and -0.0, scales 2^-480 to 2^480)", n3),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(n3 + 1);
            let mut s: Vec<P> = (0..n).map(|_| *cx.pick(&g3)).collect();
            if n > 0 && cx.flip() {
                s.push(s[0]);
            }
            judge(cx, &EMBS, true, &s, &[])?;
            judge(cx, &EXTREME, true, &s, &[])
        }),
    });

    let c3 = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5, 6, 7] } else { &[3, 4, 5, 6] }, true));
    let c = c3.clone();
    fams.push(Family {
        name: "onehole3",
        bound: format!("every ordered pair (exterior, hole) of the {} simple rings of the 3x3 grid; 4 embeddings, f64 and f32", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&c);
            let h = cx.pick(&c);
            judge(cx, &EMBS3, true, e, &[h])
        }),
    });

    let small = Arc::new(cat(&grid(3, 3), &[3, 4], true));
    let c = small.clone();
    fams.push(Family {
        name: "respell3",
        bound: format!("every pair of the {} rings with 3 or 4 vertices of the 3x3 grid, with every rotation of both starts and both directions; also scaled by 2^-480 to 2^480 and with 0.0 and -0.0 mixed", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&c);
            let h = cx.pick(&c);
            cx.note(|| show(e, &[h]));
            let want = polygon_valid(e, &[h]);
            cx.outcome(want as usize);
            judged(cx, &EXTREME, true, e, &[h], want)?;
            for i in 0..e.len() - 1 {
                for j in 0..h.len() - 1 {
                    for r in 0..4 {
                        let (a, b) = (respell(e, i, r & 1 == 1), respell(h, j, r & 2 == 2));
                        verdict::<f64>(cx, &ROT45, &a, &[&b], want)?;
                        verdict::<f64>(cx, &MIXZ, &a, &[&b], want)?;
                    }
                }
            }
            Ok(())
        }),
    });

    let t4 = Arc::new(rings(&grid(4, 4), 3, false, false));
    let q4 = Arc::new(cat(&grid(4, 4), &[3, 4], true));
    let p4 = Arc::new(if th { cat(&grid(4, 4), &[3, 4, 5], true) } else { (*q4).clone() });
    let (t, q) = (t4.clone(), p4.clone());
    fams.push(Family {
        name: "onehole4",
        bound: format!("every pair of one of the {} simple rings of the 4x4 grid as exterior and one of its {} triangles as hole", q.len(), t.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&q);
            let h = cx.pick(&t);
            judge(cx, &[SHIFT, MIRX, SWAP], false, e, &[h])
        }),
    });
    let (t, q) = (if th { q4.clone() } else { t4.clone() }, q4.clone());
    fams.push(Family {
        name: "onehole4b",
        bound: format!("every pair of one of {} rings of the 4x4 grid as exterior and one of {} as hole", t.len(), q.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&t);
            let h = cx.pick(&q);
            judge(cx, &[ROT45], false, e, &[h])
        }),
    });

    // both rings from the 4x4 grid: crossings in which no vertex is near the other ring
    let q = q4.clone();
    fams.push(Family {
        name: "holes4",
        bound: format!("every unordered pair of the {} rings of 3 or 4 vertices of the 4x4 grid as holes of a rectangle (in one of the orders)", q.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let i = cx.choose(q.len());
            let j = i + cx.choose(q.len() - i);
            let (i, j) = if (i + j) % 2 == 0 { (i, j) } else { (j, i) };
            judge(cx, &[SHIFT], false, &rect(-1, -1, 4, 4), &[&q[i], &q[j]])
        }),
    });
    let m = if th { 9 } else { 7 };
    let bars: Arc<Vec<Vec<P>>> = Arc::new(bars(m));
    let b = bars.clone();
    fams.push(Family {
        name: "bars",
        bound: format!("every ordered pair of the {} axis-parallel rectangles of the {}x{} grid as exterior and hole, and as two holes in either order; axis-parallel and turned by 45 degrees", b.len(), m, m),
        outcomes: out,
        f: Box::new(move |cx| {
            let (x, y) = (cx.pick(&b), cx.pick(&b));
            if cx.flip() {
                judge(cx, &[SHIFT, ROT45], true, x, &[y])
            } else {
                judge(cx, &[SHIFT, ROT45], true, &rect(-1, -1, m, m), &[x, y])
            }
        }),
    });

    // two holes
    let exts: Vec<Vec<P>> = vec![
        rect(0, 0, 4, 4),
        vec![(0, 0), (4, 0), (4, 4), (2, 3), (0, 4), (0, 0)],
        vec![(0, 0), (6, 0), (1, 6), (0, 0)],
        vec![(1, 0), (4, 1), (3, 4), (0, 3), (1, 0)],
        rect(1, 1, 3, 3),
    ];
    let c = if th { Arc::new(cat(&grid(3, 3), &[3, 4, 5], true)) } else { small.clone() };
    fams.push(Family {
        name: "twoholes",
        bound: format!("5 exteriors; every ordered pair of holes from {} rings of a 3x3 grid inside or touching them", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&exts);
            let h1 = shift(cx.pick(&c), (1, 1));
            let h2 = shift(cx.pick(&c), (1, 1));
            judge(cx, &[SHIFT, SMALL], true, e, &[&h1, &h2])
        }),
    });

    // three (four) holes: positions of small shapes
    let mut tiles: Vec<Vec<P>> = vec![];
    for y in 0..3 {
        for x in 0..3 {
            let (x, y) = (2 * x, 2 * y);
            tiles.push(rect(x, y, x + 2, y + 2));
            tiles.push(vec![(x, y), (x + 2, y), (x + 1, y + 2), (x, y)]);
        }
    }
    tiles.push(rect(1, 1, 5, 5));
    tiles.push(vec![(3, 0), (6, 3), (3, 6), (0, 3), (3, 0)]);
    tiles.push(vec![(2, 2), (4, 2), (4, 4), (2, 4), (2, 2)]);
    tiles.push(vec![(2, 3), (3, 2), (4, 3), (3, 4), (2, 3)]);
    let e3 = vec![rect(-1, -1, 7, 7), vec![(-3, -1), (9, -1), (3, 11), (-3, -1)], rect(0, 0, 6, 6)];
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "threeholes",
        bound: format!("3 exteriors, every sequence of {} holes out of {} squares, triangles and diamonds on a 3x3 block", k, tiles.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&e3);
            let hs: Vec<&[P]> = (0..k).map(|_| &cx.pick(&tiles)[..]).collect();
            judge(cx, &[ID, FAR], true, e, &hs)
        }),
    });

    // a large ring of any shape and a small one at every place relative to it: as exterior and hole,
    // and as two holes in either order
    let tri = Arc::new(cat(&grid(3, 3), &[3], true));
    let (a, b) = (if th { c3.clone() } else { Arc::new(cat(&grid(3, 3), &[3, 4, 5], true)) }, if th { small.clone() } else { tri.clone() });
    fams.push(Family {
        name: "placedhole",
        bound: format!("exterior: one of {} rings of the 3x3 grid scaled by 4; hole: one of {} rings at every offset", a.len(), b.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = scale(cx.pick(&a), 4);
            let h = cx.pick(&b);
            let h = shift(h, (cx.choose(11) as i64 - 2, cx.choose(11) as i64 - 2));
            judge(cx, &[ID], false, &e, &[&h])
        }),
    });
    let pairs: Vec<(Vec<P>, Vec<P>)> = small
        .iter()
        .flat_map(|x| small.iter().map(move |y| (x.clone(), y.clone())))
        .filter(|(x, y)| th || x.len() == 4 || y.len() == 4)
        .collect();
    fams.push(Family {
        name: "placedholes",
        bound: format!("holes: {} pairs of rings of 3 or 4 vertices of the 3x3 grid{}, the first scaled by 4 and the second at every offset (inside, across, touching, beside), both orders", pairs.len(), if th { "" } else { ", one of them a triangle" }),
        outcomes: out,
        f: Box::new(move |cx| {
            let (x, y) = cx.pick(&pairs);
            let h1 = scale(x, 4);
            let h2 = shift(y, (cx.choose(11) as i64 - 2, cx.choose(11) as i64 - 2));
            let e = rect(-5, -5, 13, 13);
            cx.note(|| show(&e, &[&h1, &h2]));
            let want = polygon_valid(&e, &[&h1, &h2]);
            cx.outcome(want as usize);
            judged(cx, &[ID], false, &e, &[&h1, &h2], want)?;
            judged(cx, &[SWAP], false, &e, &[&h2, &h1], want)
        }),
    });

    // many holes: more than one index node; one of them disturbed
    let counts: Vec<usize> = if th { (1..=20).chain([63, 64, 65, 66, 80, 129, 256, 257, 513, 1025]).collect() } else { (1..=10).chain([16, 17, 30, 65, 129, 257, 513]).collect() };
    fams.push(Family {
        name: "manyholes",
        bound: format!("lattice of {:?} diamond holes in a rectangle; hole k replaced by one of 9 variants relative to hole j (same, shifted by half, nested, enclosing, touching at a corner, touching outside, crossing the exterior, outside the exterior, open), j = next, last, first, previous; hole order as is or reversed", counts),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&counts);
            let w = (n as f64).sqrt().ceil() as i64;
            let mut hs: Vec<Vec<P>> = (0..n as i64)
                .map(|i| {
                    let (x, y) = (12 * (i % w), 12 * (i / w));
                    vec![(x, y - 4), (x + 4, y), (x, y + 4), (x - 4, y), (x, y - 4)]
                })
                .collect();
            let ext = rect(-8, -8, 12 * w, 12 * w);
            let kk = if n <= 20 { cx.choose(n) } else { [0, 1, 7, 8, n / 2, n - 2, n - 1][cx.choose(7)] };
            let j = [(kk + 1) % n, n - 1, 0, (kk + n - 1) % n][cx.choose(4)];
            let v = cx.choose(10);
            let o = hs[j].clone();
            let c = (o[0].0, o[0].1 + 4);
            hs[kk] = match v {
                0 => o,
                1 => shift(&o, (2, 0)),
                2 => rect(c.0 - 1, c.1 - 1, c.0 + 1, c.1 + 1),
                3 => rect(c.0 - 5, c.1 - 5, c.0 + 5, c.1 + 5),
                4 => shift(&o, (8, 0)),
                5 => vec![(c.0 + 2, c.1 + 2), (c.0 + 6, c.1 + 2), (c.0 + 6, c.1 + 4), (c.0 + 2, c.1 + 2)],
                6 => vec![(-10, 0), (-6, 0), (-6, 1), (-10, 0)],
                7 => rect(-20, -20, -15, -15),
                8 => o[..o.len() - 1].to_vec(),
                _ => hs[kk].clone(),
            };
            if cx.flip() {
                hs.reverse();
            }
            let h: Vec<&[P]> = hs.iter().map(|x| &x[..]).collect();
            judge(cx, if n < 100 { &[MIXZ, MIRY, ROT45] } else { &[MIXZ] }, n < 20, &ext, &h)
        }),
    });

    // polyomino-shaped rings in every relative position
    let (ne, nh) = if th { (6, 5) } else { (5, 4) };
    let pe: Vec<Vec<P>> = (1..=ne).flat_map(polyominoes).map(|r| scale(&r, 4)).collect();
    let ph: Vec<Vec<P>> = (1..=nh).flat_map(polyominoes).map(|r| scale(&r, 2)).collect();
    fams.push(Family {
        name: "polyomino",
        bound: format!("exteriors: {} polyomino outlines (cell size 4), holes: {} polyomino outlines (cell size 2), every relative offset", pe.len(), ph.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&pe);
            let h = cx.pick(&ph);
            let (b, c) = (bounds(e), bounds(h));
            let dx = b.0 - c.2 + cx.choose((b.2 - b.0 + c.2 - c.0 + 1) as usize) as i64;
            let dy = b.1 - c.3 + cx.choose((b.3 - b.1 + c.3 - c.1 + 1) as usize) as i64;
            let h = shift(h, (dx, dy));
            judge(cx, &[MIRX], false, e, &[&h])
        }),
    });

    // long rings against small holes, and long holes in long rings
    let sz: Vec<usize> = if th { vec![4, 5, 7, 8, 9, 10, 15, 16, 17, 24, 32, 33, 40, 64, 65, 130, 200] } else { vec![4, 7, 8, 9, 16, 17, 33] };
    fams.push(Family {
        name: "longrings",
        bound: format!("combs, spiral corridors, zigzag bands and parabola arcs of {:?} teeth/turns/vertices (with and without straight-angle vertices) as exterior; small square, triangle, diamond at every lattice position of the bounding box plus margin (every third position for the largest)", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let shape = cx.choose(4);
            let n = *cx.pick(&sz);
            let mut e = match shape {
                0 => scale(&comb(n), 1),
                1 => spiral_ring(n.min(40), 4),
                2 => zigzag_ring(n + 2),
                _ => parabola(n.min(16)),
            };
            if cx.flip() {
                e = subdivide(&e);
            }
            let b = bounds(&e);
            let step = 1 + ((b.2 - b.0) * (b.3 - b.1) / if th { 20000 } else { 1500 }) as usize;
            let (nx, ny) = ((b.2 - b.0 + 3) as usize, (b.3 - b.1 + 3) as usize);
            let at = (cx.choose(nx * ny / step) * step) as i64;
            let (x, y) = (b.0 - 1 + at % nx as i64, b.1 - 1 + at / nx as i64);
            let h = match cx.choose(3) {
                0 => rect(x, y, x + 2, y + 2),
                1 => vec![(x, y), (x + 1, y), (x, y + 1), (x, y)],
                _ => vec![(x, y), (x + 2, y - 1), (x + 1, y + 1), (x, y)],
            };
            judge(cx, &[ID], true, &e, &[&h])
        }),
    });
    let sz: Vec<usize> = if th { (2..=40).chain([64, 65, 128, 130, 200]).collect() } else { vec![2, 3, 4, 7, 8, 9, 15, 16, 17, 33, 65, 130] };
    fams.push(Family {
        name: "longholes",
        bound: format!("combs, spiral corridors, zigzag bands of {:?} units nested in a scaled-up copy, in their bounding rectangle (touching), in a larger one, shifted by every small offset; both roles", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let shape = cx.choose(3);
            let n = *cx.pick(&sz);
            let h = match shape {
                0 => comb(n),
                1 => spiral_ring(n.min(80), 4),
                _ => zigzag_ring(n + 2),
            };
            let b = bounds(&h);
            let e = match cx.choose(5) {
                0 => rect(b.0 - 2, b.1 - 2, b.2 + 2, b.3 + 2),
                1 => vec![(b.0, b.1 - 4), (b.2 + 4, b.3 + 8), (b.0 - 8, b.3 + 8), (b.0, b.1 - 4)],
                2 => h.clone(),
                3 => {
                    // diamond around
                    let (cx_, cy) = ((b.0 + b.2) / 2, (b.1 + b.3) / 2);
                    let r = (b.2 - b.0) + (b.3 - b.1);
                    vec![(cx_ - r, cy), (cx_, cy - r), (cx_ + r, cy), (cx_, cy + r), (cx_ - r, cy)]
                }
                _ => scale(&h, 3),
            };
            let d = *cx.pick(&[(0, 0), (1, 0), (0, 1), (-1, -1), (2, 1), (3, 3)]);
            let hh = shift(&h, d);
            if cx.flip() {
                judge(cx, &[ID], true, &hh, &[&e])
            } else {
                judge(cx, &[ID], true, &e, &[&hh])
            }
        }),
    });
    // a hole touching a long side at every lattice point (inexact parameters)
    let lim = if th { 30 } else { 14 };
    fams.push(Family {
        name: "touch",
        bound: format!("triangle with a side (0,0)-(7w,7h), w,h <= {}; triangular hole with its apex on, before or past each lattice point of the side, from 2 directions; both spellings", lim),
        outcomes: out,
        f: Box::new(move |cx| {
            let w = cx.choose(lim) as i64 + 1;
            let h = cx.choose(lim) as i64;
            let b: P = (w * 7, h * 7);
            let gc = { let (mut x, mut y) = (b.0, b.1); while y != 0 { let t = x % y; x = y; y = t; } x };
            let t = 1 + cx.choose(gc as usize - 1) as i64;
            let q = (b.0 / gc * t, b.1 / gc * t);
            let ext = vec![(0, 0), b, (-2 * b.1 + b.0 / 2, 2 * b.0 + b.1 / 2 + 3), (0, 0)];
            let end = cx.choose(3) as i64 - 1;
            // apex direction: the side's left normal
            let nrm = (-b.1 / gc, b.0 / gc);
            let (num, den) = (1i64, 8i64);
            let apex = (q.0 * den + nrm.0 * end * num, q.1 * den + nrm.1 * end * num);
            let far = (q.0 * den + nrm.0 * 8, q.1 * den + nrm.1 * 8);
            let u = (b.0 / gc, b.1 / gc);
            let hole = vec![apex, (far.0 + u.0, far.1 + u.1), (far.0 - u.0, far.1 - u.1), apex];
            let ext = scale(&ext, den);
            let ext = respell(&ext, cx.choose(3), cx.flip());
            let hole = respell(&hole, cx.choose(3), cx.flip());
            judge(cx, &[ID], false, &ext, &[&hole])
        }),
    });
    let (a, b) = (small.clone(), if th { q4.clone() } else { c3.clone() });
    fams.push(Family {
        name: "decimal",
        bound: format!("pairs (one of {} rings, one of {}), in both roles, whose segments are disjoint, cross properly or share end points, at scales 0.1, 1/3, 0.001", b.len(), a.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e0 = cx.pick(&b);
            // the exterior scaled by 3 and shifted so that holes can be strictly inside
            let e = [e0.clone(), shift(&scale(e0, 3), (-2, -2)), shift(&scale(e0, 3), (-3, -1))][cx.choose(3)].clone();
            let h = cx.pick(&a).clone();
            let (e, h) = if cx.flip() { (h, e) } else { (e, h) };
            if !robust_lines(&e, &h) || !robust_line(&e) || !robust_line(&h) {
                return Ok(());
            }
            cx.note(|| show(&e, &[&h]));
            let want = polygon_valid(&e, &[&h]);
            cx.outcome(want as usize);
            let maps: [(f64, f64, &str); 4] = [(0.1, 0.0, "0.1x"), (1. / 3., 0.7, "x/3+0.7"), (0.001, 100.1, "x/1000+100.1"), (-0.7, 1.3, "-0.7x+1.3")];
            for (k, o, name) in maps.iter() {
                cx.op(1);
                let m = |r: &[P]| LineString::<f64>::new(r.iter().map(|p| Position::new(p.0 as f64 * k + o, p.1 as f64 * k - o)).collect());
                let got = Polygon::new(m(&e), vec![m(&h)]).validate();
                ensure!(got.is_ok() == want, "mapped by {}: should be {} but validate() = {:?}", name, if want { "valid" } else { "invalid" }, got);
                if *o < 100. {
                    let m = |r: &[P]| LineString::<f32>::new(r.iter().map(|p| Position::new(p.0 as f32 * *k as f32 + *o as f32, p.1 as f32 * *k as f32 - *o as f32)).collect());
                    let got = Polygon::new(m(&e), vec![m(&h)]).validate();
                    ensure!(got.is_ok() == want, "f32, mapped by {}: should be {} but validate() = {:?}", name, if want { "valid" } else { "invalid" }, got);
                }
            }
            Ok(())
        }),
    });
    // rings with many vertices that cross where neither has a vertex
    let ks: Vec<usize> = if th { (0..=20).chain([31, 32, 33, 64, 65, 100, 130]).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33] };
    fams.push(Family {
        name: "longbars",
        bound: format!("two bars with {:?} vertices in each end and none along the sides, one along x and one along x or y, at 99 offsets (crossing, touching, beside): as two holes and as exterior and hole; axis-parallel and turned by 45 degrees", ks),
        outcomes: out,
        f: Box::new(move |cx| {
            let (k1, k2) = (*cx.pick(&ks), *cx.pick(&ks));
            let l = 2 * (k1.max(k2) as i64 + 1) + 10;
            let a = long_bar(l, k1);
            let across = cx.flip();
            let b = long_bar(l, k2);
            let b = if across { swapped(&b) } else { b };
            let dx = [0, 1, -5, l, l + 2, -l - 4, 2 * l, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(11)];
            let w = (k1 + k2) as i64 + 2;
            let dy = if across { dx_like(cx, l) } else { [0, 1, -3, w - 1, w, -w, w + 1, 2 * w, -2 * w][cx.choose(9)] };
            let b = shift(&b, (dx, dy));
            let e = rect(-9 * l, -9 * l, 9 * l, 9 * l);
            judge(cx, &[ID, ROT45], k1 == 0, &e, &[&a, &b])?;
            judge(cx, &[SWAP], false, &a, &[&b])
        }),
    });
    // holes touching their neighbours in a row or lattice, and one more that far away in the list
    fams.push(Family {
        name: "apart",
        bound: "a row or 16-wide lattice of diamond holes touching each other at corners, and one small hole inside (or bar across, or beside) hole i at index j, j - i each of 37 values up to 65538 around powers of two, i = 0, 1, 5, 40; list as is or reversed".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let gap = *cx.pick(&gaps(true));
            let i = *cx.pick(&[0usize, 1, 5, 40]);
            if gap > 600 && i > 1 {
                return Ok(());
            }
            let (j, n) = (i + gap, i + gap + 4);
            let w = if cx.flip() { 16 } else { n as i64 };
            let at = |k: usize| -> P { (4 * (k as i64 % w), 4 * (k as i64 / w)) };
            let mut hs: Vec<Vec<P>> = (0..n)
                .map(|k| {
                    let c = at(k);
                    vec![(c.0, c.1 - 2), (c.0 + 2, c.1), (c.0, c.1 + 2), (c.0 - 2, c.1), (c.0, c.1 - 2)]
                })
                .collect();
            let c = at(i);
            let kind = cx.choose(3);
            hs[j] = match kind {
                0 => rect(c.0 - 1, c.1 - 1, c.0 + 1, c.1 + 1),
                1 => rect(c.0 - 1, c.1 - 9, c.0 + 1, c.1 + 9),
                _ => rect(-9, -9, -8, -8),
            };
            if cx.flip() {
                hs.reverse();
            }
            let want = kind == 2;
            let ext = rect(-20, -20, 4 * w + 20, at(n).1 + 20);
            let h: Vec<&[P]> = hs.iter().map(|x| &x[..]).collect();
            cx.note(|| format!("{} touching holes in rows of {}, hole {} {}", n, w, j, ["inside", "across", "apart from"][kind].to_string() + &format!(" hole {}", i)));
            if n < 100 {
                assert!(polygon_valid(&ext, &h) == want, "MC-HARNESS wrong expectation");
            }
            cx.outcome(want as usize);
            judged_big(cx, &ext, &h, want)
        }),
    });
    // degenerate parts: empty, open, short, non-simple rings at any index, exterior empty with holes
    fams.push(Family {
        name: "badparts",
        bound: "exterior and up to 3 holes, each one of 9 kinds (good, empty, one point, two points, back-and-forth, open, open with 5 points, bow-tie, repeated point), holes in disjoint places; NaN/inf in any position of any ring".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let kinds = |k: usize, o: P, s: i64| -> Vec<P> {
                let v: Vec<P> = match k {
                    0 => rect(0, 0, 2, 2),
                    1 => vec![],
                    2 => vec![(0, 0)],
                    3 => vec![(0, 0), (2, 2)],
                    4 => vec![(0, 0), (2, 0), (0, 0)],
                    5 => vec![(0, 0), (2, 0), (2, 2), (0, 2)],
                    6 => vec![(0, 0), (2, 0), (2, 2), (0, 2), (0, 1)],
                    7 => vec![(0, 0), (2, 2), (2, 0), (0, 2), (0, 0)],
                    _ => vec![(0, 0), (2, 0), (2, 0), (2, 2), (0, 0)],
                };
                shift(&scale(&v, s), o)
            };
            let e = kinds(cx.choose(9), (-2, -2), 8);
            let nh = cx.choose(4);
            let hs: Vec<Vec<P>> = (0..nh).map(|i| kinds(cx.choose(9), (4 * i as i64, 1), 1)).collect();
            let h: Vec<&[P]> = hs.iter().map(|x| &x[..]).collect();
            judge(cx, &[ID, SMALL], true, &e, &h)?;
            if nh > 0 && h.iter().all(|x| x.len() == 5) && e.len() == 5 {
                let r = cx.choose(nh + 1);
                let i = cx.choose(4);
                let bad = *cx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let y = cx.flip();
                let mut all: Vec<Vec<(f64, f64)>> = std::iter::once(&e).chain(hs.iter()).map(|r| r.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()).collect();
                let t = &mut all[r];
                if y { t[i].1 = bad } else { t[i].0 = bad }
                if i == 0 { t[4] = t[0]; }
                cx.op(1);
                let mut it = all.into_iter();
                let p = Polygon::new(LineString::from(it.next().unwrap()), it.map(LineString::from).collect());
                ensure!(p.validate().is_err(), "ring {} vertex {} set to {}: accepted", r, i, bad);
            }
            Ok(())
        }),
    });
    let c = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    fams.push(Family {
        name: "eye",
        bound: format!("a corridor that winds inwards {} times as exterior; small square, triangle, diamond of any of 3 sizes in its eye, inside the corridor or between its windings on each side of each of {} windings; any of 4 starts, both directions; embeddings", if th { "1-70, 126-130" } else { "1, 2, 3, 5, 9, 17, 33, 66, 130" }, if th { "all" } else { "first, middle, last" }),
        outcomes: out,
        f: Box::new(move |cx| {
            let ks: Vec<i64> = if th { (1..=70).chain(126..=130).collect() } else { vec![1, 2, 3, 5, 9, 17, 33, 66, 130] };
            let k = *cx.pick(&ks);
            let (e, h) = eyed(cx, k, th);
            let r = cx.choose(8);
            let e = respell(&e, (r % 4) * (e.len() - 1) / 4, r >= 4);
            judge(cx, if k < 20 { &[ID, SWAP] } else { &[ID] }, false, &e, &[&h])
        }),
    });
    fams.push(Family {
        name: "slivers",
        bound: format!("exterior (0,0), (n, s n + i), and a far corner above or below, with the hole (p, j), (n + q, s n + l), and a corner between or beyond, n of {} powers of two up to 2^13, s of 0, 1, -1, 2, the rest small", if th { 12 } else { 4 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (2..=13).collect() } else { vec![3, 6, 10, 13] };
            let n = 1i64 << *cx.pick(&sizes);
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            let up = cx.flip();
            let far = if up { (0, 4 * n) } else { (n, -4 * n) };
            let near = match cx.choose(4) {
                0 => (c.0, c.1 + if up { 1 } else { -1 }),
                1 => (e.0, e.1 + if up { 1 } else { -1 }),
                2 => if up { (0, 2 * n) } else { (n, -2 * n) },
                _ => (c.0, c.1 - if up { 1 } else { -1 }),
            };
            if !exact_products(&[a, b, c, e, far, near], 53) {
                return Ok(());
            }
            let (x, h) = (vec![a, b, far, a], vec![c, e, near, c]);
            judge(cx, &[ID, SWAP, MIRX], false, &x, &[&h])
        }),
    });
    // holes that have the same box, and the same first position, and touch in two points
    const AT: [i64; 6] = [0, 1, 3, 6, 7, 8];
    let lenses: Vec<Vec<P>> = (0..6).flat_map(|i| (i + 1..6).map(move |j| lens(8, AT[i], AT[j]))).collect();
    let lists = if th { 4 } else { 3 };
    fams.push(Family {
        name: "lenses",
        bound: format!("every list of up to {} of {} holes of the same box (pairwise apart but for two points, nested, crossing, or overlapping), possibly started elsewhere and reversed, possibly one with all four corners, in 12 exteriors (around, with a corner cut off at each depth, of the same box); 2 embeddings", lists, lenses.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let k = cx.choose(10) as i64;
            let mut ext = match cx.choose(12) {
                0 => rect(-1, -1, 9, 9),
                1 => rect(0, 0, 8, 8),
                2 => lens(8, 0, 8),
                3 => lens(8, -1, 9),
                4 => vec![(-1, -1), (9, -1), (9, k), (k, 9), (-1, 9), (-1, -1)],
                5 => vec![(9, 9), (-1, 9), (-1, 8 - k), (8 - k, -1), (9, -1), (9, 9)],
                6 => vec![(-1, -1), (9, -1), (9, 1), (k, k), (1, 9), (-1, 9), (-1, -1)],
                7 => vec![(8, 0), (8, 8), (0, 8), (-1, -1), (8, 0)],
                8 => vec![(8, 0), (9, 9), (0, 8), (0, 0), (8, 0)],
                9 => vec![(-9, -9), (9, -9), (9, -1), (-1, 9), (-9, 9), (-9, -9)],
                10 => vec![(9, -1), (9, 9), (-1, 9), (k - 1, k - 1), (9, -1)],
                _ => rect(0, 0, 9, 9),
            };
            if cx.flip() {
                ext.reverse();
            }
            let n = cx.choose(lists + 1);
            let mut hs: Vec<Vec<P>> = (0..n).map(|_| cx.pick(&lenses).clone()).collect();
            if n > 0 && n < 3 {
                let t = cx.choose(3);
                hs[0] = respell(&hs[0], t, t == 2);
            }
            let refs: Vec<&[P]> = hs.iter().map(|h| &h[..]).collect();
            judge(cx, &[ID, MIRX], false, &ext, &refs)
        }),
    });
    fams.push(Family {
        name: "cut",
        bound: format!("every ordered pair of the {} rings of 3 or 4 vertices of the 3x3 grid as exterior and hole (as it is, or a quarter of its size at one of three places) and as two holes of a frame, their sides cut into {:?} pieces: the verdict of the uncut polygon", c.len(), CUTS),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            let how = cx.choose(5);
            // on a grid four times as fine
            let big = scale(a, 4);
            let (ext, holes): (Vec<P>, Vec<Vec<P>>) = match how {
                0 => (big, vec![scale(b, 4)]),
                1..=3 => (big, vec![shift(b, [(1, 1), (3, 2), (5, 3)][how - 1])]),
                _ => (rect(-4, -4, 16, 16), vec![big, scale(b, 4)]),
            };
            let h: Vec<&[P]> = holes.iter().map(|x| &x[..]).collect();
            let want = polygon_valid(&ext, &h);
            cx.outcome(want as usize);
            for (i, (k, l)) in CUTS.into_iter().enumerate() {
                cx.note(|| format!("{} cut into {} and {}", show(&ext, &h), k, l));
                let e = cut(&ext, 8, k);
                let fine: Vec<Vec<P>> = h.iter().enumerate().map(|(m, r)| cut(r, 8, if m == 0 { l } else { k })).collect();
                let f: Vec<&[P]> = fine.iter().map(|x| &x[..]).collect();
                verdict::<f64>(cx, if i == 0 { &ROT45 } else { &ID }, &e, &f, want)?;
            }
            Ok(())
        }),
    });
    // a ring and a smaller one, in combination with other holes and spellings
    let c = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    let inner: Arc<Vec<Vec<Vec<P>>>> = Arc::new(c.iter().map(|r| nooks(&scale(r, 32), 4)).collect());
    let st = if th { 1 } else { 2 };
    fams.push(Family {
        name: "dressed",
        bound: format!("every ordered pair of the {} rings of 3 or 4 vertices of the 3x3 grid, the second a quarter (half, or all) of its size at every {} offset, as exterior and hole, and as two holes of a frame, each with one combination of: 0-4 more holes before or after, sides of either cut into 1, 2, 4 or 8, start and direction of either, embedding", c.len(), if th { "" } else { "second" }),
        outcomes: out,
        f: Box::new(move |cx| {
            let (i, j) = (cx.choose(c.len()), cx.choose(c.len()));
            let n = 10 / st as usize;
            let (x, y) = (cx.choose(n), cx.choose(n));
            let mut t = Turn::new(&[i, j, x, y]);
            let a = scale(&c[i], 32);
            let k = *t.pick(&[8, 8, 16, 32]);
            let b = shift(&scale(&c[j], k), (8 * (st * x as i64 - 1), 8 * (st * y as i64 - 1)));
            let as_holes = t.take(3) == 0;
            let more: Vec<Vec<P>> = if as_holes {
                (0..t.take(5) as i64).map(|m| rect(-60 + 40 * m, -60, -40 + 40 * m, -44)).collect()
            } else {
                let v = &inner[i];
                v[..t.take(v.len() + 1)].to_vec()
            };
            let (ka, kb) = (*t.pick(&[1, 1, 2, 4, 8]), *t.pick(&[1, 1, 2, 4, 8]));
            let mut holes: Vec<Vec<P>> = more.clone();
            let (mut fine, at) = (more.iter().map(|r| cut(r, 8, *t.pick(&[1, 1, 4]))).collect::<Vec<_>>(), t.take(more.len() + 1));
            holes.insert(at, b.clone());
            fine.insert(at, respell(&cut(&b, 8, kb), t.take(2), t.take(2) == 1));
            let fine_a = respell(&cut(&a, 8, ka), t.take(3), t.take(2) == 1);
            let (ext, fine_ext) = if as_holes {
                let at = t.take(holes.len() + 1);
                holes.insert(at, a);
                fine.insert(at, fine_a);
                let f = rect(-200, -200, 400, 400);
                let g = cut(&f, 8, *t.pick(&[1, 1, 2]));
                (f, g)
            } else {
                (a, fine_a)
            };
            let h: Vec<&[P]> = holes.iter().map(|r| &r[..]).collect();
            let want = polygon_valid(&ext, &h);
            cx.outcome(want as usize);
            let e = *t.pick(&[&ID, &ROT45, &SWAP, &FAR]);
            let f: Vec<&[P]> = fine.iter().map(|r| &r[..]).collect();
            cx.note(|| format!("{} mapped by {}", show(&fine_ext, &f), e.name));
            verdict::<f64>(cx, e, &fine_ext, &f, want)
        }),
    });
    // two holes of interest among others
    let few: Arc<Vec<Vec<P>>> = Arc::new(vec![
        rect(0, 0, 16, 16),
        rect(6, 6, 10, 10),
        rect(0, 4, 4, 8),
        rect(16, 0, 20, 4),
        rect(16, 16, 18, 18),
        rect(-2, -2, 18, 18),
        vec![(8, 0), (16, 8), (8, 16), (0, 8), (8, 0)],
        vec![(8, 4), (12, 8), (8, 12), (4, 8), (8, 4)],
        rect(20, 20, 22, 22),
        rect(10, 14, 12, 20),
        rect(-40, 0, -30, 4),
        rect(-32, 0, -28, 4),
        vec![(-32, 0), (-30, 0), (-32, 4), (-32, 0)],
    ]);
    let ns: Vec<usize> = if th { vec![2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 18, 32, 33, 34, 40, 65, 66, 130] } else { vec![3, 5, 9, 10, 17, 18, 33, 40] };
    fams.push(Family {
        name: "among",
        bound: format!("every ordered pair of {} holes (overlapping, nested, touching, apart, outside, across the exterior), cut into 1 or 2, among {:?} holes (small, with many vertices) far away, at 20 pairs of places in the list", few.len(), ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let (a, b) = (cx.pick(&few), cx.pick(&few));
            let ext = rect(-30, -140, 600, 2000);
            let want = polygon_valid(&ext, &[a, b]);
            let (k, l) = *cx.pick(&[(1, 1), (2, 1), (1, 2)]);
            let n = *cx.pick(&ns);
            let (i, j) = *cx.pick(&places(n));
            let kind = cx.choose(3);
            let mut v: Vec<Vec<P>> = (0..n as i64)
                .map(|m| {
                    let o = (200 + 40 * (m % 7), 60 * (m / 7) - 100);
                    match if kind < 2 { kind as i64 } else { m % 2 } {
                        0 => shift(&rect(0, 0, 8, 8), o),
                        _ => shift(&zigzag_ring(12), o),
                    }
                })
                .collect();
            v[i] = cut(a, 2, k);
            v[j] = cut(b, 2, l);
            let f: Vec<&[P]> = v.iter().map(|x| &x[..]).collect();
            cx.note(|| format!("{:?} and {:?} cut into {} and {} as holes {} and {} of {}, others of kind {}", a, b, k, l, i, j, n, kind));
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &cut(&ext, 2, if kind == 1 { 2 } else { 1 }), &f, want)
        }),
    });
    run_check(Check {
        id: "C02",
        assumptions: vec![
            "the reference model decides ring simplicity and the relation of two rings exactly (128-bit integers and rationals, slab decomposition)",
            "rings may touch at finitely many points, also when that disconnects the interior (the repository's own examples require it)",
        ],
        families: fams,
    })
}
