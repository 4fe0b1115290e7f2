//! C04: multipolygon validity <=> valid polygons, exteriors touching at finitely many points,
//! nesting only inside a single hole.
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, MultiPolygon, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

fn verdict<C: Co>(cx: &mut Cx, e: &Emb, ps: &[Poly], want: bool) -> R {
    cx.op(1);
    let m: MultiPolygon<C> = e.mpoly(ps);
    let got = m.validate();
    ensure!(
        got.is_ok() == want,
        "{} multipolygon {:?} mapped by {} should be {} but validate() = {:?}",
        C::NAME, ps, e.name, if want { "valid" } else { "invalid" }, got
    );
    if e.name == ID.name || e.name == SHIFT.name {
        ensure!(m.is_simple() == want, "{} multipolygon {:?}: is_simple() disagrees with validity", C::NAME, ps);
    }
    Ok(())
}
fn judge(cx: &mut Cx, embs: &[Emb], single: bool, ps: &[Poly]) -> R {
    cx.note(|| format!("multipolygon {:?}", ps));
    let want = multipolygon_valid(ps);
    cx.outcome(want as usize);
    for e in embs {
        verdict::<f64>(cx, e, ps, want)?;
        if single && !e.wide {
            verdict::<f32>(cx, e, ps, want)?;
        }
    }
    Ok(())
}
fn plain(r: &[P]) -> Poly {
    (r.to_vec(), vec![])
}
fn cat(pts: &[P], ns: &[usize], straight: bool) -> Vec<Vec<P>> {
    ns.iter().flat_map(|n| rings(pts, *n, false, straight)).collect()
}
fn diamond(c: P, r: i64) -> Vec<P> {
    vec![(c.0, c.1 - r), (c.0 + r, c.1), (c.0, c.1 + r), (c.0 - r, c.1), (c.0, c.1 - r)]
}
fn square(c: P, r: i64) -> Vec<P> {
    rect(c.0 - r, c.1 - r, c.0 + r, c.1 + r)
}
fn permute<T: Clone>(cx: &mut Cx, v: &[T]) -> Vec<T> {
    let mut rest: Vec<T> = v.to_vec();
    let mut out = vec![];
    while !rest.is_empty() {
        let i = cx.choose(rest.len());
        out.push(rest.remove(i));
    }
    out
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["invalid", "valid"];

    let c3 = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5, 6] } else { &[3, 4, 5] }, true));
    let c = c3.clone();
    fams.push(Family {
        name: "pairs3",
        bound: format!("every ordered pair of the {} simple rings of the 3x3 grid as polygons without holes; 3 embeddings, f64 and f32", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            judge(cx, &[SHIFT, SMALL, FAR], true, &[plain(a), plain(b)])
        }),
    });
    let tri3 = Arc::new(cat(&grid(3, 3), &[3, 4], false));
    let c = tri3.clone();
    fams.push(Family {
        name: "embed3",
        bound: format!("every ordered pair of the {} triangles and quadrilaterals of the 3x3 grid; 17 embeddings (one mixing 0.0 and -0.0), f64 and f32; second ring started and directed every way in one of them", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            judge(cx, &EMBS, true, &[plain(a), plain(b)])?;
            judge(cx, &EXTREME, true, &[plain(a), plain(b)])?;
            let want = multipolygon_valid(&[plain(a), plain(b)]);
            for i in 0..a.len() - 1 {
                for j in 0..b.len() - 1 {
                    for r in 0..4 {
                        verdict::<f64>(cx, &MIXZ, &[plain(&respell(a, i, r & 1 == 1)), plain(&respell(b, j, r & 2 == 2))], want)?;
                        verdict::<f64>(cx, &ROT45, &[plain(&respell(a, i, r & 1 == 1)), plain(&respell(b, j, r & 2 == 2))], want)?;
                    }
                }
            }
            Ok(())
        }),
    });
    let t4 = Arc::new(rings(&grid(4, 4), 3, false, false));
    let q4 = Arc::new(cat(&grid(4, 4), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    let q = Arc::new(cat(&grid(4, 4), &[3, 4], true));
    fams.push(Family {
        name: "pairs44",
        bound: format!("every unordered pair of the {} rings of 3 or 4 vertices of the 4x4 grid (in one of the orders)", q.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let i = cx.choose(q.len());
            let j = i + cx.choose(q.len() - i);
            let (i, j) = if (i + j) % 2 == 0 { (i, j) } else { (j, i) };
            judge(cx, &[SHIFT], false, &[plain(&q[i]), plain(&q[j])])
        }),
    });
    let m = if th { 8 } else { 6 };
    let b = Arc::new(bars(m));
    fams.push(Family {
        name: "bars",
        bound: format!("every ordered pair of the {} axis-parallel rectangles of the {}x{} grid as polygons, and as hole (of a frame) and island in either order; axis-parallel and turned by 45 degrees", b.len(), m, m),
        outcomes: out,
        f: Box::new(move |cx| {
            let (x, y) = (cx.pick(&b), cx.pick(&b));
            let frame: Poly = (rect(-1, -1, m, m), vec![x.clone()]);
            match cx.choose(3) {
                0 => judge(cx, &[SHIFT, ROT45], true, &[plain(x), plain(y)]),
                1 => judge(cx, &[SHIFT, ROT45], true, &[frame, plain(y)]),
                _ => judge(cx, &[SHIFT, ROT45], true, &[plain(y), frame]),
            }
        }),
    });
    let (t, q) = (t4.clone(), q4.clone());
    fams.push(Family {
        name: "pairs4",
        bound: format!("every pair of one of {} rings and one of {} triangles of the 4x4 grid, both orders", q.len(), t.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = plain(cx.pick(&q));
            let b = plain(cx.pick(&t));
            cx.note(|| format!("multipolygon {:?} {:?} and exchanged", a, b));
            let mut ps = [a, b];
            let want = multipolygon_valid(&ps);
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &ps, want)?;
            ps.swap(0, 1);
            verdict::<f64>(cx, &MIRX, &ps, want)
        }),
    });
    // triples
    let small = Arc::new(if th { cat(&grid(3, 3), &[3, 4], false) } else { cat(&grid(3, 3), &[3], false) });
    let c = small.clone();
    fams.push(Family {
        name: "triples",
        bound: format!("every ordered triple of {} rings of the 3x3 grid", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let ps: Vec<Poly> = (0..3).map(|_| plain(cx.pick(&c))).collect();
            judge(cx, &[ID], false, &ps)
        }),
    });

    // a polygon with one or two holes (possibly invalid itself) and another polygon anywhere
    let ring_cat: Arc<Vec<Vec<P>>> = Arc::new({
        let mut v = cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true);
        v.sort();
        v
    });
    let hosts: Arc<Vec<Poly>> = Arc::new(vec![
        (rect(0, 0, 8, 8), vec![rect(2, 2, 6, 6)]),
        (rect(0, 0, 8, 8), vec![diamond((4, 4), 4)]),
        (vec![(0, 0), (12, 0), (0, 12), (0, 0)], vec![vec![(1, 1), (6, 1), (1, 6), (1, 1)]]),
        (rect(0, 0, 8, 8), vec![rect(1, 1, 3, 7), rect(5, 1, 7, 7)]),
        (rect(0, 0, 8, 8), vec![rect(1, 1, 4, 4), rect(4, 4, 7, 7)]),
        (rect(0, 0, 8, 8), vec![rect(4, 4, 7, 7), rect(1, 1, 4, 4)]),
        (rect(0, 0, 8, 8), vec![vec![(1, 1), (7, 1), (4, 4), (1, 1)], vec![(1, 7), (4, 4), (7, 7), (1, 7)]]),
        (rect(0, 0, 8, 8), vec![rect(1, 1, 3, 3), rect(5, 1, 7, 3), rect(1, 5, 3, 7)]),
        (diamond((4, 4), 5), vec![square((4, 4), 2)]),
        (rect(0, 0, 8, 8), vec![vec![(1, 1), (7, 1), (7, 7), (5, 7), (5, 3), (3, 3), (3, 7), (1, 7), (1, 1)]]),
    ]);
    let (h, c) = (hosts.clone(), ring_cat.clone());
    fams.push(Family {
        name: "island",
        bound: format!("{} polygons with 1-3 holes and a polygon from {} rings of the 3x3 grid at each of 121 offsets (inside a hole, touching, filling, crossing, in the body, outside), both orders", h.len(), c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let host = cx.pick(&h).clone();
            let r = cx.pick(&c);
            let d = (cx.choose(11) as i64 - 2, cx.choose(11) as i64 - 2);
            let isl = plain(&shift(r, d));
            cx.note(|| format!("multipolygon {:?} {:?} and exchanged", host, isl));
            let mut ps = [host, isl];
            let want = multipolygon_valid(&ps);
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &ps, want)?;
            ps.swap(0, 1);
            verdict::<f64>(cx, &SWAP, &ps, want)
        }),
    });
    let (a, b) = (ring_cat.clone(), small.clone());
    fams.push(Family {
        name: "placed",
        bound: format!("one of {} rings of the 3x3 grid scaled by 4 and one of {} at each of 121 offsets, as plain polygons and as hole of a surrounding rectangle and island, both orders", a.len(), b.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let r1 = scale(cx.pick(&a), 4);
            let r2 = shift(cx.pick(&b), (cx.choose(11) as i64 - 2, cx.choose(11) as i64 - 2));
            let host = if cx.flip() { (rect(-1, -1, 9, 9), vec![r1]) } else { plain(&r1) };
            let isl = plain(&r2);
            cx.note(|| format!("multipolygon {:?} {:?} and exchanged", host, isl));
            let mut ps = [host, isl];
            let want = multipolygon_valid(&ps);
            cx.outcome(want as usize);
            verdict::<f64>(cx, &ID, &ps, want)?;
            ps.swap(0, 1);
            verdict::<f64>(cx, &ROT45, &ps, want)
        }),
    });
    let (h, c) = (hosts.clone(), ring_cat.clone());
    fams.push(Family {
        name: "islandembed",
        bound: format!("the same with triangles, offsets by 2, scaled by 1-2, {} embeddings f64 and f32", EMBS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let host = cx.pick(&h).clone();
            let r = cx.pick(&c);
            if r.len() > 4 {
                return Ok(());
            }
            let k = 1 + cx.choose(2) as i64;
            let d = (2 * cx.choose(6) as i64 - 2, 2 * cx.choose(6) as i64 - 2);
            let isl = plain(&shift(&scale(r, k), d));
            judge(cx, &EMBS, true, &[host, isl])
        }),
    });
    // ring-shaped polygons (with holes) against each other: nested frames, islands in islands
    let frames: Arc<Vec<Poly>> = Arc::new({
        let c = (0, 0);
        let mut v = vec![];
        for o in [2, 3, 4, 5, 6, 8] {
            v.push(plain(&square(c, o)));
            v.push(plain(&diamond(c, o)));
            for i in [1, 2, 3, 4, 5, 6, 7] {
                if i < o {
                    v.push((square(c, o), vec![square(c, i)]));
                    v.push((diamond(c, o), vec![diamond(c, i)]));
                    v.push((square(c, o), vec![diamond(c, i)]));
                }
            }
            v.push((square(c, o), vec![diamond(c, o)]));
        }
        v.push((square(c, 8), vec![square((-4, 0), 3), square((4, 0), 3)]));
        v.push((square(c, 8), vec![square((-4, 0), 4), square((4, 0), 3)]));
        v.push((square(c, 8), vec![square((4, 0), 3), square((-4, 0), 3)]));
        v.push((square((4, 0), 3), vec![square((4, 0), 2)]));
        v.push((square((-4, 0), 3), vec![diamond((-4, 0), 3)]));
        v.push(plain(&square((-4, 0), 2)));
        v.push((diamond((4, 0), 3), vec![diamond((4, 0), 1)]));
        v
    });
    let f = frames.clone();
    fams.push(Family {
        name: "frames",
        bound: format!("every ordered triple of {} nested squares, diamonds and frames with holes", f.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&f).clone();
            let b = cx.pick(&f).clone();
            let n = if th { f.len() + 1 } else { f.len() / 3 };
            let i = cx.choose(n);
            let mut ps = vec![a, b];
            if i > 0 {
                ps.push(f[if th { i - 1 } else { i * 3 - 1 }].clone());
            }
            judge(cx, &[ID], false, &ps)
        }),
    });
    let f = frames.clone();
    fams.push(Family {
        name: "frameembed",
        bound: "every ordered pair of them, 17 embeddings, f64 and f32".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&f).clone();
            let b = cx.pick(&f).clone();
            judge(cx, &EMBS, true, &[a, b])
        }),
    });
    // order of polygons and of holes
    let scenes: Vec<Vec<Poly>> = vec![
        vec![(square((0, 0), 10), vec![square((-5, 5), 3), square((5, 5), 3), square((0, -5), 4)]), plain(&square((-5, 5), 2)), plain(&diamond((5, 5), 3)), plain(&square((0, -5), 1))],
        vec![(square((0, 0), 10), vec![square((-5, 5), 3), square((5, 5), 3), square((0, -5), 4)]), plain(&square((-5, 5), 2)), plain(&diamond((5, 5), 4)), plain(&square((0, -5), 1))],
        vec![(square((0, 0), 10), vec![square((-5, 5), 3), square((5, 5), 3), square((0, -5), 4)]), plain(&square((-5, 5), 2)), plain(&diamond((1, 1), 1)), plain(&square((0, -5), 1))],
        vec![(square((0, 0), 10), vec![square((0, 0), 8), ]), (square((0, 0), 7), vec![square((0, 0), 5), ]), (square((0, 0), 4), vec![square((0, 0), 2)]), plain(&square((0, 0), 1))],
        vec![(square((0, 0), 10), vec![square((0, 0), 8), ]), (square((0, 0), 7), vec![square((0, 0), 5), ]), (square((0, 0), 4), vec![square((0, 0), 2)]), plain(&square((0, 0), 3))],
        vec![(square((0, 0), 10), vec![square((0, 0), 8), ]), (square((0, 0), 8), vec![square((0, 0), 5), ]), (square((0, 0), 4), vec![]), plain(&diamond((20, 0), 10))],
        vec![plain(&diamond((0, 0), 5)), plain(&diamond((10, 0), 5)), plain(&diamond((5, 5), 5)), plain(&diamond((0, 10), 5))],
        vec![plain(&square((0, 0), 5)), plain(&square((10, 0), 5)), plain(&square((0, 30), 5)), plain(&square((30, 0), 5))],
        vec![plain(&square((0, 0), 5)), plain(&square((10, 10), 5)), plain(&square((0, 20), 5)), plain(&square((20, 0), 5))],
    ];
    fams.push(Family {
        name: "orders",
        bound: format!("{} scenes of 4 polygons (islands in three holes, onion, touching, overlapping), every order of the polygons and every order of the first one's holes", scenes.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut s = cx.pick(&scenes).clone();
            let h = permute(cx, &s[0].1);
            s[0].1 = h;
            let s = permute(cx, &s);
            judge(cx, &[ID, FAR, ROT45], true, &s)
        }),
    });
    // a host with many holes, an island relative to hole j, hole list rotated
    let counts: Vec<usize> = if th { (1..=20).chain([63, 64, 65, 66, 129, 257, 513]).collect() } else { (1..=10).chain([16, 17, 65, 129, 257]).collect() };
    fams.push(Family {
        name: "manyholes",
        bound: format!("rectangle with a lattice of {:?} diamond holes and one island placed at hole j in 8 ways (inside, touching, filling, crossing, enclosing, between holes), j any; island first or last; hole order as is or reversed", counts),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&counts);
            let w = (n as f64).sqrt().ceil() as i64;
            let at = |i: usize| (12 * (i as i64 % w), 12 * (i as i64 / w));
            let mut hs: Vec<Vec<P>> = (0..n).map(|i| diamond(at(i), 4)).collect();
            let j = if n <= 20 { cx.choose(n) } else { [0, 1, 7, 8, 9, n / 2, n - 2, n - 1][cx.choose(8)] };
            let c = at(j);
            let isl = match cx.choose(8) {
                0 => square(c, 1),
                1 => square(c, 2),
                2 => diamond(c, 4),
                3 => square(c, 3),
                4 => square(c, 5),
                5 => square((c.0 + 6, c.1 + 6), 1),
                6 => vec![(c.0 - 1, c.1), (c.0 + 13, c.1), (c.0 + 6, c.1 + 1), (c.0 - 1, c.1)],
                _ => diamond(c, 3),
            };
            if cx.flip() {
                hs.reverse();
            }
            let host = (rect(-8, -8, 12 * w, 12 * w), hs);
            let ps = if cx.flip() { [plain(&isl), host] } else { [host, plain(&isl)] };
            judge(cx, if n < 100 { &[MIXZ, ROT45] } else { &[MIXZ] }, n < 20, &ps)
        }),
    });
    // many polygons, one disturbed
    let counts: Vec<usize> = if th { (2..=20).chain([63, 64, 65, 66, 100, 129, 257, 513]).collect() } else { (2..=11).chain([16, 17, 33, 65, 129, 257]).collect() };
    fams.push(Family {
        name: "manypolys",
        bound: format!("lattice, row or column of {:?} framed diamonds; polygon k replaced by one of 9 variants relative to polygon j (same, shifted, in its hole, filling its hole, enclosing, in its body, touching at a corner, touching inside the hole, invalid), j = first, last, previous, next", counts),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&counts);
            let w = match cx.choose(3) {
                0 => (n as f64).sqrt().ceil() as i64,
                1 => 1,
                _ => n as i64,
            };
            let at = |i: usize| (24 * (i as i64 % w), 24 * (i as i64 / w));
            let mut ps: Vec<Poly> = (0..n).map(|i| (diamond(at(i), 8), vec![diamond(at(i), 4)])).collect();
            let k = if n <= 20 { cx.choose(n) } else { [0, 1, 7, 8, n / 2, n - 2, n - 1][cx.choose(7)] };
            let j = [(k + 1) % n, n - 1, 0, (k + n - 1) % n][cx.choose(4)];
            let c = at(j);
            ps[k] = match cx.choose(10) {
                0 => ps[j].clone(),
                1 => (diamond((c.0 + 2, c.1), 8), vec![]),
                2 => (diamond(c, 2), vec![diamond(c, 1)]),
                3 => plain(&diamond(c, 4)),
                4 => (square(c, 9), vec![square(c, 1)]),
                5 => plain(&square((c.0 + 5, c.1), 1)),
                6 => plain(&diamond((c.0 + 16, c.1), 8)),
                7 => plain(&square(c, 2)),
                8 => (diamond(at(k), 8), vec![diamond(at(k), 9)]),
                _ => ps[k].clone(),
            };
            judge(cx, if n < 100 { &[MIXZ, MIRY, ROT45] } else { &[MIXZ] }, n < 20, &ps)
        }),
    });
    let (ne, nh) = if th { (5, 5) } else { (4, 4) };
    let pe: Vec<Vec<P>> = (1..=ne).flat_map(polyominoes).map(|r| scale(&r, 2)).collect();
    let ph: Vec<Vec<P>> = (1..=nh).flat_map(polyominoes).map(|r| scale(&r, 2)).collect();
    fams.push(Family {
        name: "polyomino",
        bound: format!("{} polyomino outlines against {} polyomino outlines at every relative offset (half cells)", pe.len(), ph.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let e = cx.pick(&pe);
            let h = cx.pick(&ph);
            let (b, c) = (bounds(e), bounds(h));
            let dx = b.0 - c.2 + cx.choose((b.2 - b.0 + c.2 - c.0 + 1) as usize) as i64;
            let dy = b.1 - c.3 + cx.choose((b.3 - b.1 + c.3 - c.1 + 1) as usize) as i64;
            judge(cx, &[MIRX], false, &[plain(e), plain(&shift(h, (dx, dy)))])
        }),
    });
    let sz: Vec<usize> = if th { (2..=40).chain([64, 65, 128, 130]).collect() } else { vec![2, 3, 7, 8, 9, 16, 17, 33, 65] };
    fams.push(Family {
        name: "longrings",
        bound: format!("combs, spiral corridors, zigzag bands of {:?} units, as plain polygon or as the hole of a surrounding rectangle, with a small square, triangle or a copy of itself at systematic offsets; both orders", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let shape = cx.choose(3);
            let n = *cx.pick(&sz);
            let e = match shape {
                0 => comb(n),
                1 => spiral_ring(n.min(40), 4),
                _ => zigzag_ring(n + 2),
            };
            let b = bounds(&e);
            let host = if cx.flip() { plain(&e) } else { (rect(b.0 - 2, b.1 - 2, b.2 + 2, b.3 + 2), vec![e.clone()]) };
            let kind = cx.choose(3);
            let o = if kind == 2 {
                let d = *cx.pick(&[(0, 0), (1, 0), (0, 1), (2, 0), (4, 0), (0, 4), (100000, 0)]);
                shift(&e, d)
            } else {
                let (nx, ny) = ((b.2 - b.0 + 5) as usize, (b.3 - b.1 + 5) as usize);
                let step = 1 + nx * ny / if th { 1200 } else { 150 };
                let at = (cx.choose(nx * ny / step) * step) as i64;
                let (x, y) = (b.0 - 2 + at % nx as i64, b.1 - 2 + at / nx as i64);
                if kind == 0 { rect(x, y, x + 1, y + 1) } else { vec![(x, y), (x + 2, y), (x, y + 1), (x, y)] }
            };
            let ps = if cx.flip() { [plain(&o), host] } else { [host, plain(&o)] };
            judge(cx, &[ID], true, &ps)
        }),
    });
    // contact along a long oblique side
    let lim = if th { 24 } else { 12 };
    fams.push(Family {
        name: "touch",
        bound: format!("triangle with a side (0,0)-(7w,7h), w,h <= {}; another triangle with its apex on, before or past each lattice point of the side, from outside; every spelling", lim),
        outcomes: out,
        f: Box::new(move |cx| {
            let w = cx.choose(lim) as i64 + 1;
            let h = cx.choose(lim) as i64;
            let b: P = (w * 7, h * 7);
            let gc = { let (mut x, mut y) = (b.0, b.1); while y != 0 { let t = x % y; x = y; y = t; } x };
            let t = 1 + cx.choose(gc as usize - 1) as i64;
            let q = (b.0 / gc * t, b.1 / gc * t);
            let side = if cx.flip() { 1 } else { -1 };
            let end = cx.choose(3) as i64 - 1;
            let ext = scale(&[(0, 0), b, (-2 * b.1 + b.0 / 2, 2 * b.0 + b.1 / 2 + 3), (0, 0)], 8);
            let nrm = (-b.1 / gc * side, b.0 / gc * side);
            let u = (b.0 / gc, b.1 / gc);
            let apex = (q.0 * 8 + nrm.0 * end, q.1 * 8 + nrm.1 * end);
            let far = (q.0 * 8 + nrm.0 * 8, q.1 * 8 + nrm.1 * 8);
            let o = vec![apex, (far.0 + u.0, far.1 + u.1), (far.0 - u.0, far.1 - u.1), apex];
            let ext = respell(&ext, cx.choose(3), cx.flip());
            let o = respell(&o, cx.choose(3), cx.flip());
            judge(cx, &[ID], false, &[plain(&ext), plain(&o)])
        }),
    });
    let (a, b) = (tri3.clone(), c3.clone());
    fams.push(Family {
        name: "decimal",
        bound: format!("pairs (one of {} rings, one of {}), plain or as islands of a frame, whose segments are disjoint, cross properly or share end points, at scales 0.1, 1/3, 0.001, -0.7", a.len(), b.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let p = cx.pick(&a).clone();
            let q = cx.pick(&b).clone();
            let ps: Vec<Poly> = match cx.choose(3) {
                0 => vec![plain(&p), plain(&q)],
                1 => vec![(rect(-3, -3, 5, 5), vec![shift(&scale(&p, 3), (-2, -2))]), plain(&q)],
                _ => vec![plain(&q), (rect(-30, -30, 50, 50), vec![shift(&scale(&p, 4), (-3, -3))])],
            };
            let all: Vec<&Vec<P>> = ps.iter().flat_map(|p| std::iter::once(&p.0).chain(p.1.iter())).collect();
            for i in 0..all.len() {
                if !robust_line(all[i]) {
                    return Ok(());
                }
                for j in i + 1..all.len() {
                    if !robust_lines(all[i], all[j]) {
                        return Ok(());
                    }
                }
            }
            cx.note(|| format!("multipolygon {:?}", ps));
            let want = multipolygon_valid(&ps);
            cx.outcome(want as usize);
            let maps: [(f64, f64, &str); 4] = [(0.1, 0.0, "0.1x"), (1. / 3., 0.7, "x/3+0.7"), (0.001, 100.1, "x/1000+100.1"), (-0.7, 1.3, "-0.7x+1.3")];
            for (k, o, name) in maps.iter() {
                cx.op(1);
                let m = |r: &Vec<P>| LineString::<f64>::new(r.iter().map(|p| Position::new(p.0 as f64 * k + o, p.1 as f64 * k - o)).collect());
                let got = MultiPolygon::new(ps.iter().map(|p| Polygon::new(m(&p.0), p.1.iter().map(m).collect())).collect()).validate();
                ensure!(got.is_ok() == want, "mapped by {}: should be {} but validate() = {:?}", name, if want { "valid" } else { "invalid" }, got);
            }
            Ok(())
        }),
    });
    // rings with many vertices that cross where neither has a vertex
    let ks: Vec<usize> = if th { (0..=20).chain([31, 32, 33, 64, 65, 100, 130]).collect() } else { vec![0, 1, 2, 4, 7, 8, 17, 33] };
    fams.push(Family {
        name: "longbars",
        bound: format!("two bars with {:?} vertices in each end and none along the sides, one along x and one along x or y, at 99 offsets (crossing, touching, beside): as two polygons, and as hole of a frame and island; axis-parallel and turned by 45 degrees", ks),
        outcomes: out,
        f: Box::new(move |cx| {
            let (k1, k2) = (*cx.pick(&ks), *cx.pick(&ks));
            let l = 2 * (k1.max(k2) as i64 + 1) + 10;
            let a = long_bar(l, k1);
            let across = cx.flip();
            let b = long_bar(l, k2);
            let b = if across { swapped(&b) } else { b };
            let dx = [0, 1, -5, l, l + 2, -l - 4, 2 * l, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(11)];
            let w = (k1 + k2) as i64 + 2;
            let dy = if across { [0, 1, -5, l, -l - 4, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(9)] } else { [0, 1, -3, w - 1, w, -w, w + 1, 2 * w, -2 * w][cx.choose(9)] };
            let b = shift(&b, (dx, dy));
            judge(cx, &[ID, ROT45], k1 == 0, &[plain(&a), plain(&b)])?;
            let frame = (rect(-9 * l, -9 * l, 9 * l, 9 * l), vec![a]);
            judge(cx, &[SWAP], false, &[frame, plain(&b)])
        }),
    });
    // polygons touching their neighbours in a row or lattice, and one more that far away in the list
    fams.push(Family {
        name: "apart",
        bound: "a row or 16-wide lattice of diamonds touching each other at corners, and one small square inside (or bar across, or beside) diamond i at index j, j - i each of 37 values up to 65538 around powers of two, i = 0, 1, 5, 40; list as is or reversed".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let gap = *cx.pick(&gaps(true));
            let i = *cx.pick(&[0usize, 1, 5, 40]);
            if gap > 600 && i > 1 {
                return Ok(());
            }
            let (j, n) = (i + gap, i + gap + 4);
            let w = if cx.flip() { 16 } else { n as i64 };
            let at = |k: usize| -> P { (4 * (k as i64 % w), 4 * (k as i64 / w)) };
            let mut ps: Vec<Poly> = (0..n).map(|k| plain(&diamond(at(k), 2))).collect();
            let c = at(i);
            let kind = cx.choose(3);
            ps[j] = plain(&match kind {
                0 => square(c, 1),
                1 => rect(c.0 - 1, c.1 - 9, c.0 + 1, c.1 + 9),
                _ => square((-9, -9), 1),
            });
            if cx.flip() {
                ps.reverse();
            }
            let want = kind == 2;
            cx.note(|| format!("{} touching diamonds in rows of {}, polygon {} {} polygon {}", n, w, j, ["inside", "across", "apart from"][kind], i));
            if n < 100 {
                assert!(multipolygon_valid(&ps) == want, "MC-HARNESS wrong expectation");
            }
            cx.outcome(want as usize);
            cx.op(1);
            let m: MultiPolygon<f64> = ID.mpoly(&ps);
            let got = m.validate();
            ensure!(got.is_ok() == want, "should be {} but validate() = {:?}", if want { "valid" } else { "invalid" }, got);
            Ok(())
        }),
    });
    fams.push(Family {
        name: "badparts",
        bound: "0-3 polygons, each of 10 kinds (good, empty, empty exterior with hole, open, bow-tie, with hole, with crossing hole, hole outside, one point, overlapping the first); optional NaN/inf coordinate".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(4);
            let ps: Vec<Poly> = (0..n)
                .map(|i| {
                    let o = (20 * i as i64, 0);
                    let (e, h): Poly = match cx.choose(10) {
                        0 => (rect(0, 0, 8, 8), vec![]),
                        1 => (vec![], vec![]),
                        2 => (vec![], vec![rect(0, 0, 2, 2)]),
                        3 => (vec![(0, 0), (8, 0), (8, 8), (0, 8)], vec![]),
                        4 => (vec![(0, 0), (8, 8), (8, 0), (0, 8), (0, 0)], vec![]),
                        5 => (rect(0, 0, 8, 8), vec![rect(2, 2, 4, 4)]),
                        6 => (rect(0, 0, 8, 8), vec![rect(2, 2, 9, 4)]),
                        7 => (rect(0, 0, 8, 8), vec![rect(10, 2, 12, 4)]),
                        8 => (vec![(0, 0)], vec![]),
                        _ => (rect(-20 * i as i64 - 1, -1, -20 * i as i64 + 1, 1), vec![]),
                    };
                    (shift(&e, o), h.iter().map(|r| shift(r, o)).collect())
                })
                .collect();
            judge(cx, &[ID, SMALL], true, &ps)?;
            if n > 0 && ps.iter().all(|p| p.0.len() == 5) {
                let k = cx.choose(n);
                let i = cx.choose(4);
                let bad = *cx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let y = cx.flip();
                let polys: Vec<Polygon<f64>> = ps
                    .iter()
                    .enumerate()
                    .map(|(a, p)| {
                        let mut r: Vec<(f64, f64)> = p.0.iter().map(|p| (p.0 as f64, p.1 as f64)).collect();
                        if a == k {
                            if y { r[i].1 = bad } else { r[i].0 = bad }
                            if i == 0 { r[4] = r[0]; }
                        }
                        Polygon::new(LineString::from(r), p.1.iter().map(|h| ID.line(h)).collect())
                    })
                    .collect();
                cx.op(1);
                ensure!(MultiPolygon::new(polys).validate().is_err(), "polygon {} vertex {} set to {}: accepted", k, i, bad);
            }
            Ok(())
        }),
    });
    let c = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    let frame = rect(-1, -1, 4, 4);
    fams.push(Family {
        name: "eye",
        bound: format!("a corridor that winds inwards {} times; small square, triangle, diamond of any of 3 sizes in its eye, inside the corridor or between its windings on each side of each of {} windings; as two polygons or as hole and island; both orders", if th { "1-70, 126-130" } else { "1, 2, 3, 5, 9, 17, 33, 66, 130" }, if th { "all" } else { "first, middle, last" }),
        outcomes: out,
        f: Box::new(move |cx| {
            let ks: Vec<i64> = if th { (1..=70).chain(126..=130).collect() } else { vec![1, 2, 3, 5, 9, 17, 33, 66, 130] };
            let k = *cx.pick(&ks);
            let (e, h) = eyed(cx, k, th);
            let b = bounds(&e);
            let host = if cx.flip() { plain(&e) } else { (rect(b.0 - 2, b.1 - 2, b.2 + 2, b.3 + 2), vec![e.clone()]) };
            let mut v = vec![host, plain(&h)];
            if cx.flip() {
                v.reverse();
            }
            judge(cx, if k < 20 { &[ID, SWAP] } else { &[ID] }, false, &v)
        }),
    });
    fams.push(Family {
        name: "slivers",
        bound: format!("the triangle (0,0), (n, s n + i), and a far corner above or below, and the triangle (p, j), (n + q, s n + l), and another far or near corner, n of {} powers of two up to 2^13, s of 0, 1, -1, 2, the rest small, in both orders", if th { 12 } else { 4 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (2..=13).collect() } else { vec![3, 6, 10, 13] };
            let n = 1i64 << *cx.pick(&sizes);
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            let far = if cx.flip() { (0, 4 * n) } else { (n, -4 * n) };
            let near = match cx.choose(5) {
                0 => (c.0, c.1 + 1),
                1 => (e.0, e.1 - 1),
                2 => (0, 2 * n),
                3 => (n, -4 * n),
                _ => (c.0, c.1 - 1),
            };
            if !exact_products(&[a, b, c, e, far, near], 53) {
                return Ok(());
            }
            let mut v = vec![plain(&[a, b, far, a]), plain(&[c, e, near, c])];
            if cx.flip() {
                v.reverse();
            }
            judge(cx, &[ID, SWAP], false, &v)
        }),
    });
    // polygons that have the same box, and the same first position, and touch in two points
    const AT: [i64; 6] = [0, 1, 3, 6, 7, 8];
    let mut lenses: Vec<Poly> = (0..6).flat_map(|i| (i + 1..6).map(move |j| plain(&lens(16, 2 * AT[i], 2 * AT[j])))).collect();
    lenses.push((rect(-2, -2, 18, 18), vec![rect(-1, -1, 17, 17)]));
    lenses.push((lens(16, -1, 17), vec![lens(16, 0, 2), lens(16, 6, 12)]));
    lenses.push((lens(16, -1, 17), vec![lens(16, 0, 6)]));
    lenses.push((lens(16, 6, 12), vec![lens(16, 7, 10)]));
    let lists = if th { 3 } else { 2 };
    fams.push(Family {
        name: "lenses",
        bound: format!("every list of up to {} of {} polygons most of which have the same box (pairwise apart but for two points, nested, crossing, overlapping, in holes), and one small square, triangle or polygon with a hole at each of 17 places on the diagonal or none of them, at each place in the list; 2 embeddings", lists, lenses.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(lists + 1);
            let mut v: Vec<Poly> = (0..n).map(|_| cx.pick(&lenses).clone()).collect();
            let k = cx.choose(18) as i64;
            if k < 17 {
                let q = match cx.choose(3) {
                    0 => plain(&vec![(k, k), (k + 1, k), (k + 1, k + 1), (k, k + 1), (k, k)]),
                    1 => plain(&vec![(k, k - 1), (k + 1, k + 1), (k - 1, k), (k, k - 1)]),
                    _ => (rect(k - 2, k - 2, k + 3, k + 3), vec![rect(k - 1, k - 1, k + 1, k + 1)]),
                };
                v.insert(cx.choose(n + 1), q);
            }
            judge(cx, &[ID, MIRX], false, &v)
        }),
    });
    fams.push(Family {
        name: "cut",
        bound: format!("every ordered pair of the {} rings of 3 or 4 vertices of the 3x3 grid as polygons, and as the hole of a frame and an island (in either order), their sides cut into {:?} pieces: the verdict of the uncut pair", c.len(), CUTS),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            let nested = cx.flip();
            let (p, q) = if nested { ((frame.clone(), vec![a.clone()]), plain(b)) } else { (plain(a), plain(b)) };
            let want = multipolygon_valid(&[p, q]);
            cx.outcome(want as usize);
            for (i, (k, l)) in CUTS.into_iter().enumerate() {
                cx.note(|| format!("{:?} and {:?} cut into {} and {}, nested: {}", a, b, k, l, nested));
                let q = plain(&cut(b, 8, l));
                let p = if nested { (cut(&frame, 8, l), vec![cut(a, 8, k)]) } else { plain(&cut(a, 8, k)) };
                let v = if nested && i % 2 == 0 { [q, p] } else { [p, q] };
                verdict::<f64>(cx, if i == 0 { &ROT45 } else { &ID }, &v, want)?;
            }
            Ok(())
        }),
    });
    // two rings in combination with holes, other polygons and spellings
    let c = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    let inner: Arc<Vec<[Vec<Vec<P>>; 3]>> = Arc::new(c.iter().map(|r| [nooks(&scale(r, 8), 2), nooks(&scale(r, 16), 2), nooks(&scale(r, 32), 3)]).collect());
    let st = if th { 1 } else { 2 };
    fams.push(Family {
        name: "dressed",
        bound: format!("every ordered pair of the {} rings of 3 or 4 vertices of the 3x3 grid, the second all, half or a quarter of its size at every {} offset, as two polygons, or as hole of a frame and island, each with one combination of: 0-3 holes in either, 0-3 more holes of the frame before or after, 0-2 more polygons (empty, far away, with a hole) anywhere, order, sides of either cut into 1, 2, 4 or 8, start and direction of either, embedding", c.len(), if th { "" } else { "second" }),
        outcomes: out,
        f: Box::new(move |cx| {
            let (i, j) = (cx.choose(c.len()), cx.choose(c.len()));
            let n = 12 / st as usize;
            let (x, y) = (cx.choose(n), cx.choose(n));
            let mut t = Turn::new(&[i, j, x, y]);
            let s = t.take(3);
            let d = (8 * (st * x as i64 - 2), 8 * (st * y as i64 - 2));
            let nested = t.take(2) == 0;
            let mut fine = |p: &Poly| -> Poly {
                let k = *t.pick(&[1, 1, 2, 4, 8]);
                let e = respell(&cut(&p.0, 8, k), t.take(3), t.take(2) == 1);
                (e, p.1.iter().map(|h| respell(&cut(h, 8, *t.pick(&[1, 1, 2, 8])), t.take(3), t.take(2) == 1)).collect())
            };
            let mut u = Turn::new(&[j, i, y, x]);
            let a = scale(&c[i], 32);
            let p: Poly = if nested {
                let mut h: Vec<Vec<P>> = (0..u.take(4) as i64).map(|m| rect(-60 + 40 * m, -60, -40 + 40 * m, -44)).collect();
                let at = u.take(h.len() + 1);
                h.insert(at, a);
                (rect(-80, -80, 144, 144), h)
            } else {
                let v = &inner[i][2];
                (a, v[..u.take(v.len() + 1)].to_vec())
            };
            let v = &inner[j][s];
            let q: Poly = (shift(&scale(&c[j], [8, 16, 32][s]), d), v[..u.take(v.len() + 1)].iter().map(|h| shift(h, d)).collect());
            let mut all: Vec<Poly> = vec![fine(&p), fine(&q)];
            let mut ps = vec![p, q];
            if u.take(2) == 1 {
                all.reverse();
                ps.reverse();
            }
            for m in 0..u.take(3) as i64 {
                let o = (200 + 100 * m, 300);
                let r: Poly = match u.take(3) {
                    0 => (vec![], vec![]),
                    1 => plain(&shift(&rect(0, 0, 20, 20), o)),
                    _ => (shift(&rect(0, 0, 20, 20), o), vec![shift(&rect(5, 5, 15, 15), o)]),
                };
                let at = u.take(all.len() + 1);
                all.insert(at, fine(&r));
            }
            let want = multipolygon_valid(&ps);
            cx.outcome(want as usize);
            let e = *u.pick(&[&ID, &ROT45, &SWAP, &FAR]);
            cx.note(|| format!("multipolygon {:?} mapped by {}", all, e.name));
            verdict::<f64>(cx, e, &all, want)
        }),
    });
    // two polygons of interest among others far away
    let few: Arc<Vec<Poly>> = Arc::new(vec![
        plain(&rect(0, 0, 16, 16)),
        (rect(0, 0, 16, 16), vec![rect(4, 4, 12, 12)]),
        (rect(0, 0, 16, 16), vec![rect(2, 2, 6, 14), rect(8, 2, 14, 14)]),
        plain(&rect(6, 6, 10, 10)),
        plain(&rect(4, 4, 12, 12)),
        plain(&rect(3, 3, 5, 5)),
        plain(&rect(16, 0, 20, 4)),
        plain(&rect(16, 16, 18, 18)),
        plain(&rect(9, 3, 13, 13)),
        plain(&rect(-2, -2, 18, 18)),
        (rect(-2, -2, 18, 18), vec![diamond((8, 8), 8)]),
        plain(&diamond((8, 8), 4)),
        plain(&rect(20, 20, 22, 22)),
        plain(&rect(10, 14, 12, 20)),
    ]);
    let ns: Vec<usize> = if th { vec![2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 18, 32, 33, 34, 40, 65, 66, 130] } else { vec![3, 5, 9, 10, 17, 18, 33, 40] };
    fams.push(Family {
        name: "among",
        bound: format!("every ordered pair of {} polygons (overlapping, nested, in holes, touching, apart), cut into 1 or 2, among {:?} polygons (small, with many vertices, with holes) far away, at 20 pairs of places in the list", few.len(), ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let (a, b) = (cx.pick(&few), cx.pick(&few));
            let want = multipolygon_valid(&[a.clone(), b.clone()]);
            let (k, l) = *cx.pick(&[(1, 1), (2, 1), (1, 2)]);
            let n = *cx.pick(&ns);
            let (i, j) = *cx.pick(&places(n));
            let kind = cx.choose(3);
            let mut v: Vec<Poly> = (0..n as i64)
                .map(|m| {
                    let o = (200 + 40 * (m % 7), 60 * (m / 7) - 100);
                    match if kind < 2 { kind as i64 } else { m % 3 } {
                        0 => plain(&shift(&rect(0, 0, 8, 8), o)),
                        1 => plain(&shift(&zigzag_ring(12), o)),
                        _ => (shift(&rect(0, 0, 20, 20), o), vec![shift(&rect(2, 2, 6, 6), o), shift(&rect(10, 10, 14, 18), o)]),
                    }
                })
                .collect();
            let fine = |p: &Poly, k: i64| -> Poly { (cut(&p.0, 2, k), p.1.iter().map(|h| cut(h, 2, k)).collect()) };
            v[i] = fine(a, k);
            v[j] = fine(b, l);
            cx.note(|| format!("{:?} and {:?} cut into {} and {} as polygons {} and {} of {}, others of kind {}", a, b, k, l, i, j, n, kind));
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &v, want)
        }),
    });
    run_check(Check {
        id: "C04",
        assumptions: vec![
            "the reference model decides polygon validity and the relation of two rings exactly (128-bit integers and rationals, slab decomposition)",
            "polygons may touch at finitely many points; an island that shares a stretch of boundary with the hole around it is invalid",
        ],
        families: fams,
    })
}
