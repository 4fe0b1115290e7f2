//! C14: convex hull of a valid polygon.
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

/// `want`: the extreme vertices, counter-clockwise in the image plane, without repetition.
fn compare<C: Co>(got: &LineString<C>, want: &[(f64, f64)], what: &dyn Fn() -> String) -> R {
    let g: Vec<(f64, f64)> = got.positions.iter().map(|p| (p.x.f(), p.y.f())).collect();
    let n = want.len();
    let ok = g.len() == n + 1
        && g[0] == g[n]
        && match want.iter().position(|w| *w == g[0]) {
            None => false,
            Some(k) => (0..n).all(|i| g[i] == want[(k + i) % n]),
        };
    ensure!(ok, "{} hull of {} is {:?}, the extreme vertices counter-clockwise are {:?}", C::NAME, what(), g, want);
    Ok(())
}
fn want_of(e: &Emb, h: &[P]) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = h.iter().map(|p| e.xy(*p)).collect();
    if e.det() < 0. {
        v.reverse();
    }
    v
}
fn one<C: Co>(cx: &mut Cx, e: &Emb, ring: &[P], holes: &[&[P]], want: &[(f64, f64)]) -> R {
    cx.op(1);
    let got = e.poly::<C>(ring, holes).convex_hull();
    compare(&got, want, &|| format!("{:?} mapped by {}", ring, e.name))
}
/// Every start, both directions.
fn judge(cx: &mut Cx, embs: &[Emb], single: bool, ring: &[P], starts: &[usize]) -> R {
    cx.note(|| format!("polygon {:?}, starts {:?}, both directions", ring, starts));
    let h = hull(ring);
    cx.outcome((h.len() + 1 != ring.len()) as usize);
    for e in embs {
        let want = want_of(e, &h);
        for &k in starts {
            for rev in [false, true] {
                let r = respell(ring, k % (ring.len() - 1), rev);
                one::<f64>(cx, e, &r, &[], &want)?;
                if single && !e.wide {
                    one::<f32>(cx, e, &r, &[], &want)?;
                }
            }
        }
    }
    Ok(())
}
fn all(ring: &[P]) -> Vec<usize> {
    (0..ring.len() - 1).collect()
}
fn some(ring: &[P], k: usize) -> Vec<usize> {
    let n = ring.len() - 1;
    let mut v: Vec<usize> = (0..n.min(k)).chain((0..k).map(|i| i * n / k)).chain(n.saturating_sub(k)..n).collect();
    v.sort();
    v.dedup();
    v
}
/// Every primitive vector with |dx|,|dy| <= k in angular order: a convex lattice polygon.
fn convex(k: i64) -> Vec<P> {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 { a.abs() } else { gcd(b, a % b) }
    }
    let mut v: Vec<P> = vec![];
    for x in -k..=k {
        for y in -k..=k {
            if gcd(x, y) == 1 {
                v.push((x, y));
            }
        }
    }
    v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap());
    let mut p = vec![(0, 0)];
    for d in v {
        let l = p[p.len() - 1];
        p.push((l.0 + d.0, l.1 + d.1));
    }
    p
}
fn general(r: &[P]) -> bool {
    let n = r.len() - 1;
    (0..n).all(|i| (i + 1..n).all(|j| (j + 1..n).all(|k| cross(r[i], r[j], r[k]) != 0)))
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["convex", "not convex"];
    let cat = |pts: &[P], ns: &[usize]| -> Vec<Vec<P>> { ns.iter().flat_map(|n| rings(pts, *n, false, true)).collect() };
    let g3 = Arc::new(cat(&grid(3, 3), &[3, 4, 5, 6, 7, 8, 9]));
    let c = g3.clone();
    fams.push(Family {
        name: "grid3",
        bound: format!("all {} simple polygons on the 3x3 grid (straight-angle vertices included), every start, both directions, {} embeddings, f64 and f32", c.len(), EMBS.len() + EXTREME.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let r = cx.pick(&c);
            judge(cx, &EMBS, true, r, &all(r))?;
            judge(cx, &EXTREME, true, r, &all(r))
        }),
    });
    let ns: &[usize] = if th { &[3, 4, 5, 6, 7, 8] } else { &[3, 4, 5, 6, 7] };
    let g43 = Arc::new(cat(&grid(4, 3), &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12]));
    let c = g43.clone();
    fams.push(Family {
        name: "grid43",
        bound: format!("all {} simple polygons of the 4x3 grid with {} vertices, every start, both directions, 4 embeddings", c.len(), "3-12"),
        outcomes: out,
        f: Box::new(move |cx| {
            let r = cx.pick(&c);
            judge(cx, &EMBS3, false, r, &all(r))
        }),
    });
    let g44 = Arc::new(cat(&grid(4, 4), ns));
    let c = g44.clone();
    fams.push(Family {
        name: "grid44",
        bound: format!("all {} simple polygons of the 4x4 grid with {:?} vertices, every start, both directions, 2 embeddings", c.len(), ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let r = cx.pick(&c);
            judge(cx, &[SHIFT, MIRX], false, r, &all(r))
        }),
    });
    let np = if th { 9 } else { 8 };
    let polys: Arc<Vec<Vec<P>>> = Arc::new((1..=np).flat_map(polyominoes).collect());
    let c = polys.clone();
    fams.push(Family {
        name: "polyomino",
        bound: format!("{} polyomino outlines of up to {} cells, with and without side midpoints, every start, both directions, 6 embeddings", c.len(), np),
        outcomes: out,
        f: Box::new(move |cx| {
            let r = scale(cx.pick(&c), 2);
            let r = if cx.flip() { subdivide(&r) } else { r };
            judge(cx, &[ID, SMALL, ROT45, MIXED, SWAP, VFAR], true, &r, &all(&r))
        }),
    });
    // convex base, every side decorated in one of 5 ways
    let sides = if th { 8 } else { 7 };
    fams.push(Family {
        name: "dents",
        bound: format!("convex polygons of 3-{} sides, every combination of side decorations (plain, midpoint, two straight vertices, dent, pocket that doubles back), 3 starts, both directions", sides),
        outcomes: out,
        f: Box::new(move |cx| {
            const K: i64 = 60;
            let b8: Vec<P> = vec![(2, 0), (4, 0), (6, 2), (6, 4), (4, 6), (2, 6), (0, 4), (0, 2)];
            let n = 3 + cx.choose(sides - 2);
            let base: Vec<P> = match n {
                3 => vec![(0, 0), (6, 1), (2, 6)],
                4 => vec![(0, 0), (6, 0), (6, 6), (0, 6)],
                5 => vec![(0, 0), (6, 0), (6, 3), (3, 6), (0, 6)],
                6 => vec![(1, 0), (4, 0), (6, 2), (6, 5), (3, 6), (0, 3)],
                7 => vec![(2, 0), (4, 0), (6, 2), (6, 4), (4, 6), (0, 4), (0, 2)],
                _ => b8,
            };
            let base = scale(&base, K);
            let c = (3 * K, 3 * K);
            let mut r: Vec<P> = vec![];
            for i in 0..n {
                let (a, b) = (base[i], base[(i + 1) % n]);
                let at = |t: i64, d: i64| {
                    // point at t/12 of the side, moved d/12 of the way to the centre
                    let p = ((a.0 * (12 - t) + b.0 * t) / 12, (a.1 * (12 - t) + b.1 * t) / 12);
                    (p.0 + (c.0 - p.0) * d / 12, p.1 + (c.1 - p.1) * d / 12)
                };
                r.push(a);
                match cx.choose(5) {
                    0 => {}
                    1 => r.push(at(6, 0)),
                    2 => r.extend([at(4, 0), at(8, 0)]),
                    3 => r.push(at(6, 3)),
                    _ => r.extend([at(6, 0), at(4, 2), at(4, 4), at(8, 4), at(8, 0)]),
                }
            }
            r.push(r[0]);
            if !ring_valid(&r) {
                return Err(Fail::new(format!("MC-HARNESS ring {:?} not simple", r)));
            }
            let m = r.len() - 1;
            judge(cx, &[SHIFT, MIRY], false, &r, &[0, 1, m / 2, m - 1])
        }),
    });
    let sz: Vec<usize> = if th { (2..=60).chain([64, 65, 100, 128, 129, 200, 256, 257, 500]).collect() } else { (2..=20).chain([31, 32, 33, 64, 65, 129, 257]).collect() };
    fams.push(Family {
        name: "long",
        bound: format!("combs, spiral corridors, zigzag bands, parabola arcs of {:?} units, with and without side midpoints, mirrored, transposed, turned; first, last and evenly spread starts, both directions", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let r = match cx.choose(4) {
                0 => comb(n),
                1 => spiral_ring(n.min(80), 4),
                2 => zigzag_ring(n + 2),
                _ => parabola((n + 2).min(130)),
            };
            let r = if cx.flip() { subdivide(&scale(&r, 2)) } else { r };
            let st = some(&r, if r.len() < 100 { 8 } else { 4 });
            let b = bounds(&r);
            judge(cx, &[ID, MIRX, SWAP, ROT45, FAR], (b.2 - b.0) * (b.3 - b.1) < 1 << 20, &r, &st)
        }),
    });
    let kk = if th { 9 } else { 6 };
    fams.push(Family {
        name: "convex",
        bound: format!("convex lattice polygons from all primitive vectors up to size 1..{}, with none, one or every side midpoint, or one side dented; every start, both directions", kk),
        outcomes: out,
        f: Box::new(move |cx| {
            let k = 1 + cx.choose(kk) as i64;
            let mut r = scale(&convex(k), 2);
            let n = r.len() - 1;
            match cx.choose(4) {
                0 => {}
                1 => r = subdivide(&r),
                2 => {
                    let i = cx.choose(n);
                    let m = ((r[i].0 + r[i + 1].0) / 2, (r[i].1 + r[i + 1].1) / 2);
                    r.insert(i + 1, m);
                }
                _ => {
                    let i = cx.choose(n);
                    let (a, b) = (r[i], r[i + 1]);
                    let mut r2 = scale(&r, 2);
                    // inwards is to the left of a -> b
                    let d = (b.0 - a.0, b.1 - a.1);
                    r2.insert(i + 1, (a.0 + b.0 - d.1.signum(), a.1 + b.1 + d.0.signum()));
                    if !ring_valid(&r2) {
                        return Ok(());
                    }
                    r = r2;
                }
            }
            let st = if r.len() < 60 { all(&r) } else { some(&r, 12) };
            judge(cx, &[ID, SMALL, SWAP, FAR20], true, &r, &st)
        }),
    });
    // a vertex beyond which many of the hull's vertices fall inside it at once, on one or both sides
    let arcs: Vec<usize> = if th { (2..=60).collect() } else { (2..=9).chain([12, 13, 14, 16, 17, 18, 20, 31, 32, 33, 34, 40]).collect() };
    fams.push(Family {
        name: "swallow",
        bound: format!("parabola arcs of {:?} vertices in five positions, with each of 9 vertices outside that swallows some or all of them, and possibly one of 6 further ones after it; every start (16 of them for more than 16 vertices), both directions, 4 embeddings", arcs),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&arcs) as i64;
            let from = [0, -n / 4, -n / 2, -3 * n / 4, 1 - n][cx.choose(5)];
            let mut r: Vec<P> = (from..from + n).map(|i| (i, i * i)).collect();
            let m = n * n + 7;
            r.push([(0, -m), (m, -m), (-m, -m), (n, -1), (-n, -1), (m, -1), (-m, -1), (4 * n, -m * 9), (3, -2)][cx.choose(9)]);
            let more = cx.choose(7);
            if more > 0 {
                let far = 3 * m;
                r.push([(0, 0), (far, far), (-far, far), (far, -far * 9), (-far, -far * 9), (far, 2), (-far, 2)][more]);
            }
            r.push(r[0]);
            if !ring_valid(&r) {
                return Ok(());
            }
            let st = if r.len() < 18 { all(&r) } else { some(&r, 5) };
            judge(cx, &[ID, MIRX, SWAP, FAR], false, &r, &st)
        }),
    });
    fams.push(Family {
        name: "slivers",
        bound: format!("triangles and quadrilaterals of (0,0), (n, s n + i), (n + q, s n + l), (p, j), n of {} powers of two up to 2^50, s of 0, 1, -1, 2, the rest small, wherever all products are exact; every start, both directions", if th { 47 } else { 15 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (4..=50).collect() } else { vec![5, 8, 10, 12, 16, 20, 21, 24, 25, 26, 30, 36, 40, 45, 50] };
            let n = 1i64 << *cx.pick(&sizes);
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            let mut r = match cx.choose(4) {
                0 => vec![a, b, e, c],
                1 => vec![a, b, c, e],
                2 => vec![a, b, e],
                _ => vec![a, c, e],
            };
            r.push(r[0]);
            if !ring_valid(&r) {
                return Ok(());
            }
            judge(cx, &[ID, SWAP], sliver(n, s, d, 24).is_some(), &r, &all(&r))
        }),
    });
    // very many vertices, coarse and fine
    let sz: Vec<usize> = if th { vec![500, 999, 1000, 1001, 1024, 1025, 2000, 2049, 4096, 4097, 5000, 8193, 16385, 32769, 40000] } else { vec![500, 1000, 1025, 2049, 5000, 16385] };
    fams.push(Family {
        name: "huge",
        bound: format!("combs, zigzag bands, parabola arcs (up to 4100 vertices), stairs closed by a corner, and a small convex ring with its sides divided, of {:?} units; 3 starts, both directions, scales 2^-40 to 2^40", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let r = match cx.choose(5) {
                0 => comb(n / 4),
                1 => zigzag_ring(n / 2),
                2 => parabola(n.min(4100)),
                3 => {
                    let mut v = stair(n);
                    v.push((2 * n as i64, -5));
                    v.reverse();
                    v.push(v[0]);
                    v
                }
                _ => {
                    // every side of a convex ring in k parts
                    let c = convex(3);
                    let k = (n / (c.len() - 1)) as i64 + 1;
                    let mut v = vec![];
                    for s in c.windows(2) {
                        for i in 0..k {
                            v.push((s[0].0 * k + (s[1].0 - s[0].0) * i, s[0].1 * k + (s[1].1 - s[0].1) * i));
                        }
                    }
                    v.push(v[0]);
                    v
                }
            };
            let m = r.len() - 1;
            judge(cx, &[ID, SMALL, LARGE], false, &r, &[0, 1, m / 3])
        }),
    });
    let (a, b) = (g3.clone(), polys.clone());
    fams.push(Family {
        name: "withholes",
        bound: "all simple polygons of the 3x3 grid and polyominoes of up to 3 cells, scaled, with a small hole near their first vertex (holes do not matter), every start, both directions".into(),
        outcomes: &["has a hole"],
        f: Box::new(move |cx| {
            let r = if cx.flip() { scale(cx.pick(&a), 12) } else { scale(&b[cx.choose(9)], 12) };
            let bb = bounds(&r);
            let mut hole = None;
            for x in bb.0..bb.2 {
                for y in bb.1..bb.3 {
                    let h = rect(x, y, x + 1, y + 1);
                    if hole.is_none() && h.iter().all(|p| locate(*p, &r) > 0) {
                        hole = Some(h);
                    }
                }
            }
            let h = match hole {
                None => return Ok(()),
                Some(h) => h,
            };
            cx.outcome(0);
            cx.note(|| format!("polygon {:?} with hole {:?}", r, h));
            let want = want_of(&ID, &hull(&r));
            for k in 0..r.len() - 1 {
                for rev in [false, true] {
                    one::<f64>(cx, &ID, &respell(&r, k, rev), &[&h], &want)?;
                }
            }
            Ok(())
        }),
    });
    let c = g44.clone();
    fams.push(Family {
        name: "decimal",
        bound: "the polygons of the 4x4 grid without three vertices on a line, at scales 0.1, 1/3, 0.001, -0.7, every start, both directions, f64 and f32".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let r = cx.pick(&c);
            if !general(r) {
                return Ok(());
            }
            cx.note(|| format!("polygon {:?}", r));
            let h = hull(r);
            cx.outcome((h.len() + 1 != r.len()) as usize);
            let maps: [(f64, f64, &str); 4] = [(0.1, 0.0, "0.1x"), (1. / 3., 0.7, "x/3+0.7"), (0.001, 0.3, "x/1000+0.3"), (-0.7, 1.3, "-0.7x+1.3")];
            for (k, o, name) in maps.iter() {
                let m = |p: &P| (p.0 as f64 * k + o, p.1 as f64 * k - o);
                let m32 = |p: &P| (m(p).0 as f32, m(p).1 as f32);
                let want: Vec<(f64, f64)> = h.iter().map(m).collect();
                let want32: Vec<(f64, f64)> = h.iter().map(|p| (m32(p).0 as f64, m32(p).1 as f64)).collect();
                for i in 0..r.len() - 1 {
                    for rev in [false, true] {
                        cx.op(2);
                        let s = respell(r, i, rev);
                        let p = Polygon::from(s.iter().map(m).collect::<Vec<_>>());
                        compare(&p.convex_hull(), &want, &|| format!("{:?} mapped by {}", s, name))?;
                        let p = Polygon::from(s.iter().map(|q| Position::from(m32(q))).collect::<Vec<_>>());
                        compare(&p.convex_hull(), &want32, &|| format!("{:?} mapped by {}", s, name))?;
                    }
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C14",
        assumptions: vec!["the polygon is valid and not empty (the code documents that anything else may panic or give a wrong hull)"],
        families: fams,
    })
}
