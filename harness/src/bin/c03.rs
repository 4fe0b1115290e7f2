//! C03: multilinestring validity <=> parts simple and meeting only at end points of both.
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, MultiLineString};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use std::sync::Arc;

fn verdict<C: Co>(cx: &mut Cx, e: &Emb, ls: &[&[P]], want: bool) -> R {
    cx.op(1);
    let m: MultiLineString<C> = e.mls(ls);
    let got = m.validate();
    ensure!(
        got.is_ok() == want,
        "{} multilinestring {:?} mapped by {} should be {} but validate() = {:?}",
        C::NAME, ls, e.name, if want { "valid" } else { "invalid" }, got
    );
    if e.name == ID.name || e.name == SHIFT.name {
        ensure!(m.is_simple() == want, "{} multilinestring {:?}: is_simple() disagrees with validity", C::NAME, ls);
    }
    Ok(())
}
fn judge(cx: &mut Cx, embs: &[Emb], single: bool, ls: &[&[P]]) -> R {
    cx.note(|| format!("multilinestring {:?}", ls));
    let want = multilinestring_valid(ls);
    cx.outcome(want as usize);
    for e in embs {
        verdict::<f64>(cx, e, ls, want)?;
        if single && !e.wide {
            verdict::<f32>(cx, e, ls, want)?;
        }
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["invalid", "valid"];
    let g3 = grid(3, 3);
    let mut l23 = lines(&g3, 2);
    l23.extend(lines(&g3, 3));
    let closed: Vec<Vec<P>> = lines(&g3, 4).into_iter().filter(|l| closed_ring(l)).collect();
    let mut all = l23.clone();
    all.extend(closed.iter().cloned());
    let all = Arc::new(all);

    let c = all.clone();
    fams.push(Family {
        name: "pairs3",
        bound: format!("every ordered pair of the {} simple linestrings of the 3x3 grid with 2 or 3 points or triangular; 17 embeddings (one mixing 0.0 and -0.0) f64, 4 f32", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            judge(cx, &EMBS, true, &[a, b])?;
            if a.len() + b.len() < 6 {
                judge(cx, &EXTREME, true, &[a, b])?;
            }
            Ok(())
        }),
    });
    let a4 = Arc::new({
        let mut v = lines(&g3, 4);
        v.extend(lines(&g3, 5).into_iter().filter(|l| th || closed_ring(l)));
        v
    });
    let c = all.clone();
    let a = a4.clone();
    fams.push(Family {
        name: "pairs4",
        bound: format!("every pair of one of {} linestrings with 4 points (or quadrilateral) and one of {} shorter ones, both orders", a.len(), c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let p = cx.pick(&a);
            let q = cx.pick(&c);
            cx.note(|| format!("multilinestring {:?} {:?} and exchanged", p, q));
            let want = multilinestring_valid(&[p, q]);
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &[p, q], want)?;
            verdict::<f64>(cx, &ROT45, &[q, p], want)
        }),
    });
    let l4 = Arc::new(lines(&grid(4, 4), 2));
    let c = Arc::new({
        let mut v = lines(&grid(4, 4), 2);
        v.extend(lines(&grid(4, 4), 3));
        v
    });
    let a = l4.clone();
    fams.push(Family {
        name: "pairs44",
        bound: format!("every pair of one of {} segments and one of {} linestrings of 2 or 3 points of the 4x4 grid", a.len(), c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let p = cx.pick(&a);
            let q = cx.pick(&c);
            judge(cx, &EMBS3, true, &[p, q])
        }),
    });
    let q: Arc<Vec<Vec<P>>> = Arc::new([3, 4].iter().flat_map(|n| rings(&grid(4, 4), *n, false, true)).collect());
    fams.push(Family {
        name: "rings44",
        bound: format!("every unordered pair of the {} rings of 3 or 4 vertices of the 4x4 grid (in one of the orders)", q.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let i = cx.choose(q.len());
            let j = i + cx.choose(q.len() - i);
            let (i, j) = if (i + j) % 2 == 0 { (i, j) } else { (j, i) };
            judge(cx, &[SHIFT], false, &[&q[i], &q[j]])
        }),
    });
    // triples (the middle part may be a ring)
    let s3 = Arc::new(lines(&g3, 2));
    let mid = Arc::new({
        let mut v = lines(&g3, 2);
        v.extend(closed.iter().cloned());
        if th {
            v.extend(lines(&g3, 3));
        }
        v
    });
    let c = s3.clone();
    fams.push(Family {
        name: "triples",
        bound: format!("every triple (segment, one of {}, segment) on the 3x3 grid", mid.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let p = cx.pick(&c);
            let q = cx.pick(&mid);
            let r = cx.pick(&c);
            judge(cx, &[MIRX], false, &[p, q, r])
        }),
    });
    // parts on one axis-parallel line (boxes without width or height), and diagonal
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "collinear",
        bound: format!("every sequence of 1..={} segments (either direction) between points 0..=4 of a horizontal, vertical or diagonal line", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 1 + cx.choose(k);
            let ls: Vec<Vec<P>> = (0..n)
                .map(|_| {
                    let a = cx.choose(5) as i64;
                    let b = (a + 1 + cx.choose(4) as i64) % 5;
                    vec![(a, 0), (b, 0)]
                })
                .collect();
            let r: Vec<&[P]> = ls.iter().map(|x| &x[..]).collect();
            judge(cx, &[ID, SWAP, ROT45, SMALL, FAR, NEGZ], true, &r)
        }),
    });
    // invalid or empty parts at any index
    let n = 3;
    fams.push(Family {
        name: "badparts",
        bound: "0..=3 parts in separate places, each of 9 kinds (segment, empty, one point, repeated point, back-and-forth, ring, bow-tie, open path ending on its first segment, NaN/inf point)".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let m = cx.choose(n + 1);
            let mut bad = false;
            let mut parts: Vec<Vec<(f64, f64)>> = vec![];
            let mut model: Vec<Vec<P>> = vec![];
            for i in 0..m {
                let v: Vec<P> = match cx.choose(9) {
                    0 => vec![(0, 0), (2, 1)],
                    1 => vec![],
                    2 => vec![(0, 0)],
                    3 => vec![(0, 0), (0, 0)],
                    4 => vec![(0, 0), (2, 1), (0, 0)],
                    5 => rect(0, 0, 2, 2),
                    6 => vec![(0, 0), (2, 2), (2, 0), (0, 2), (0, 0)],
                    7 => vec![(1, 0), (0, 1), (0, 0), (2, 0)],
                    _ => {
                        bad = true;
                        vec![(0, 0), (2, 1), (2, 2)]
                    }
                };
                let v = shift(&v, (4 * i as i64, 1));
                let mut f: Vec<(f64, f64)> = v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect();
                if f.len() == 3 && v[2] != v[0] {
                    let w = *cx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                    let at = cx.choose(3);
                    if cx.flip() { f[at].0 = w } else { f[at].1 = w }
                }
                parts.push(f);
                model.push(v);
            }
            let r: Vec<&[P]> = model.iter().map(|x| &x[..]).collect();
            let want = !bad && multilinestring_valid(&r);
            cx.note(|| format!("multilinestring {:?}", parts));
            cx.outcome(want as usize);
            cx.op(2);
            let p32: Vec<LineString<f32>> = parts.iter().map(|l| LineString::from(l.iter().map(|p| (p.0 as f32, p.1 as f32)).collect::<Vec<_>>())).collect();
            let got = MultiLineString::new(parts.into_iter().map(LineString::from).collect()).validate();
            ensure!(got.is_ok() == want, "should be {} but validate() = {:?}", want, got);
            let got = MultiLineString::new(p32).validate();
            ensure!(got.is_ok() == want, "f32: should be {} but validate() = {:?}", want, got);
            Ok(())
        }),
    });
    // many parts: more than one index node; a chain of parts joined end to end, one disturbed
    let counts: Vec<usize> = if th { (2..=20).chain([63, 64, 65, 66, 80, 130, 257, 513, 1025, 4097]).collect() } else { (2..=12).chain([16, 17, 33, 65, 129, 257, 513, 1025]).collect() };
    fams.push(Family {
        name: "manyparts",
        bound: format!("{:?} parts: a chain joined end to end, a star with a common end, a lattice of separate angles, or parallel lines; part k replaced relative to part j by: itself, a segment ending on j's interior, on j's end, crossing j, an overlapping stretch, a ring through j's end, a short stub apart", counts),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&counts);
            let shape = cx.choose(4);
            let w = (n as f64).sqrt().ceil() as i64;
            let mut ls: Vec<Vec<P>> = (0..n as i64)
                .map(|i| match shape {
                    0 => vec![(8 * i, 8 * (i % 2)), (8 * i + 4, 8), (8 * i + 8, 8 * ((i + 1) % 2))],
                    1 => {
                        // star: distinct directions
                        let d = (2 * i - n as i64, if i % 2 == 0 { n as i64 + i } else { -(n as i64) - i });
                        if i % 3 == 0 { vec![(0, 0), (4 * d.0, 4 * d.1)] } else { vec![(4 * d.0, 4 * d.1), (0, 0)] }
                    }
                    2 => shift(&[(0, 0), (4, 4), (8, 0)], (12 * (i % w), 12 * (i / w))),
                    _ => vec![(0, 4 * i), (8, 4 * i)],
                })
                .collect();
            let k = if n <= 12 || th && n <= 20 { cx.choose(n) } else { [0, 1, 7, 8, n / 2, n - 2, n - 1][cx.choose(7)] };
            let j = [(k + 1) % n, n - 1, 0, (k + n / 2) % n][cx.choose(4)];
            let o = ls[j].clone();
            let (a, b) = (o[0], o[1]);
            let mid = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            let v = cx.choose(8);
            match v {
                0 => {}
                1 => ls[k] = vec![(mid.0 - 1, mid.1 + 2), mid],
                2 => ls[k] = vec![a, (a.0 - 1, a.1 - 2)],
                3 => ls[k] = vec![(mid.0 - 1, mid.1 + 1), (mid.0 + 1, mid.1 - 1)],
                4 => ls[k] = vec![mid, b],
                5 => ls[k] = vec![a, (a.0 - 2, a.1 - 1), (a.0 - 2, a.1 - 2), a],
                6 => ls[k] = vec![(mid.0, mid.1 + 1), (mid.0, mid.1 + 2)],
                _ => ls[k] = vec![(mid.0 - 1, mid.1 + 2), (mid.0 + 1, mid.1 + 2), mid, (mid.0 - 1, mid.1 + 2)],
            }
            let r: Vec<&[P]> = ls.iter().map(|x| &x[..]).collect();
            judge(cx, if n < 100 { &[MIXZ, SWAP, FAR] } else { &[MIXZ] }, n < 20, &r)
        }),
    });
    // long parts against a short one at every place, both orders
    let sz: Vec<usize> = if th { (2..=40).chain([64, 65, 66, 67, 130, 600]).collect() } else { vec![2, 3, 8, 9, 10, 17, 33, 65, 66] };
    fams.push(Family {
        name: "longparts",
        bound: format!("spiral, zigzag, stair, comb of {:?} vertices; second part a 2-segment path based at every vertex / segment midpoint / next to it, in 4 directions; both orders; or the same curve shifted", sz),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sz);
            let s = match cx.choose(4) {
                0 => scale(&spiral(n), 2),
                1 => scale(&zigzag(n), 4),
                2 => scale(&stair(n), 2),
                _ => scale(&comb(n / 4 + 1), 2),
            };
            let m = s.len();
            let i = if m <= 70 { cx.choose(m) } else { (cx.choose(40) * (m - 1)) / 39 };
            let kind = cx.choose(4);
            let q = s[i];
            let nx = s[(i + 1) % m];
            let t = match kind {
                0 => q,
                1 => ((q.0 + nx.0) / 2, (q.1 + nx.1) / 2),
                2 => (q.0 + 1, q.1 + 1),
                _ => {
                    let sh = shift(&s, *cx.pick(&[(1, 1), (0, 2), (2, 0), (400, 0), (0, 0)]));
                    return judge(cx, &[ID], true, &[&s, &sh]);
                }
            };
            let d = *cx.pick(&[(1, 0), (0, 1), (-1, 1), (-1, -2)]);
            let mut p = vec![t, (t.0 + d.0, t.1 + d.1), (t.0 + d.0, t.1 + d.1 + 1)];
            if cx.flip() {
                p.reverse();
            }
            if cx.flip() {
                judge(cx, &[ID], true, &[&s, &p])
            } else {
                judge(cx, &[ID], true, &[&p, &s])
            }
        }),
    });
    let lim = if th { 40 } else { 20 };
    fams.push(Family {
        name: "touch",
        bound: format!("segment (0,0)-(7w,7h), w,h <= {}; second part ending on, before or past each of its lattice points; both orders, both directions", lim),
        outcomes: out,
        f: Box::new(move |cx| {
            let w = cx.choose(lim) as i64 + 1;
            let h = cx.choose(lim) as i64;
            let b: P = (w * 7, h * 7);
            let gc = { let (mut x, mut y) = (b.0, b.1); while y != 0 { let t = x % y; x = y; y = t; } x };
            let t = cx.choose(gc as usize + 1) as i64;
            let q = (b.0 / gc * t, b.1 / gc * t);
            let end = cx.choose(3) as i64 - 1;
            let d = *cx.pick(&[(-1i64, 1i64), (-3, 5), (0, 1), (2, -1)]);
            let mut p = vec![(q.0 + d.0 * 40, q.1 + d.1 * 40), (q.0 - d.0 * end, q.1 - d.1 * end)];
            if cx.flip() {
                p.reverse();
            }
            let s = vec![(0, 0), b];
            if cx.flip() {
                judge(cx, &[ID], false, &[&s, &p])
            } else {
                judge(cx, &[ID], false, &[&p, &s])
            }
        }),
    });
    let (a, c) = (l4.clone(), all.clone());
    // rings with many vertices that cross where neither has a vertex
    let ks: Vec<usize> = if th { (0..=20).chain([31, 32, 33, 64, 65, 100, 130]).collect() } else { vec![0, 1, 2, 4, 7, 8, 17, 33] };
    fams.push(Family {
        name: "longbars",
        bound: format!("two rings (or their open halves) with {:?} vertices in each end and none along the sides, one along x and one along x or y, at 99 offsets (crossing, touching, beside)", ks),
        outcomes: out,
        f: Box::new(move |cx| {
            let (k1, k2) = (*cx.pick(&ks), *cx.pick(&ks));
            let l = 2 * (k1.max(k2) as i64 + 1) + 10;
            let a = long_bar(l, k1);
            let across = cx.flip();
            let b = long_bar(l, k2);
            let b = if across { swapped(&b) } else { b };
            let dx = [0, 1, -5, l, l + 2, -l - 4, 2 * l, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(11)];
            let w = (k1 + k2) as i64 + 2;
            let dy = if across { [0, 1, -5, l, -l - 4, 2 * l + 3, 2 * l + 4, 2 * l + 6, 3 * l][cx.choose(9)] } else { [0, 1, -3, w - 1, w, -w, w + 1, 2 * w, -2 * w][cx.choose(9)] };
            let b = shift(&b, (dx, dy));
            judge(cx, &[ID, ROT45], k1 == 0, &[&a, &b])?;
            judge(cx, &[SWAP], false, &[&b, &a[..k1 + 4]])
        }),
    });
    // parts joined end to end, and one more that far away in the list
    fams.push(Family {
        name: "apart",
        bound: "a chain of angles joined end to end, and one segment across (or ending on, or beside) part i at index j, j - i each of 37 values up to 65538 around powers of two, i = 0, 1, 5, 40; list as is or reversed, chain along x or y".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let gap = *cx.pick(&gaps(true));
            let i = *cx.pick(&[0usize, 1, 5, 40]);
            if gap > 600 && i > 1 {
                return Ok(());
            }
            let (j, n) = (i + gap, i + gap + 4);
            let mut ls: Vec<Vec<P>> = (0..n as i64).map(|k| vec![(4 * k, 0), (4 * k + 2, 2), (4 * k + 4, 0)]).collect();
            let c = 4 * i as i64;
            let kind = cx.choose(3);
            ls[j] = match kind {
                0 => vec![(c + 1, -5), (c + 1, 5)],
                1 => vec![(c + 1, 5), (c + 1, 1)],
                _ => vec![(c + 1, 5), (c + 1, 2)],
            };
            if cx.flip() {
                ls.reverse();
            }
            let want = kind == 2;
            cx.note(|| format!("chain of {} parts, part {} {} part {}", n, j, ["across", "ending on", "apart from"][kind], i));
            let v: Vec<&[P]> = ls.iter().map(|x| &x[..]).collect();
            if n < 100 {
                assert!(multilinestring_valid(&v) == want, "MC-HARNESS wrong expectation");
            }
            cx.outcome(want as usize);
            cx.op(1);
            let m: MultiLineString<f64> = if cx.flip() { SWAP.mls(&v) } else { ID.mls(&v) };
            let got = m.validate();
            ensure!(got.is_ok() == want, "should be {} but validate() = {:?}", if want { "valid" } else { "invalid" }, got);
            Ok(())
        }),
    });
    fams.push(Family {
        name: "decimal",
        bound: format!("pairs (segment of the 4x4 grid, one of {} linestrings), robust ones only, at scales 0.1, 1/3, 0.001, -0.7", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let p = cx.pick(&a);
            let q = cx.pick(&c);
            cx.note(|| format!("multilinestring {:?} {:?} at decimal scales", p, q));
            if !robust_lines(p, q) || !robust_line(q) {
                return Ok(());
            }
            let want = multilinestring_valid(&[p, q]);
            cx.outcome(want as usize);
            let maps: [(f64, f64, &str); 4] = [(0.1, 0.0, "0.1x"), (1. / 3., 0.7, "x/3+0.7"), (0.001, 100.1, "x/1000+100.1"), (-0.7, 1.3, "-0.7x+1.3")];
            for (k, o, name) in maps.iter() {
                cx.op(1);
                let m = |r: &[P]| LineString::<f64>::new(r.iter().map(|p| Position::new(p.0 as f64 * k + o, p.1 as f64 * k - o)).collect());
                let got = MultiLineString::new(vec![m(p), m(q)]).validate();
                ensure!(got.is_ok() == want, "mapped by {}: should be {} but validate() = {:?}", name, if want { "valid" } else { "invalid" }, got);
                if *o < 100. {
                    let m = |r: &[P]| LineString::<f32>::new(r.iter().map(|p| Position::new(p.0 as f32 * *k as f32 + *o as f32, p.1 as f32 * *k as f32 - *o as f32)).collect());
                    let got = MultiLineString::new(vec![m(q), m(p)]).validate();
                    ensure!(got.is_ok() == want, "f32, mapped by {}: should be {} but validate() = {:?}", name, if want { "valid" } else { "invalid" }, got);
                }
            }
            Ok(())
        }),
    });
    let c = all.clone();
    fams.push(Family {
        name: "slivers",
        bound: format!("the segments (0,0)-(n, s n + i) and (p, j)-(n + q, s n + l), or the two lines that have one of them in the middle, n of {} powers of two up to 2^50, s of 0, 1, -1, 2, the rest small, wherever all products are exact; both orders", if th { 47 } else { 15 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (4..=50).collect() } else { vec![5, 8, 10, 12, 16, 20, 21, 24, 25, 26, 30, 36, 40, 45, 50] };
            let n = 1i64 << *cx.pick(&sizes);
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            let (v, w) = match cx.choose(4) {
                0 => (vec![a, b], vec![c, e]),
                1 => (vec![a, b], vec![e, c]),
                2 => (vec![c, a, b], vec![c, e]),
                _ => (vec![a, b], vec![a, c, e]),
            };
            let two: [&[P]; 2] = if cx.flip() { [&v, &w] } else { [&w, &v] };
            judge(cx, &[ID, SWAP], sliver(n, s, d, 24).is_some(), &two)
        }),
    });
    // lines between the same two points, with as many positions and the same box
    let arcs = if th { 4 } else { 3 };
    fams.push(Family {
        name: "arcs",
        bound: format!("every list of up to {} of 10 bent lines between the same two points (in either direction), and up to one of 19 short bars on their diagonal, a bar on their common end, or a line through many of them, at each place in the list; 2 embeddings", arcs),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(arcs + 1);
            let mut v: Vec<Vec<P>> = (0..n)
                .map(|_| {
                    let k = cx.choose(10);
                    let mut l = arc(32, 4 * k as i64 - 1);
                    if n < 4 && cx.flip() {
                        l.reverse();
                    }
                    l
                })
                .collect();
            let k = cx.choose(24) as i64;
            let bar = match k {
                0..=18 => Some(vec![(2 * k - 2, 2 * k - 2), (2 * k, 2 * k)]),
                19 => Some(vec![(40, 0), (32, 0)]),
                20 => Some(vec![(-5, -5), (13, 13)]),
                21 => Some(vec![(40, 1), (33, 1), (32, 0)]),
                22 => Some(vec![(32, -1), (32, 1)]),
                _ => None,
            };
            if let Some(b) = bar {
                v.insert(cx.choose(n + 1), b);
            }
            let refs: Vec<&[P]> = v.iter().map(|l| &l[..]).collect();
            judge(cx, &[ID, MIRX], false, &refs)
        }),
    });
    fams.push(Family {
        name: "cut",
        bound: format!("every ordered pair of the {} linestrings of pairs3, their segments cut into {:?} pieces: the verdict of the uncut pair", c.len(), CUTS),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&c);
            let b = cx.pick(&c);
            let want = multilinestring_valid(&[a, b]);
            cx.outcome(want as usize);
            for (i, (k, l)) in CUTS.into_iter().enumerate() {
                cx.note(|| format!("multilinestring {:?} and {:?} cut into {} and {}", a, b, k, l));
                let (p, q) = (cut(a, 8, k), cut(b, 8, l));
                verdict::<f64>(cx, if i == 0 { &ROT45 } else { &ID }, &[&p, &q], want)?;
            }
            Ok(())
        }),
    });
    // two parts in combination with other parts and spellings
    let c = all.clone();
    fams.push(Family {
        name: "dressed",
        bound: format!("every ordered pair of the {} linestrings of pairs3, each with one combination of: 0-5 more parts (empty, far away: a segment, a closed ring, a long line, two touching ones) anywhere in the list, segments of either cut into 1, 2, 4 or 8, direction of either, embedding", c.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let (i, j) = (cx.choose(c.len()), cx.choose(c.len()));
            let want = multilinestring_valid(&[&c[i], &c[j]]);
            cx.outcome(want as usize);
            for round in 0..if th { 6 } else { 2 } {
                let mut t = Turn::new(&[i, j, round]);
                let mut v: Vec<Vec<P>> = vec![];
                for r in [&c[i], &c[j]] {
                    let mut r = cut(r, 8, *t.pick(&[1, 1, 2, 4, 8]));
                    if t.take(2) == 1 {
                        r.reverse();
                    }
                    v.push(r);
                }
                for m in 0..t.take(5) as i64 {
                    let o = (40 + 100 * m, -50);
                    let kind = t.take(6);
                    let parts: Vec<Vec<P>> = match kind {
                        0 | 1 => vec![vec![]],
                        2 => vec![vec![(0, 0), (9, 3)]],
                        3 => vec![rect(0, 0, 9, 9)],
                        4 => vec![zigzag(12)],
                        _ => vec![vec![(0, 0), (9, 3)], vec![(20, 4), (9, 3)]],
                    };
                    for r in parts {
                        let at = t.take(v.len() + 1);
                        v.insert(at, shift(&r, o));
                    }
                }
                let e = *t.pick(&[&ID, &ROT45, &SWAP, &FAR]);
                let f: Vec<&[P]> = v.iter().map(|r| &r[..]).collect();
                cx.note(|| format!("multilinestring {:?} mapped by {}", v, e.name));
                verdict::<f64>(cx, e, &f, want)?;
            }
            Ok(())
        }),
    });
    // two parts of interest among others far away
    let few: Arc<Vec<Vec<P>>> = Arc::new(vec![
        vec![(0, 0), (2, 2)],
        vec![(2, 2), (0, 0)],
        vec![(0, 2), (2, 0)],
        vec![(0, 2), (1, 1)],
        vec![(2, 2), (3, 0), (4, 2)],
        vec![(0, 0), (2, 0), (2, 2), (0, 0)],
        vec![(2, 2), (4, 2), (4, 4), (2, 2)],
        vec![(2, 2), (0, 0), (2, 0), (2, 2)],
        vec![(0, 0), (-1, 0), (-1, -1)],
        vec![(1, 2), (1, 3)],
        vec![(0, 0), (1, 1)],
        vec![(0, 4), (4, 4), (4, 0), (2, 2)],
    ]);
    let ns: Vec<usize> = if th { vec![2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 18, 32, 33, 34, 40, 65, 66, 130] } else { vec![3, 5, 9, 10, 17, 18, 33, 40] };
    fams.push(Family {
        name: "among",
        bound: format!("every ordered pair of {} lines (meeting at ends, across, in the middle, along, rings, apart), cut into 1 or 8, among {:?} parts (short, long, rings) far away, at 20 pairs of places in the list", few.len(), ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let (a, b) = (cx.pick(&few), cx.pick(&few));
            let want = multilinestring_valid(&[a, b]);
            let (k, l) = *cx.pick(&[(1, 1), (8, 1), (1, 8), (8, 8)]);
            let n = *cx.pick(&ns);
            let (i, j) = *cx.pick(&places(n));
            let (p, q) = (cut(a, 8, k), cut(b, 8, l));
            let kind = cx.choose(3);
            let rest: Vec<Vec<P>> = (0..n as i64)
                .map(|m| {
                    let o = (200 + 40 * (m % 7), 60 * (m / 7) - 100);
                    match if kind < 2 { kind as i64 } else { m % 3 } {
                        0 => shift(&[(0, 0), (8, 8)], o),
                        1 => shift(&zigzag(12), o),
                        _ => shift(&rect(0, 0, 8, 8), o),
                    }
                })
                .collect();
            let mut v: Vec<&[P]> = rest.iter().map(|x| &x[..]).collect();
            v[i] = &p;
            v[j] = &q;
            cx.note(|| format!("{:?} and {:?} cut into {} and {} as parts {} and {} of {}, others of kind {}", a, b, k, l, i, j, n, kind));
            cx.outcome(want as usize);
            verdict::<f64>(cx, &SHIFT, &v, want)
        }),
    });
    run_check(Check {
        id: "C03",
        assumptions: vec!["the reference model decides simplicity and contacts exactly over 128-bit integers"],
        families: fams,
    })
}
