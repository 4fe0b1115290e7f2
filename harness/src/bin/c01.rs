//! C01: linestring validity <=> simple curve.
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::*;
use mc::gen::*;
use magog::planar::primitives::Position;
use magog::planar::types::LineString;

fn verdict<C: Co>(cx: &mut Cx, e: &Emb, s: &[P], want: bool) -> R {
    cx.op(1);
    let l: LineString<C> = e.line(s);
    let got = l.validate();
    ensure!(
        got.is_ok() == want,
        "{} linestring {} is {} but validate() = {:?}",
        C::NAME, show_pts(e, s), if want { "simple" } else { "not simple" }, got
    );
    if e.name == ID.name {
        ensure!(l.is_simple() == want, "{} linestring {}: is_simple() disagrees with validity", C::NAME, show_pts(e, s));
    }
    Ok(())
}
fn all(cx: &mut Cx, embs: &[Emb], single: bool, s: &[P]) -> R {
    cx.note(|| format!("linestring {:?}", s));
    let want = line_valid(s);
    cx.outcome(want as usize);
    for e in embs {
        verdict::<f64>(cx, e, s, want)?;
        if single && !e.wide {
            verdict::<f32>(cx, e, s, want)?;
        }
    }
    Ok(())
}
fn seq(cx: &mut Cx, g: &[P], n: usize) -> Vec<P> {
    (0..n).map(|_| *cx.pick(g)).collect()
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["not simple", "simple"];

    let n3 = if th { 7 } else { 6 };
    let g3 = grid(3, 3);
    fams.push(Family {
        name: "grid3",
        bound: format!("all sequences of 0..={} points of the 3x3 grid; 21 exact embeddings (f64) and 15 (f32), scales 2^-480 to 2^480, one of them mixing 0.0 and -0.0", n3),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(n3 + 1);
            let s = seq(cx, &g3, n);
            all(cx, if n < 6 { &EMBS } else { &EMBS3 }, n < 6, &s)?;
            if n < 6 {
                all(cx, &EXTREME, true, &s)?;
            }
            Ok(())
        }),
    });
    let n4 = if th { 6 } else { 5 };
    let g4 = grid(4, 4);
    fams.push(Family {
        name: "grid4",
        bound: format!("all sequences of 2..={} points of the 4x4 grid; 4 exact embeddings, f64 and f32", n4),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 2 + cx.choose(n4 - 1);
            let s = seq(cx, &g4, n);
            all(cx, &EMBS3, n < 6, &s)
        }),
    });
    let (w5, n5) = if th { (5, 5) } else { (5, 4) };
    let g5 = grid(w5, 5);
    fams.push(Family {
        name: "grid5",
        bound: format!("all sequences of {} points of the 5x5 grid", n5),
        outcomes: out,
        f: Box::new(move |cx| {
            let s = seq(cx, &g5, n5);
            all(cx, &EMBS3, false, &s)
        }),
    });
    // closed sequences: last point = first
    let g4 = grid(4, 4);
    let nc = if th { 6 } else { 5 };
    fams.push(Family {
        name: "closed4",
        bound: format!("all closed sequences of 3..={} distinct-start points of the 4x4 grid (first repeated last)", nc),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 3 + cx.choose(nc - 2);
            let mut s = seq(cx, &g4, n);
            s.push(s[0]);
            all(cx, &EMBS3, true, &s)
        }),
    });
    // lattice walks: more segments than one index node holds
    let steps = if th { 13 } else { 11 };
    fams.push(Family {
        name: "walks",
        bound: format!("all 4-direction lattice walks without immediate reversal, {} steps, first step fixed, step length 1 (every walk also closed back to its start when adjacent)", steps),
        outcomes: out,
        f: Box::new(move |cx| {
            let dirs: [P; 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            let mut d = 0usize;
            let mut p: P = (0, 0);
            let mut s = vec![p];
            for i in 0..steps {
                if i > 0 {
                    d = (d + [0, 1, 3][cx.choose(3)]) % 4;
                }
                p = (p.0 + dirs[d].0, p.1 + dirs[d].1);
                s.push(p);
            }
            all(cx, &[SHIFT, ROT45], true, &s)
        }),
    });
    let dsteps = if th { 8 } else { 6 };
    fams.push(Family {
        name: "kingwalks",
        bound: format!("all 8-direction lattice walks without immediate reversal, {} steps of length 2, after a fixed tail of 8 short segments leading to the start", dsteps),
        outcomes: out,
        f: Box::new(move |cx| {
            let dirs: [P; 8] = [(2, 0), (2, 2), (0, 2), (-2, 2), (-2, 0), (-2, -2), (0, -2), (2, -2)];
            let mut s: Vec<P> = vec![(-3, 5), (-1, 5), (-1, 3), (-3, 3), (-3, 1), (-1, 1), (-1, -1), (-3, -1), (-1, -3)];
            let mut p: P = (1, -1);
            s.push(p);
            let mut d = 0usize;
            for i in 0..dsteps {
                d = if i == 0 { cx.choose(8) } else { (d + [0, 1, 2, 3, 5, 6, 7][cx.choose(7)]) % 8 };
                p = (p.0 + dirs[d].0, p.1 + dirs[d].1);
                s.push(p);
            }
            all(cx, &[ID, SMALL], true, &s)
        }),
    });
    // long curves with one vertex moved onto or next to another part of the curve
    let sizes: Vec<usize> = if th {
        (4..=90).chain([127, 128, 129, 130, 200, 256, 257, 511, 512, 513, 514, 600]).collect()
    } else {
        (4..=26).chain([33, 57, 64, 65, 66, 67, 130]).collect()
    };
    let dense = if th { 130 } else { 67 };
    let nsz = sizes.len();
    fams.push(Family {
        name: "long",
        bound: format!("spirals, zigzags, stairs (open), parabola arcs, combs, spiral corridors (closed, also reversed) with {} different vertex counts up to {}; every vertex moved to every other vertex, midpoint of every segment, and a neighbour of every vertex (all pairs up to {} vertices, sparse pairs above)", nsz, sizes[nsz - 1], dense),
        outcomes: out,
        f: Box::new(move |cx| {
            let shape = cx.choose(7);
            let n = sizes[cx.choose(nsz)];
            let mut s = match shape {
                0 => scale(&spiral(n), 2),
                1 => scale(&zigzag(n), 2),
                2 => scale(&stair(n), 2),
                3 => scale(&parabola(n), 2),
                4 => scale(&comb(n / 4 + 1), 2),
                5 => spiral_ring((n / 4).min(60) + 2, 4),
                _ => {
                    let mut v = scale(&zigzag_ring(n / 2 + 2), 2);
                    v.reverse();
                    v
                }
            };
            let m = s.len();
            let i = if m <= dense { cx.choose(m + 1) } else { [0, 1, m / 2, m - 2, m - 1, m][cx.choose(6)] };
            if i == m {
                return all(cx, &[ID, MIRX, SMALL], true, &s); // unperturbed
            }
            let j = if m <= dense { cx.choose(m) } else { ((cx.choose(16) * (m - 1)) / 15).min(m - 1) };
            let kind = cx.choose(3);
            let q = s[j];
            let t = match kind {
                0 => q,
                1 if j + 1 < m => ((q.0 + s[j + 1].0) / 2, (q.1 + s[j + 1].1) / 2),
                1 => (q.0, q.1 + 1),
                _ => (q.0 + 1, q.1 + 1),
            };
            let closed = s[0] == s[m - 1];
            s[i] = t;
            if closed && i == 0 {
                s[m - 1] = t;
            }
            all(cx, &[ID], kind == 2, &s)
        }),
    });
    // coordinates that are not exactly representable, where the verdict is robust
    let g4 = grid(4, 4);
    let nd = if th { 5 } else { 4 };
    fams.push(Family {
        name: "decimal",
        bound: format!("all sequences of 2..={} points of the 4x4 grid in which segments are disjoint, cross properly or share end points, at scales 0.1, 1/3 (+0.7), 0.001 (+100.1), 1e-9, 1e9*0.1", nd),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 2 + cx.choose(nd - 1);
            let mut s = seq(cx, &g4, n);
            if n >= 3 && cx.flip() {
                s.push(s[0]);
            }
            cx.note(|| format!("linestring {:?} at decimal scales", s));
            if !robust_line(&s) {
                cx.op(0);
                return Ok(());
            }
            let want = line_valid(&s);
            cx.outcome(want as usize);
            let maps: [(f64, f64, &str); 6] = [(0.1, 0.0, "0.1x"), (1. / 3., 0.7, "x/3+0.7"), (0.001, 100.1, "x/1000+100.1"), (1e-9, 0., "1e-9x"), (1.1e8, -0.3, "1.1e8x-0.3"), (-0.7, 1.3, "-0.7x+1.3")];
            for (k, b, name) in maps.iter() {
                cx.op(1);
                let l: LineString<f64> = LineString::new(s.iter().map(|p| Position::new(p.0 as f64 * k + b, p.1 as f64 * k - b)).collect());
                let got = l.validate();
                ensure!(got.is_ok() == want, "linestring {:?} mapped by {} is {} but validate() = {:?}", s, name, if want { "simple" } else { "not simple" }, got);
                if *b != 100.1 {
                    let l: LineString<f32> = LineString::new(s.iter().map(|p| Position::new(p.0 as f32 * *k as f32 + *b as f32, p.1 as f32 * *k as f32 - *b as f32)).collect());
                    let got = l.validate();
                    ensure!(got.is_ok() == want, "f32 linestring {:?} mapped by {} is {} but validate() = {:?}", s, name, if want { "simple" } else { "not simple" }, got);
                }
            }
            Ok(())
        }),
    });
    // contact points with inexact parameters on long segments: T-touch at every lattice point
    let lim = if th { 40 } else { 20 };
    fams.push(Family {
        name: "touch",
        bound: format!("a segment (0,0)-(w,h), w,h <= {}, a detour, and a last segment ending on, just before or just past each of its lattice points, from 3 directions; both orders", lim),
        outcomes: out,
        f: Box::new(move |cx| {
            let w = cx.choose(lim) as i64 + 1;
            let h = cx.choose(lim) as i64;
            let (a, b): (P, P) = ((0, 0), (w * 7, h * 7));
            let gc = { let (mut x, mut y) = (b.0, b.1); while y != 0 { let t = x % y; x = y; y = t; } x };
            let t = cx.choose(gc as usize + 1) as i64;
            let q = (b.0 / gc * t, b.1 / gc * t);
            let d = *cx.pick(&[(-1i64, 1i64), (-3, 5), (0, 1)]);
            let end = cx.choose(3) as i64 - 1; // before, on, past
            let far = (q.0 + d.0 * 300, q.1 + d.1 * 300);
            let fin = (q.0 - d.0 * end, q.1 - d.1 * end);
            let mut s = vec![a, b, (b.0 + 2000, b.1), (b.0 + 2000, 4000), (far.0, 4000), far, fin];
            s.dedup();
            if cx.flip() {
                s.reverse();
            }
            all(cx, &[ID, SWAP], false, &s)
        }),
    });
    // scales at which squares and products overflow or vanish; segments meet at joints only
    fams.push(Family {
        name: "extremes",
        bound: "all curves of 2..=5 points rising (x and y) by 1 or 2 steps each, in 4 directions, with every exponent of two from -1074 to 1020 (f64) and -149 to 124 (f32) in steps of 7; with and without a repeated point".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 2 + cx.choose(4);
            let mut p: P = if cx.flip() { (0, 0) } else { (-1, -2) };
            let mut s = vec![p];
            for _ in 1..n {
                p = (p.0 + 1 + cx.choose(2) as i64, p.1 + 1 + cx.choose(2) as i64);
                s.push(p);
            }
            let r = cx.choose(n + 1);
            if r < n {
                s.insert(r, s[r]);
            }
            let (fx, fy) = *cx.pick(&[(1., 1.), (-1., 1.), (1., -1.), (-1., -1.)]);
            cx.note(|| format!("linestring {:?} times ({}, {}) and powers of two", s, fx, fy));
            let want = r == n;
            cx.outcome(want as usize);
            let mut k = -1074i32;
            while k <= 1020 {
                let f = if k < -1022 { f64::from_bits(1u64 << (k + 1074)) } else { f64::from_bits(((k + 1023) as u64) << 52) };
                cx.op(1);
                let l: LineString<f64> = LineString::new(s.iter().map(|p| Position::new(p.0 as f64 * f * fx, p.1 as f64 * f * fy)).collect());
                ensure!(l.validate().is_ok() == want, "linestring {:?} times 2^{}: validate() = {:?}", s, k, l.validate());
                if (-149..=124).contains(&k) {
                    let f = f as f32;
                    let l: LineString<f32> = LineString::new(s.iter().map(|p| Position::new(p.0 as f32 * f * fx as f32, p.1 as f32 * f * fy as f32)).collect());
                    ensure!(l.validate().is_ok() == want, "f32 linestring {:?} times 2^{}: validate() = {:?}", s, k, l.validate());
                }
                k += 7;
            }
            Ok(())
        }),
    });
    // very many vertices, where the answer is known from the construction
    let hsizes: Vec<usize> = if th {
        vec![100, 255, 256, 257, 258, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2047, 2049, 4095, 4096, 4097, 4098, 8193, 10001, 16385, 32767, 32769, 65535, 65536, 65537, 65538, 100001, 131073, 262145]
    } else {
        vec![100, 257, 513, 514, 1000, 1025, 2049, 4097, 4098, 10001, 32769, 65536, 65537, 65538]
    };
    let nh = hsizes.len();
    fams.push(Family {
        name: "huge",
        bound: format!("stairs, zigzags and closed zigzag bands of {} sizes up to {} vertices, as they are and with one vertex moved: repeated, onto the one two before, onto an early, middle or late vertex, at the start, middle, end or near the end of each; both directions", nh, hsizes[nh - 1]),
        outcomes: out,
        f: Box::new(move |cx| {
            let shape = cx.choose(3);
            let n = hsizes[cx.choose(nh)];
            let mut s = match shape {
                0 => stair(n),
                1 => zigzag(n),
                _ => zigzag_ring(n / 2),
            };
            let m = s.len();
            let i = [m, 0, 1, m / 2, m - 3, m - 2, m - 1][cx.choose(7)];
            let want = i == m;
            if i < m {
                // moving a vertex onto another one makes the curve meet itself there
                let j = match cx.choose(5) {
                    0 => if i + 1 < m { i + 1 } else { i - 1 },
                    1 => if i + 2 < m { i + 2 } else { i - 2 },
                    2 => if i == 2 { 4 } else { 2 },
                    3 => m / 2 + 3,
                    _ => m - 4,
                };
                if s[i] == s[j] {
                    return Ok(());
                }
                s[i] = s[j];
                // the first vertex moved onto the last but one of an open curve still is a touch,
                // moved onto the very last it would close the curve
                if (i == 0 && j == m - 1) || (i == m - 1 && j == 0) {
                    return Ok(());
                }
            }
            if cx.flip() {
                s.reverse();
            }
            cx.note(|| format!("{} with {} vertices, vertex {} moved", ["stair", "zigzag", "band"][shape], m, i));
            if m < 300 {
                assert!(line_valid(&s) == want, "MC-HARNESS wrong expectation for {:?}", s);
            }
            cx.outcome(want as usize);
            cx.op(1);
            let l: LineString<f64> = SHIFT.line(&s);
            ensure!(l.validate().is_ok() == want, "{} of {} vertices, vertex {} moved: should be {}, is {:?}", ["stair", "zigzag", "band"][shape], m, i, if want { "simple" } else { "not simple" }, l.validate());
            Ok(())
        }),
    });
    fams.push(Family {
        name: "slivers",
        bound: format!("linestrings (0,0), (n, s n + i), (n + q, s n + l), (p, j), open and closed, n of {} powers of two up to 2^50, s of 0, 1, -1, 2, the rest small, wherever all products are exact; f64, and f32 where exact there", if th { 47 } else { 15 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let sizes: Vec<i64> = if th { (4..=50).collect() } else { vec![5, 8, 10, 12, 16, 20, 21, 24, 25, 26, 30, 36, 40, 45, 50] };
            let m = *cx.pick(&sizes);
            let n = 1i64 << m;
            let s = *cx.pick(&[0i64, 1, -1, 2]);
            let mut o = || cx.choose(if th { 7 } else { 5 }) as i64 - if th { 3 } else { 2 };
            let d = [o(), o(), o(), o(), o()];
            let Some([a, b, c, e]) = sliver(n, s, d, 53) else { return Ok(()) };
            let mut v = vec![a, b, e, c];
            if cx.flip() {
                v.push(a);
            }
            all(cx, &[ID, SWAP], sliver(n, s, d, 24).is_some(), &v)
        }),
    });
    // exactly one crossing, between segments a given number of places apart in a very long curve
    fams.push(Family {
        name: "apart",
        bound: "zigzags, followed by a detour that crosses (or stops short of) exactly one segment a = 0, 1, 2, 7, 100, b - a = 2 plus each of 37 values up to 65538 around powers of two; both directions, both kinds of step".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let gap = *cx.pick(&gaps(true)) + 2;
            let a = *cx.pick(&[0usize, 1, 2, 7, 100]);
            let crossing = cx.flip();
            let b = a + gap; // the last segment
            // b + 1 segments: zigzag of b - 1, one up, one across, one down
            let m = b - 1;
            let a = a.min(m - 1);
            let mut s: Vec<P> = (0..m as i64).map(|i| (4 * i, 2 * (i & 1))).collect();
            let x = 4 * a as i64 + 1;
            s.push((4 * m as i64, 100));
            s.push((x, 100));
            s.push((x, if crossing { -100 } else { 50 }));
            if a + 1 >= m {
                return Ok(());
            }
            if cx.flip() {
                s.reverse();
            }
            cx.note(|| format!("zigzag of {} segments, last one {} segment {}", s.len() - 1, if crossing { "crosses" } else { "stops above" }, a));
            if s.len() < 300 {
                assert!(line_valid(&s) == !crossing, "MC-HARNESS wrong expectation for {:?}", s);
            }
            cx.outcome(!crossing as usize);
            for e in [&ID, &SWAP] {
                cx.op(1);
                let l: LineString<f64> = e.line(&s);
                ensure!(l.validate().is_ok() == !crossing, "validate() = {:?}", l.validate());
            }
            Ok(())
        }),
    });
    // non-finite coordinates
    fams.push(Family {
        name: "nonfinite",
        bound: "stairs of 2..=40 vertices with NaN, +inf or -inf in x or y of any one vertex (also closed rings)".into(),
        outcomes: &["nan", "inf"],
        f: Box::new(move |cx| {
            let n = 2 + cx.choose(39);
            let closed = n >= 4 && cx.flip();
            let s = if closed { parabola(n) } else { stair(n) };
            let i = cx.choose(s.len());
            let bad = *cx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            cx.outcome(bad.is_infinite() as usize);
            let y = cx.flip();
            cx.note(|| format!("linestring {:?} with {} = {} at vertex {}", s, if y { "y" } else { "x" }, bad, i));
            cx.op(2);
            let mk = |f: &dyn Fn(usize, P) -> (f64, f64)| -> Vec<(f64, f64)> { s.iter().enumerate().map(|(k, p)| f(k, *p)).collect() };
            let v = mk(&|k, p| {
                let hit = k == i || (closed && (i == 0 || i == s.len() - 1) && (k == 0 || k == s.len() - 1));
                if !hit { (p.0 as f64, p.1 as f64) } else if y { (p.0 as f64, bad) } else { (bad, p.1 as f64) }
            });
            let l: LineString<f64> = LineString::from(v.clone());
            ensure!(l.validate().is_err() && !l.is_simple(), "accepted");
            let l: LineString<f32> = LineString::from(v.iter().map(|p| (p.0 as f32, p.1 as f32)).collect::<Vec<_>>());
            ensure!(l.validate().is_err(), "accepted in f32");
            Ok(())
        }),
    });
    let ln = if th { 6 } else { 5 };
    let g = grid(3, 3);
    // rectilinear lines whose first and last segments are on one line
    let bodies: Vec<i64> = if th { (0..=40).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33] };
    fams.push(Family {
        name: "ends",
        bound: format!("a first segment from a to b and a last one from c to d on one line, or the last one higher by 1 or 2, a, b, c, d of 0..=6, joined by a staircase of {:?} steps and a way back; 6 embeddings, both directions", bodies),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&bodies);
            let (a, b, c, d) = (cx.choose(7) as i64, cx.choose(7) as i64, cx.choose(7) as i64, cx.choose(7) as i64);
            let h = cx.choose(3) as i64;
            // b is left upwards, c is reached from above; the stairs go to the side away from c
            let side = if c <= b { 1 } else { -1 };
            let mut s = vec![(a, 0)];
            if a != b {
                s.push((b, 0));
            }
            let (mut x, mut y) = (b, 4);
            s.push((x, y));
            for _ in 0..n {
                x += side;
                s.push((x, y));
                y += 1;
                s.push((x, y));
            }
            y += 1;
            if n > 0 || c != b {
                x += side;
                s.push((x, y - 1));
                s.push((x, y));
            }
            s.push((c, y));
            s.push((c, h));
            if c != d {
                s.push((d, h));
            }
            if cx.flip() {
                s.reverse();
            }
            all(cx, &[ID, MIXZ, SWAP, MIRX, ROT45, SHEAR], false, &s)
        }),
    });
    fams.push(Family {
        name: "cut",
        bound: format!("every sequence of 2..={} points of the 3x3 grid, as it is and closed, with every segment cut into 2, 3, 5, 8, 17 or 40 pieces; f64 and f32, as it is and turned by 45 degrees: the verdict of the uncut line", ln),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = 2 + cx.choose(ln - 1);
            let mut s = seq(cx, &g, n);
            if cx.flip() {
                s.push(s[0]);
            }
            let want = line_valid(&s);
            cx.outcome(want as usize);
            for k in [2, 3, 5, 8, 17, 40] {
                if k > 8 && n > 4 {
                    continue;
                }
                let c = cut(&s, k, k);
                cx.note(|| format!("linestring {:?} cut into {}", s, k));
                verdict::<f64>(cx, &ID, &c, want)?;
                verdict::<f32>(cx, &SHIFT, &c, want)?;
                verdict::<f64>(cx, &ROT45, &c, want)?;
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C01",
        assumptions: vec![
            "the reference model decides simplicity over exact integers (128-bit cross products); embeddings are exact affine images, on which all predicates agree with the integer ones",
            "at decimal scales only configurations whose verdict does not hinge on rounding are judged",
        ],
        families: fams,
    })
}
