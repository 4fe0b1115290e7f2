//! C11: distance query.
use magog::flatbush::Flatbush;
use magog::planar::primitives::Position;
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::rt::*;
use std::sync::Arc;

/// Gap between the position and the box along each axis (exact for the lattice inputs used).
fn gap(i: &Item, x: f64, y: f64) -> Option<(f64, f64)> {
    let b = (*i)?;
    if b.iter().any(|v| v.is_nan()) {
        return None; // nothing is near a box without a place
    }
    Some(((b[0] - x).max(x - b[2]).max(0.), (b[1] - y).max(y - b[3]).max(0.)))
}
fn query<C: Co>(cx: &mut Cx, t: &Flatbush<C>, items: &[Item], x: f64, y: f64, d: f64, what: &dyn Fn() -> String) -> R {
    cx.op(1);
    let mut got = t.find_candidates_within(Position::new(C::of(x), C::of(y)), C::of(d));
    got.sort_unstable();
    let mut prev = None;
    for g in &got {
        ensure!(*g < items.len() && prev != Some(*g), "{} {}: position ({}, {}) distance {}: returned {:?}", C::NAME, what(), x, y, d, got);
        prev = Some(*g);
    }
    let (mut near, mut far, mut corner) = (false, false, false);
    for (k, it) in items.iter().enumerate() {
        let has = got.binary_search(&k).is_ok();
        match gap(it, x, y) {
            Some((gx, gy)) => {
                let r = gx * gx + gy * gy;
                if r <= d * d || (d.is_infinite() && gx.is_finite() && gy.is_finite()) {
                    near = true;
                    ensure!(has, "{} {}: position ({}, {}) distance {}: item {} {} at distance {} is missing from {:?}", C::NAME, what(), x, y, d, k, show(&[*it]), r.sqrt(), got);
                } else if gx > d || gy > d {
                    far = true;
                    ensure!(!has, "{} {}: position ({}, {}) distance {}: item {} {} is {} and {} away along the axes but returned", C::NAME, what(), x, y, d, k, show(&[*it]), gx, gy);
                } else {
                    corner = true;
                }
            }
            None => ensure!(!has, "{} {}: position ({}, {}) distance {}: item {} has no place but is returned", C::NAME, what(), x, y, d, k),
        }
    }
    if near { cx.outcome(0) }
    if far { cx.outcome(1) }
    if corner { cx.outcome(2) }
    Ok(())
}
fn ctor(s: bool) -> &'static str {
    if s { "new" } else { "new_unsorted" }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["in range", "out of range", "near a corner"];
    let alpha = Arc::new(small_items(3, 3));
    let a = alpha.clone();
    let k = if th { 3 } else { 2 };
    fams.push(Family {
        name: "small",
        bound: format!("every sequence of 0..={} items out of the 36 rectangles of the 3x3 grid and empty; every half-lattice position in and around; distances 0, 1/2, 1, 3/2, 2, 3, infinite; degrees 2, 8; both constructors; f64 and f32", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 8] {
                for s in [true, false] {
                    let what = || format!("{} degree {}", ctor(s), d);
                    let t = build::<f64>(&items, d, s);
                    let t32 = build::<f32>(&items, d, s);
                    for x in -2..=6 {
                        for y in -2..=6 {
                            for r in [0., 0.5, 1., 1.5, 2., 3., f64::INFINITY] {
                                query(cx, &t, &items, x as f64 / 2., y as f64 / 2., r, &what)?;
                                if d == 2 {
                                    query(cx, &t32, &items, x as f64 / 2., y as f64 / 2., r, &what)?;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        }),
    });
    let mut ns: Vec<usize> = (0..if th { 150 } else { 75 }).collect();
    ns.extend([127, 128, 129, 512, 513, 600, 1000, 4097, 65537]);
    ns.sort();
    ns.dedup();
    fams.push(Family {
        name: "counts",
        bound: format!("0..{} and 127..129, 512, 513, 600, 1000 items (and, for 3 patterns at degrees 8 and 1024, 4097 and 65537) x {} patterns x degrees 2,4,8,16 (above 100 items 2,8,64,128,1024) x both constructors; positions at item corners, centres and offsets by Pythagorean triples; distances 0, 1, 2, 5, 13, 25 and infinite", if th { 150 } else { 75 }, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = if n > 1000 { *cx.pick(&[0usize, 3, 9]) } else { cx.choose(PATTERNS.len()) };
            let d = if n > 1000 { *cx.pick(&[8, 1024]) } else if n > 100 { *cx.pick(&[2usize, 8, 64, 128, 1024]) } else { *cx.pick(&[2usize, 4, 8, 16]) };
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<f64>(&items, d, s);
            let step = 1 + n / 12;
            let mut pos = vec![(0., 0.), (-7., 3.)];
            for i in (0..n).step_by(step) {
                if let Some(b) = items[i] {
                    if b.iter().any(|v| v.is_nan()) { continue }
                    for o in [(0., 0.), (-3., -4.), (-4., -3.), (-5., 0.), (0., -5.), (-5., -12.), (-7., -24.), (-1., -1.)] {
                        pos.push((b[0] + o.0, b[1] + o.1));
                        pos.push((b[2] - o.0, b[3] - o.1));
                    }
                }
            }
            for (k, (x, y)) in pos.into_iter().enumerate() {
                for r in [0., 1., 2., 5., 13., 25., f64::INFINITY] {
                    if n > 1000 && r > 25. && k > 2 { continue }
                    query(cx, &t, &items, x, y, r, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let sp = Arc::new(special_items());
    let a = sp.clone();
    fams.push(Family {
        name: "special",
        bound: format!("every sequence of 0..=3 items out of {} envelopes with NaN, infinite, huge, tiny, negative zero coordinates; 9 finite positions; distances 0, 1, 2, 1e30 and infinite", sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, 3);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 8] {
                for s in [true, false] {
                    let t = build::<f64>(&items, d, s);
                    for (x, y) in [(0., 0.), (-0.0, -0.0), (2., 2.), (1., 1.), (3., 0.), (-1., -1.), (5., 2.), (1e30, 1e30), (0., -1e-30)] {
                        for r in [0., 1., 2., f64::INFINITY] {
                            if r == 1. && (x == 1e30 || y == -1e-30) || (r == 2. && y == -1e-30) {
                                continue; // the corner of the square is not exact
                            }
                            // |x| + r is exact for the pairs kept, except against 1e30-sized gaps, which round the same way
                            query(cx, &t, &items, x, y, r, &|| format!("{} degree {}", ctor(s), d))?;
                        }
                    }
                }
            }
            Ok(())
        }),
    });
    // inexact sums: along an axis, an item exactly in range is never missed
    let vals: Vec<f64> = vec![0.1, 0.2, 0.1 + 0.2, 0.3, 1. / 3., 0.7, 1.1, 1e-3, -0.1, 0.0, 1e17, -7e-9, 123.456];
    let n = vals.len();
    fams.push(Family {
        name: "decimal",
        bound: format!("every position, every point item from {:?} on a horizontal or vertical line, with the distance just covering it (rounded up) and the distance next below", vals),
        outcomes: &["in range", "out of range"],
        f: Box::new(move |cx| {
            let (p, q) = (vals[cx.choose(n)], vals[cx.choose(n)]);
            let hor = cx.flip();
            let k = cx.choose(10);
            cx.note(|| format!("position {:?}, item {:?}, {}, {} other items", p, q, if hor { "horizontal" } else { "vertical" }, k));
            let diff = (q - p).abs();
            // is diff exactly |q - p|?  (two-sum error term)
            let (big, small) = if q.abs() > p.abs() { (q, p) } else { (p, q) };
            let raw = big - small;
            let err = (big - raw) - small; // exact when |big| >= |small|
            // next up / down of a non-negative number
            let up = f64::from_bits(diff.to_bits() + 1);
            let exact_more = (raw > 0. && err > 0.) || (raw < 0. && err < 0.); // |q-p| > diff
            let enough = if exact_more { up } else { diff };
            let at = |v: f64| if hor { [v, 0.7, v, 0.7] } else { [0.7, v, 0.7, v] };
            let mut items: Vec<Item> = (0..k).map(|i| bx(1000 + i as i64, 5, 1001 + i as i64, 6)).collect();
            items.insert(k / 2, Some(at(q)));
            let (x, y) = if hor { (p, 0.7) } else { (0.7, p) };
            for d in [2, 8] {
                let t = build::<f64>(&items, d, true);
                cx.op(2);
                let got = t.find_candidates_within(Position::new(x, y), enough);
                ensure!(got.contains(&(k / 2)), "item at {:?} is missing for position {:?} and distance {:?}: {:?}", q, p, enough, got);
                cx.outcome(0);
                if diff > 0. {
                    let less = diff * 0.99;
                    let got = t.find_candidates_within(Position::new(x, y), less);
                    ensure!(!got.contains(&(k / 2)) || p.abs() > 1e6 * diff, "item at {:?} is returned for position {:?} and distance {:?}", q, p, less);
                    cx.outcome(1);
                }
            }
            Ok(())
        }),
    });
    // distances that are square roots, rounded up to the next float; at all magnitudes
    let lim = if th { 60 } else { 24 };
    fams.push(Family {
        name: "euclid",
        bound: format!("item and position dx <= {}, dy <= {} apart in 4 directions (also at -1074 to 1000 as exponent of two), distance the square root rounded up: the item is found; half of the larger gap: it is not; f64 and f32", lim, lim),
        outcomes: &["in range", "out of range"],
        f: Box::new(move |cx| {
            let (dx, dy) = (cx.choose(lim + 1) as i64, cx.choose(lim + 1) as i64);
            let (sx, sy) = *cx.pick(&[(1., 1.), (-1., 1.), (1., -1.), (-1., -1.)]);
            let k = *cx.pick(&[0, 1, 3, 9]);
            cx.note(|| format!("item at ({} * {}, {} * {}) from the position, with {} more items", dx, sx, dy, sy, k));
            let n = (dx * dx + dy * dy) as u128;
            // least double whose square is at least n, by exact comparison of the squares
            let at_least = |f: f64| -> bool {
                let b = f.to_bits();
                let (m, e) = ((b & ((1 << 52) - 1)) | 1 << 52, (b >> 52) as i32 - 1075);
                // m^2 2^(2e) >= n, with e in -52..0
                let m2 = (m as u128) * (m as u128);
                let sh = (-2 * e) as u32;
                if sh >= 128 { false } else { (m2 >> sh) >= n }
            };
            let mut r = (n as f64).sqrt();
            if n > 0 {
                while !at_least(r) {
                    r = f64::from_bits(r.to_bits() + 1);
                }
            }
            let mut r32 = r as f32;
            if (r32 as f64) < r {
                r32 = f32::from_bits(r32.to_bits() + 1);
            }
            let gap = dx.max(dy) as f64 / 2.;
            let mut e = -1074i32;
            while e <= 1000 {
                let f = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
                // a subnormal distance cannot hold the root: round it up to a whole number
                let d = if e < -1000 { r.ceil() * f } else { r * f };
                let at = [dx as f64 * f * sx, dy as f64 * f * sy];
                let mut items: Vec<Item> = (0..k).map(|i| Some([(100. + i as f64) * f, 200. * f, (100. + i as f64) * f, 201. * f])).collect();
                items.push(Some([at[0], at[1], at[0], at[1]]));
                let t = build::<f64>(&items, 2, true);
                cx.op(2);
                cx.outcome(0);
                let got = t.find_candidates_within(Position::new(0., 0.), d);
                ensure!(got.contains(&k), "item at {:?} is missing for the origin and distance {:?}: {:?}", at, d, got);
                if gap > 0. && (e > -1070) {
                    cx.outcome(1);
                    let got = t.find_candidates_within(Position::new(0., 0.), gap * f);
                    ensure!(!got.contains(&k), "item at {:?} is returned for the origin and distance {:?}: {:?}", at, gap * f, got);
                }
                if (-120..=100).contains(&e) {
                    let (f, d) = (f as f32, r32 * f as f32);
                    let at = [dx as f32 * f * sx as f32, dy as f32 * f * sy as f32];
                    let t = build::<f32>(&items, 2, true);
                    cx.op(1);
                    let got = t.find_candidates_within(Position::new(0., 0.), d);
                    ensure!(got.contains(&k), "f32: item at {:?} is missing for the origin and distance {:?}: {:?}", at, d, got);
                }
                e += 61;
            }
            // the same at a distance from the origin where sums are exact
            for (ox, oy) in [(1000., -3000.), (0.5, 1e6)] {
                let items: Vec<Item> = vec![Some([ox + dx as f64 * sx, oy + dy as f64 * sy, ox + dx as f64 * sx, oy + dy as f64 * sy])];
                cx.op(1);
                let got = build::<f64>(&items, 8, false).find_candidates_within(Position::new(ox, oy), (r * 1e6).ceil() / 1e6 + 1e-6);
                ensure!(got == [0], "item ({}, {}) from ({}, {}) is missing within {}: {:?}", dx, dy, ox, oy, r, got);
            }
            Ok(())
        }),
    });
    // boxes at exactly the distance asked for, diagonally, where squares are rounded
    let top = if th { 200 } else { 60 };
    let mut triples: Vec<(i64, i64, i64)> = vec![];
    for r in 1..top {
        for x in 1..r {
            let y = ((r * r - x * x) as f64).sqrt() as i64;
            if y > 0 && x * x + y * y == r * r {
                triples.push((x, y, r));
            }
        }
    }
    let span = if th { 40 } else { 12 };
    fams.push(Family {
        name: "triples",
        bound: format!("the {} pairs of legs of Pythagorean triangles of hypotenuse below {}, times 2^m + j for m up to 45 (f32: 16), -{} <= j <= {}, and times 3^k, 5^k, 7^k: the item at that distance is found in 4 directions, from the origin and from two places where sums are exact; as a point and as the corner of a box; the item is not found with a distance below the longer leg", triples.len(), top, span, span),
        outcomes: &["in range", "out of range"],
        f: Box::new(move |cx| {
            let (x, y, r) = *cx.pick(&triples);
            let (sx, sy) = *cx.pick(&[(1i64, 1i64), (-1, 1), (1, -1), (-1, -1)]);
            let m = cx.choose(46);
            let unsorted = cx.flip();
            let mut ks: Vec<i64> = (-span..=span).map(|j| (1i64 << m) + j).filter(|k| *k > 0).collect();
            for b in [3i64, 5, 7] {
                if let Some(k) = b.checked_pow(m as u32 / 2) {
                    if k < 1 << 45 {
                        ks.push(k);
                    }
                }
            }
            cx.note(|| format!("legs {} * {}, {} * {}, hypotenuse {}, times 2^{} + j, unsorted {}", x, sx, y, sy, r, m, unsorted));
            for k in ks {
                let (dx, dy, d) = (x * k, y * k, r * k);
                for (ox, oy) in [(0i64, 0i64), (-dx * sx, 0), (1000, -3000)] {
                    let (tx, ty) = (ox + dx * sx, oy + dy * sy);
                    let fits = |lim: i64| [ox, oy, tx, ty, d, ox - d, ox + d, oy - d, oy + d].iter().all(|v| v.abs() < lim);
                    let p = [tx as f64, ty as f64, tx as f64, ty as f64];
                    let b = [tx.min(tx + sx * k) as f64, ty.min(ty + sy * k) as f64, tx.max(tx + sx * k) as f64, ty.max(ty + sy * k) as f64];
                    let items: Vec<Item> = vec![Some(p), Some(b)];
                    let less = (dx.max(dy) - 1) as f64;
                    if fits(1 << 52) {
                        let t = build::<f64>(&items, 2, !unsorted);
                        cx.op(2);
                        cx.outcome(0);
                        let mut got = t.find_candidates_within(Position::new(ox as f64, oy as f64), d as f64);
                        got.sort_unstable();
                        ensure!(got == [0, 1], "items ({}, {}) away from ({}, {}) are not all found within {}: {:?}", dx * sx, dy * sy, ox, oy, d, got);
                        cx.outcome(1);
                        let got = t.find_candidates_within(Position::new(ox as f64, oy as f64), less);
                        ensure!(got.is_empty(), "items ({}, {}) away from ({}, {}) are found within {}: {:?}", dx * sx, dy * sy, ox, oy, less, got);
                    }
                    if fits(1 << 23) && k * r < 1 << 22 {
                        let t = build::<f32>(&items, 2, !unsorted);
                        cx.op(1);
                        let mut got = t.find_candidates_within(Position::new(ox as f32, oy as f32), d as f32);
                        got.sort_unstable();
                        ensure!(got == [0, 1], "f32: items ({}, {}) away from ({}, {}) are not all found within {}: {:?}", dx * sx, dy * sy, ox, oy, d, got);
                    }
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C11",
        assumptions: vec![
            "distances are non-negative and positions finite",
            "the upper bound (nothing further away than the distance along an axis) is judged where position plus distance is exact",
        ],
        families: fams,
    })
}
