//! C09: self-join.
use magog::flatbush::Flatbush;
use mc::adapt::*;
use mc::engine::*;
use mc::exact::P;
use mc::gen::*;
use mc::rt::*;
use std::sync::Arc;

fn want(items: &[Item]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..items.len() {
        if items[i].is_none() {
            continue;
        }
        for j in i + 1..items.len() {
            if meet(&items[i], &items[j]) {
                v.push((i, j));
            }
        }
    }
    v
}
fn join<C: Co>(cx: &mut Cx, t: &Flatbush<C>, want: &[(usize, usize)], what: &dyn Fn() -> String) -> R {
    cx.op(1);
    let mut got = t.find_self_intersection_candidates();
    got.sort_unstable();
    cx.outcome(!want.is_empty() as usize);
    if got != want {
        let miss: Vec<_> = want.iter().filter(|p| !got.contains(p)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|p| !want.contains(p)).take(5).collect();
        return Err(Fail::new(format!("{} {}: {} pairs instead of {}; missing {:?}, unexpected {:?}", C::NAME, what(), got.len(), want.len(), miss, extra)));
    }
    Ok(())
}
fn ctor(s: bool) -> &'static str {
    if s { "new" } else { "new_unsorted" }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["no pair", "pairs"];
    let alpha = Arc::new(small_items(3, 3));
    let a = alpha.clone();
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "small",
        bound: format!("every sequence of 0..={} items out of all 36 closed rectangles of the 3x3 grid and the empty envelope; degrees 2, 4, 8; both constructors", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            let w = want(&items);
            for d in [2, 4, 8] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let a = Arc::new(small_items(2, 2));
    let k = if th { 7 } else { 6 };
    fams.push(Family {
        name: "deep",
        bound: format!("every sequence of {} items out of the 9 rectangles of the 2x2 grid and empty; degrees 2, 4", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items: Vec<Item> = (0..k).map(|_| *cx.pick(&a)).collect();
            cx.note(|| format!("items {}", show(&items)));
            let w = want(&items);
            for d in [2, 4] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    // intervals on a line: 5 to 9 items over a few positions, three levels at degree 2
    let iv: Vec<Item> = vec![bx(0, 0, 0, 0), bx(2, 0, 2, 0), None, bx(0, 0, 4, 0)];
    let k = if th { 10 } else { 9 };
    fams.push(Family {
        name: "wide",
        bound: format!("every sequence of {} items out of 3 intervals and empty (4 levels at degree 2, 2 at degree 8)", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items: Vec<Item> = (0..k).map(|_| *cx.pick(&iv)).collect();
            cx.note(|| format!("items {}", show(&items)));
            let w = want(&items);
            for d in [2, 4, 8] {
                for s in [true, false] {
                    join(cx, &build::<f32>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let top = if th { 400 } else { 140 };
    let mut ns: Vec<usize> = (0..top).collect();
    ns.extend([255, 256, 257, 511, 512, 513, 514, 600]);
    ns.sort();
    ns.dedup();
    fams.push(Family {
        name: "counts",
        bound: format!("0..{} and 255..257, 511..514, 600 items x {} patterns x degrees 2,4,8,16,32,64 x both constructors, f64 and f32", top, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}", n, PATTERNS[p]));
            let w = want(&items);
            for d in [2usize, 4, 8, 16, 32, 64] {
                for s in [true, false] {
                    let what = || format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d);
                    join(cx, &build::<f64>(&items, d, s), &w, &what)?;
                    if n < 100 {
                        join(cx, &build::<f32>(&items, d, s), &w, &what)?;
                    }
                }
            }
            Ok(())
        }),
    });
    // sparse pairs in large trees: exactly one or two overlapping pairs at systematic positions
    let ns: Vec<usize> = if th { vec![64, 65, 128, 512, 513, 1000, 4096, 4097, 5000, 32769, 65536, 65537, 100001] } else { vec![65, 512, 513, 1000, 4097, 65537] };
    fams.push(Family {
        name: "onepair",
        bound: format!("{:?} disjoint items in a row, column or lattice, in order or with a stride; item j moved onto item i for systematic i, j (ends, middles, node borders); degrees 2, 8, 16", ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = *cx.pick(&[0usize, 1, 3]);
            let mut items = pattern(p, n);
            if cx.flip() {
                let q = items.clone();
                for i in 0..n {
                    items[i] = q[(i * 37 + 5) % n]; // n is never a multiple of 37
                }
            }
            let spots = [0, 1, 7, 8, 9, 63, 64, n / 2 - 1, n / 2, n - 9, n - 2, n - 1];
            let far = [0, 8, n / 2, n - 1];
            let spots = if n > 5000 { &far[..] } else { &spots[..] };
            let i = *cx.pick(spots);
            let j = *cx.pick(spots);
            if i < n && j < n {
                items[j] = items[i];
            }
            cx.note(|| format!("{} items, pattern {}, item {} equal to item {}", n, PATTERNS[p], j, i));
            let w: Vec<(usize, usize)> = if i == j || i >= n || j >= n { vec![] } else { vec![(i.min(j), i.max(j))] };
            for d in [2usize, 8, 16] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let sp = Arc::new(special_items());
    let a = sp.clone();
    let k = if th { 5 } else { 4 };
    fams.push(Family {
        name: "special",
        bound: format!("every sequence of 0..={} items out of {} envelopes with NaN, infinite, huge, tiny, negative zero coordinates; degrees 2, 8; both constructors", k, sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            let w = want(&items);
            for d in [2, 8] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let a = sp.clone();
    fams.push(Family {
        name: "onespecial",
        bound: format!("3..=20, 64, 65, 66 items in a row or scattered with item j (every j) replaced by each of the {} special envelopes; degrees 2, 8", sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = match cx.choose(21) {
                0 => 64,
                1 => 65,
                2 => 66,
                k => k,
            };
            let p = *cx.pick(&[0usize, 4, 9]);
            let mut items = pattern(p, n);
            let j = cx.choose(n);
            items[j] = *cx.pick(&a);
            cx.note(|| format!("items {}, replaced {}", show(&items), j));
            let w = want(&items);
            for d in [2, 8] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let sizes: Vec<usize> = if th { (0..140).chain([500, 513]).collect() } else { (0..70).collect() };
    fams.push(Family {
        name: "linestring",
        bound: format!("segment indexes of linestrings (zigzag, staircase, spiral, back and forth, all equal points), {} sizes, f64 and f32", sizes.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes);
            let pts: Vec<P> = match cx.choose(5) {
                0 => zigzag(n),
                1 => stair(n),
                2 => { let mut v = spiral(n.max(1)); v.truncate(n); v }
                3 => (0..n as i64).map(|i| (i * 3 % 11, i % 2)).collect(),
                _ => vec![(2, 2); n],
            };
            cx.note(|| format!("positions {:?}", pts));
            let segs: Vec<Item> = pts.windows(2).map(|s| bx(s[0].0.min(s[1].0), s[0].1.min(s[1].1), s[0].0.max(s[1].0), s[0].1.max(s[1].1))).collect();
            let w = want(&segs);
            join(cx, &ID.line::<f64>(&pts).build_rtree(), &w, &|| "LineString::build_rtree".into())?;
            join(cx, &SMALL.line::<f32>(&pts).build_rtree(), &w, &|| "LineString::build_rtree, scaled".into())
        }),
    });
    let ns: Vec<usize> = if th { vec![0, 1, 2, 50, 63, 64, 65, 100, 127, 128, 129, 130, 193, 200, 255, 256, 257, 258, 300, 383, 385, 511, 512, 513, 514, 767, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 2100, 4096, 4097, 4100] } else { vec![0, 1, 64, 65, 100, 128, 129, 200, 256, 257, 300, 513, 770, 1024, 1025, 2049, 2100] };
    fams.push(Family {
        name: "degrees",
        bound: format!("{:?} items x {} patterns (no dense ones above 600 items) x degrees 128, 256, 512, 1024 x both constructors", ns, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            if n > 600 && [6, 7, 8, 16].contains(&p) {
                return Ok(());
            }
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}", n, PATTERNS[p]));
            let w = want(&items);
            for d in [128usize, 256, 512, 1024] {
                for s in [true, false] {
                    join(cx, &build::<f64>(&items, d, s), &w, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C09",
        assumptions: vec!["degrees are powers of two >= 2 (others are refused by the constructor)"],
        families: fams,
    })
}
