//! C10: join of two indexes.
use magog::flatbush::Flatbush;
use mc::adapt::*;
use mc::engine::*;
use mc::exact::P;
use mc::gen::*;
use mc::rt::*;
use std::sync::Arc;

fn want(a: &[Item], b: &[Item]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..a.len() {
        for j in 0..b.len() {
            if meet(&a[i], &b[j]) {
                v.push((i, j));
            }
        }
    }
    v
}
fn join<C: Co>(cx: &mut Cx, s: &Flatbush<C>, t: &Flatbush<C>, want: &[(usize, usize)], what: &dyn Fn() -> String) -> R {
    cx.op(2);
    cx.outcome(!want.is_empty() as usize);
    let mut got = s.find_other_rtree_intersection_candidates(t);
    let mut back: Vec<(usize, usize)> = t.find_other_rtree_intersection_candidates(s).into_iter().map(|(a, b)| (b, a)).collect();
    got.sort_unstable();
    back.sort_unstable();
    for (g, dir) in [(&got, "forward"), (&back, "exchanged")] {
        if *g != want {
            let miss: Vec<_> = want.iter().filter(|p| !g.contains(p)).take(5).collect();
            let extra: Vec<_> = g.iter().filter(|p| !want.contains(p)).take(5).collect();
            return Err(Fail::new(format!("{} {} ({}): {} pairs instead of {}; missing {:?}, unexpected {:?}", C::NAME, what(), dir, g.len(), want.len(), miss, extra)));
        }
    }
    Ok(())
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["no pair", "pairs"];
    let alpha = Arc::new(small_items(3, 3));
    let a = alpha.clone();
    fams.push(Family {
        name: "small",
        bound: "every pair of sequences of 0..=2 and 0..=1 (thorough: 2) items out of all 36 closed rectangles of the 3x3 grid and empty; degrees 2 and 8 in all combinations".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let x = choose_items(cx, &a, 2);
            let y = choose_items(cx, &a, if th { 2 } else { 1 });
            cx.note(|| format!("items {} | {}", show(&x), show(&y)));
            let w = want(&x, &y);
            for (d, e) in [(2, 2), (2, 8), (8, 2), (8, 8)] {
                join(cx, &build::<f64>(&x, d, true), &build::<f64>(&y, e, false), &w, &|| format!("degrees {} and {}", d, e))?;
            }
            Ok(())
        }),
    });
    let iv: Vec<Item> = vec![bx(0, 0, 0, 0), bx(2, 0, 2, 0), None, bx(0, 0, 4, 0)];
    let (k, l) = if th { (7, 4) } else { (6, 3) };
    let ivs = iv.clone();
    fams.push(Family {
        name: "heights",
        bound: format!("every pair of sequences of 0..={} and 0..={} items out of 3 intervals and empty, degrees 2-2, 2-4, 4-2, 8-2 (heights 0 to 3 against each other)", k, l),
        outcomes: out,
        f: Box::new(move |cx| {
            let x = choose_items(cx, &ivs, k);
            let y = choose_items(cx, &ivs, l);
            cx.note(|| format!("items {} | {}", show(&x), show(&y)));
            let w = want(&x, &y);
            for (d, e, s) in [(2, 2, false), (2, 4, true), (4, 2, false), (8, 2, true)] {
                join(cx, &build::<f32>(&x, d, s), &build::<f32>(&y, e, s), &w, &|| format!("degrees {} and {}", d, e))?;
            }
            Ok(())
        }),
    });
    let ns: Vec<usize> = if th { (0..=20).chain([31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 512, 513]).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 33, 63, 64, 65, 66, 100, 130] };
    let pats: Vec<usize> = if th { (0..PATTERNS.len()).collect() } else { vec![0, 3, 5, 7, 9, 10, 12, 16, 17] };
    let nd = ns.clone();
    let pd = pats.clone();
    fams.push(Family {
        name: "counts",
        bound: format!("sizes {:?} against each other x {} patterns against each other x degrees 2,4,8,16 against each other (every combination of heights), mixed constructors", ns, pats.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let (n, m) = (*cx.pick(&nd), *cx.pick(&nd));
            if m > n {
                return Ok(()); // both directions are checked anyway
            }
            let (p, q) = (*cx.pick(&pd), *cx.pick(&pd));
            let (x, y) = (pattern(p, n), pattern(q, m));
            cx.note(|| format!("{} items ({}) | {} items ({})", n, PATTERNS[p], m, PATTERNS[q]));
            let w = want(&x, &y);
            for d in [2usize, 4, 8, 16] {
                let s = build::<f64>(&x, d, (n + d) % 3 != 0);
                for e in [2usize, 4, 8, 16] {
                    let t = build::<f64>(&y, e, (m + e) % 4 != 0);
                    join(cx, &s, &t, &w, &|| format!("{} items ({}) degree {} | {} items ({}) degree {}", n, PATTERNS[p], d, m, PATTERNS[q], e))?;
                }
            }
            Ok(())
        }),
    });
    let ns: Vec<usize> = if th { vec![1, 9, 65, 513, 1000, 4097, 5000, 65537] } else { vec![1, 9, 65, 513, 1000, 16385, 65537] };
    fams.push(Family {
        name: "large",
        bound: format!("sizes {:?} against each other (where their product is at most a million; thorough: 25 million), rows, lattices and diagonals shifted against each other, degrees 2, 8, 32", ns),
        outcomes: out,
        f: Box::new(move |cx| {
            let (n, m) = (*cx.pick(&ns), *cx.pick(&ns));
            if n * m > 25_000_000 || (!th && n * m > 1_000_000) {
                return Ok(());
            }
            let p = *cx.pick(&[0usize, 1, 2, 3]);
            let q = *cx.pick(&[0usize, 1, 2, 3]);
            let dx = *cx.pick(&[0., 1., 3., 400.]);
            let x = pattern(p, n);
            let y: Vec<Item> = pattern(q, m).into_iter().map(|i| i.map(|b| [b[0] + dx, b[1], b[2] + dx, b[3]])).collect();
            cx.note(|| format!("{} items ({}) | {} items ({}) shifted by {}", n, PATTERNS[p], m, PATTERNS[q], dx));
            let w = want(&x, &y);
            for (d, e) in [(2, 8), (8, 8), (8, 32)] {
                join(cx, &build::<f64>(&x, d, true), &build::<f64>(&y, e, false), &w, &|| format!("degrees {} and {}", d, e))?;
            }
            Ok(())
        }),
    });
    let sp = Arc::new(special_items());
    let a = sp.clone();
    fams.push(Family {
        name: "special",
        bound: format!("every pair of sequences of 0..=2 items out of {} envelopes with NaN, infinite, huge, tiny, negative zero coordinates; degrees 2 and 8", sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let x = choose_items(cx, &a, if th { 3 } else { 2 });
            let y = choose_items(cx, &a, 2);
            cx.note(|| format!("items {} | {}", show(&x), show(&y)));
            let w = want(&x, &y);
            for (d, e) in [(2, 2), (2, 8)] {
                join(cx, &build::<f64>(&x, d, true), &build::<f64>(&y, e, true), &w, &|| format!("degrees {} and {}", d, e))?;
            }
            Ok(())
        }),
    });
    let a = sp.clone();
    fams.push(Family {
        name: "onespecial",
        bound: "1..=20, 65 items in a row with item j replaced by each special envelope, joined with 0, 1, 5, 9 and 65 scattered items; degrees 2, 8".into(),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = match cx.choose(21) {
                0 => 65,
                k => k,
            };
            let mut x = pattern(*cx.pick(&[0usize, 9]), n);
            let j = cx.choose(n);
            x[j] = *cx.pick(&a);
            let y = pattern(9, *cx.pick(&[0usize, 1, 5, 9, 65]));
            cx.note(|| format!("items {} | {}", show(&x), show(&y)));
            let w = want(&x, &y);
            for (d, e) in [(2, 8), (8, 2)] {
                join(cx, &build::<f64>(&x, d, true), &build::<f64>(&y, e, true), &w, &|| format!("degrees {} and {}", d, e))?;
            }
            Ok(())
        }),
    });
    let sizes: Vec<usize> = vec![0, 1, 2, 3, 8, 9, 10, 17, 33, 65, 66, 130];
    fams.push(Family {
        name: "linestring",
        bound: format!("segment indexes of two linestrings of {:?} positions (zigzag, staircase, spiral)", sizes),
        outcomes: out,
        f: Box::new(move |cx| {
            let mut line = || -> Vec<P> {
                let n = *cx.pick(&sizes);
                match cx.choose(3) {
                    0 => zigzag(n),
                    1 => stair(n),
                    _ => { let mut v = spiral(n.max(1)); v.truncate(n); v }
                }
            };
            let (p, q) = (line(), line());
            cx.note(|| format!("positions {:?} | {:?}", p, q));
            let segs = |pts: &Vec<P>| -> Vec<Item> { pts.windows(2).map(|s| bx(s[0].0.min(s[1].0), s[0].1.min(s[1].1), s[0].0.max(s[1].0), s[0].1.max(s[1].1))).collect() };
            let w = want(&segs(&p), &segs(&q));
            join(cx, &ID.line::<f64>(&p).build_rtree(), &ID.line::<f64>(&q).build_rtree(), &w, &|| "segments of linestrings".into())
        }),
    });
    // an index joined with itself, and with another one of the same items
    let a = alpha.clone();
    let spi = Arc::new(special_items());
    let k = if th { 3 } else { 2 };
    fams.push(Family {
        name: "itself",
        bound: format!("an index joined with itself, with one built again from the same items in the same way and with one built in the other way: every sequence of 0..={} items out of the 36 rectangles of the 3x3 grid and empty and of the special envelopes; 0..{} and 129, 257, 513, 1025 items of every pattern; degrees 2, 4, 8, 64, 256", k, if th { 150 } else { 70 }),
        outcomes: out,
        f: Box::new(move |cx| {
            let kind = cx.choose(3);
            let x = match kind {
                0 => choose_items(cx, &a, k),
                1 => choose_items(cx, &spi, 2),
                _ => {
                    let mut ns: Vec<usize> = (0..if th { 150 } else { 70 }).collect();
                    ns.extend([129, 257, 513, 1025]);
                    let n = *cx.pick(&ns);
                    let p = cx.choose(PATTERNS.len());
                    pattern(p, n)
                }
            };
            cx.note(|| if x.len() < 9 { format!("items {}", show(&x)) } else { format!("{} items, {} ...", x.len(), show(&x[..3])) });
            let w = want(&x, &x);
            for d in if kind == 2 { vec![2usize, 4, 8, 64, 256] } else { vec![2, 4, 8] } {
                for sorted in [true, false] {
                    let t = build::<f64>(&x, d, sorted);
                    join(cx, &t, &t, &w, &|| format!("degree {} with itself, sorted {}", d, sorted))?;
                    join(cx, &t, &build::<f64>(&x, d, true), &w, &|| format!("degree {} with its like, sorted {} and sorted", d, sorted))?;
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C10",
        assumptions: vec!["degrees are powers of two >= 2 (others are refused by the constructor)"],
        families: fams,
    })
}
