//! C12: structure of the r-tree as seen through root_node / get_children.
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::planar::primitives::HasEnvelope;
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::P;
use mc::gen::*;
use mc::rt::*;
use std::sync::Arc;

const HEIGHTS: &[&str] = &["height 0", "height 1", "height 2 or more"];

fn walk<C: Co>(cx: &mut Cx, t: &Flatbush<C>, items: &[Item], d: usize, sorted: bool, what: &dyn Fn() -> String) -> R {
    let n = items.len();
    let total = union_all(items.iter());
    cx.op(2);
    ensure!(same(&item_of(&t.envelope()), &total), "{} {}: envelope {:?} is not the union {:?}", C::NAME, what(), t.envelope(), total);
    let root = t.root_node();
    ensure!(same(&item_of(&root.envelope), &total), "{} {}: root envelope {:?} is not the union {:?}", C::NAME, what(), root.envelope, total);
    // how many nodes of each level stand for items
    let mut count = vec![n];
    while count.len() <= root.level {
        let l = *count.last().unwrap();
        count.push((l + d - 1) / d);
    }
    ensure!(n == 0 || count[root.level] == 1, "{} {}: root at level {} cannot cover {} items", C::NAME, what(), root.level, n);
    cx.outcome(root.level.min(2));
    let mut seen: Vec<usize> = Vec::with_capacity(n);
    let mut stack: Vec<FlatbushNode<C>> = vec![root];
    while let Some(node) = stack.pop() {
        if node.sibling_index >= count[node.level] {
            ensure!(node.envelope.is_empty(), "{} {}: padding node {:?} is not empty", C::NAME, what(), node);
            continue;
        }
        if node.level == 0 {
            let want = &items[node.sibling_index];
            ensure!(same(&item_of(&node.envelope), want), "{} {}: leaf {:?} does not carry its item's envelope {:?}", C::NAME, what(), node, want);
            seen.push(node.sibling_index);
            continue;
        }
        cx.op(1);
        let ch = t.get_children(node);
        ensure!(ch.len() == d, "{} {}: node {:?} has {} children", C::NAME, what(), node, ch.len());
        let mut u: Item = None;
        for c in &ch {
            ensure!(c.level + 1 == node.level, "{} {}: child {:?} of {:?} at the wrong level", C::NAME, what(), c, node);
            u = union(&u, &item_of(&c.envelope));
        }
        ensure!(same(&u, &item_of(&node.envelope)), "{} {}: node {:?} does not have the union {:?} of its children as envelope", C::NAME, what(), node, u);
        stack.extend(ch.into_iter().rev());
    }
    if !sorted {
        ensure!(seen.windows(2).all(|w| w[0] < w[1]), "{} {}: leaves of an unsorted index out of order: {:?}", C::NAME, what(), &seen[..seen.len().min(50)]);
    }
    seen.sort_unstable();
    ensure!(seen.len() == n && seen.iter().enumerate().all(|(i, s)| i == *s), "{} {}: leaves reached {:?}", C::NAME, what(), &seen[..seen.len().min(50)]);
    Ok(())
}
fn ctor(s: bool) -> &'static str {
    if s { "new" } else { "new_unsorted" }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let alpha = Arc::new(small_items(3, 3));
    let a = alpha.clone();
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "small",
        bound: format!("every sequence of 0..={} items out of the 36 closed rectangles of the 3x3 grid and empty; degrees 2, 4, 8, 16; both constructors; f64 and f32", k),
        outcomes: HEIGHTS,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4, 8, 16] {
                for s in [true, false] {
                    let what = || format!("{} degree {}", ctor(s), d);
                    walk(cx, &build::<f64>(&items, d, s), &items, d, s, &what)?;
                    walk(cx, &build::<f32>(&items, d, s), &items, d, s, &what)?;
                }
            }
            Ok(())
        }),
    });
    let iv: Vec<Item> = vec![bx(0, 0, 0, 0), bx(2, 0, 3, 1), None, bx(0, -1, 4, 0)];
    let k = if th { 10 } else { 9 };
    fams.push(Family {
        name: "wide",
        bound: format!("every sequence of {} items out of 3 boxes and empty; degrees 2, 4, 8; both constructors", k),
        outcomes: HEIGHTS,
        f: Box::new(move |cx| {
            let n = if cx.flip() { k } else { cx.choose(4) };
            let items: Vec<Item> = (0..n).map(|_| *cx.pick(&iv)).collect();
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4, 8] {
                for s in [true, false] {
                    walk(cx, &build::<f64>(&items, d, s), &items, d, s, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let top = if th { 1100 } else { 300 };
    let mut ns: Vec<usize> = (0..top).collect();
    ns.extend([511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32769, 65536, 65537]);
    ns.sort();
    ns.dedup();
    fams.push(Family {
        name: "counts",
        bound: format!("0..{} and 511..514, 600, 1000, 1023..1025, 4095..4097, 5000, 32769, 65536, 65537 items x {} patterns x degrees 2,4,8,16,32,64,128,256,512,1024,65536 x both constructors", top, PATTERNS.len()),
        outcomes: HEIGHTS,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}", n, PATTERNS[p]));
            for d in [2usize, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 65536] {
                for s in [true, false] {
                    let what = || format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d);
                    walk(cx, &build::<f64>(&items, d, s), &items, d, s, &what)?;
                }
            }
            if n < 600 {
                walk(cx, &build::<f32>(&items, 8, true), &items, 8, true, &|| format!("{} items ({}), new degree 8", n, PATTERNS[p]))?;
            }
            Ok(())
        }),
    });
    let sp = Arc::new(special_items());
    let a = sp.clone();
    let k = if th { 5 } else { 4 };
    fams.push(Family {
        name: "special",
        bound: format!("every sequence of 0..={} items out of {} envelopes with NaN, infinite, huge, tiny, negative zero coordinates; degrees 2, 4, 8; both constructors", k, sp.len()),
        outcomes: HEIGHTS,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4, 8] {
                for s in [true, false] {
                    walk(cx, &build::<f64>(&items, d, s), &items, d, s, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    let a = sp.clone();
    fams.push(Family {
        name: "onespecial",
        bound: "3..=70 items in a row or scattered with item j (every j) replaced by each special envelope; degrees 2, 8".into(),
        outcomes: &["height 0 (never)", "height 1"][..0],
        f: Box::new(move |cx| {
            let n = 3 + cx.choose(68);
            let mut items = pattern(*cx.pick(&[0usize, 9]), n);
            let j = cx.choose(n);
            items[j] = *cx.pick(&a);
            cx.note(|| format!("items {}, replaced {}", show(&items), j));
            for d in [2, 8] {
                for s in [true, false] {
                    walk(cx, &build::<f64>(&items, d, s), &items, d, s, &|| format!("{} degree {}", ctor(s), d))?;
                }
            }
            Ok(())
        }),
    });
    fams.push(Family {
        name: "linestring",
        bound: "segment indexes of linestrings of 0..=140 positions and new_empty".into(),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = cx.choose(141);
            let pts: Vec<P> = match cx.choose(3) {
                0 => zigzag(n),
                1 => stair(n),
                _ => { let mut v = spiral(n.max(1)); v.truncate(n); v }
            };
            cx.note(|| format!("positions {:?}", pts));
            let segs: Vec<Item> = pts.windows(2).map(|s| bx(s[0].0.min(s[1].0), s[0].1.min(s[1].1), s[0].0.max(s[1].0), s[0].1.max(s[1].1))).collect();
            let t = ID.line::<f64>(&pts).build_rtree();
            let d = t.degree;
            walk(cx, &t, &segs, d, false, &|| "LineString::build_rtree".into())?;
            let t = Flatbush::<f64>::new_empty();
            let d = t.degree;
            walk(cx, &t, &[], d, false, &|| "new_empty".into())?;
            Ok(())
        }),
    });
    run_check(Check {
        id: "C12",
        assumptions: vec!["degrees are powers of two >= 2 (others are refused by the constructor)"],
        families: fams,
    })
}
