//! C08: window query.
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, HasEnvelope, Position, Segment};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::P;
use mc::gen::*;
use mc::rt::*;
use std::sync::Arc;

fn query<C: Co>(cx: &mut Cx, t: &Flatbush<C>, items: &[Item], w: &Item, what: &dyn Fn() -> String) -> R {
    cx.op(1);
    let mut got = t.find_intersection_candidates(env::<C>(w));
    got.sort_unstable();
    let mut i = 0;
    let mut hits = 0;
    for (k, it) in items.iter().enumerate() {
        if meet(it, w) {
            hits += 1;
            ensure!(got.get(i) == Some(&k), "{} {}: window {} should return {:?}, returned {:?}", C::NAME, what(), show_w(w), want(items, w), got);
            i += 1;
        }
    }
    ensure!(i == got.len(), "{} {}: window {} should return {:?}, returned {:?}", C::NAME, what(), show_w(w), want(items, w), got);
    cx.outcome(if hits == 0 { 0 } else if hits < items.len() { 1 } else { 2 });
    Ok(())
}
fn want(items: &[Item], w: &Item) -> Vec<usize> {
    (0..items.len()).filter(|i| meet(&items[*i], w)).collect()
}
fn show_w(w: &Item) -> String {
    show(&[*w])
}
fn ctor(s: bool) -> &'static str {
    if s { "new" } else { "new_unsorted" }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["nothing", "some", "all"];
    let alpha = Arc::new(small_items(3, 3));
    let a = alpha.clone();
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "small",
        bound: format!("every sequence of 0..={} items out of all 36 closed rectangles of the 3x3 grid and the empty envelope; every one of these as window; degrees 2, 4, 8, 16; both constructors", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4, 8, 16] {
                for s in [true, false] {
                    let t = build::<f64>(&items, d, s);
                    for w in a.iter() {
                        query(cx, &t, &items, w, &|| format!("{} degree {}", ctor(s), d))?;
                    }
                }
            }
            Ok(())
        }),
    });
    let a = Arc::new(small_items(2, 2));
    let k = if th { 6 } else { 5 };
    fams.push(Family {
        name: "deep",
        bound: format!("every sequence of {} items out of the 9 rectangles of the 2x2 grid and empty (3 levels at degree 2), every window", k),
        outcomes: out,
        f: Box::new(move |cx| {
            let items: Vec<Item> = (0..k).map(|_| *cx.pick(&a)).collect();
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4] {
                for s in [true, false] {
                    let t = build::<f64>(&items, d, s);
                    for w in a.iter() {
                        query(cx, &t, &items, w, &|| format!("{} degree {}", ctor(s), d))?;
                    }
                }
            }
            Ok(())
        }),
    });
    let mut ns: Vec<usize> = (0..if th { 300 } else { 140 }).collect();
    ns.extend([255, 256, 257, 511, 512, 513, 514, 600]);
    ns.sort();
    ns.dedup();
    fams.push(Family {
        name: "counts",
        bound: format!("0..{} and 255..257, 511..514, 600 items x {} patterns x degrees 2,4,8,16,32,64 x both constructors x f64/f32; systematic windows (whole, sides, strips, quadrants, each item, its corners, gaps)", if th { 300 } else { 140 }, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            let d = *cx.pick(&[2usize, 4, 8, 16, 32, 64]);
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<f64>(&items, d, s);
            let what = || format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d);
            for w in windows(&items, if th { 100 } else { 24 }) {
                query(cx, &t, &items, &w, &what)?;
            }
            if n < 70 {
                let t = build::<f32>(&items, d, s);
                for w in windows(&items, 10) {
                    query(cx, &t, &items, &w, &what)?;
                }
            }
            Ok(())
        }),
    });
    let ns: Vec<usize> = if th { vec![1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 32768, 32769, 65535, 65536, 65537, 100001] } else { vec![1000, 1024, 1025, 4096, 4097, 5000, 16385, 65537] };
    fams.push(Family {
        name: "large",
        bound: format!("{:?} items x {} patterns x degrees 2,8,64 x both constructors; systematic windows (at degree 2 above 5000 items, those that meet up to 1000, above 20000 every sixth of these)", ns, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            let d = *cx.pick(&[2usize, 8, 64]);
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<f64>(&items, d, s);
            let mut ws = windows(&items, 30);
            if n > 5000 && d == 2 {
                ws = narrow(&items, ws);
                if n > 20000 {
                    ws = ws.into_iter().step_by(6).collect();
                }
            }
            for w in ws {
                query(cx, &t, &items, &w, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))?;
            }
            Ok(())
        }),
    });
    let sp = Arc::new(special_items());
    let a = sp.clone();
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "special",
        bound: format!("every sequence of 0..={} items out of {} envelopes with NaN, infinite, huge, tiny, negative zero coordinates; each as window; degrees 2, 8; both constructors; f64 and f32", k, sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 8] {
                for s in [true, false] {
                    let what = || format!("{} degree {}", ctor(s), d);
                    let t = build::<f64>(&items, d, s);
                    for w in a.iter() {
                        query(cx, &t, &items, w, &what)?;
                    }
                    // in f32 the model must use the rounded coordinates
                    let r: Vec<Item> = items.iter().map(|i| i.map(|b| [b[0] as f32 as f64, b[1] as f32 as f64, b[2] as f32 as f64, b[3] as f32 as f64])).collect();
                    let t = build::<f32>(&items, d, s);
                    for w in a.iter() {
                        let rw = w.map(|b| [b[0] as f32 as f64, b[1] as f32 as f64, b[2] as f32 as f64, b[3] as f32 as f64]);
                        query(cx, &t, &r, &rw, &what)?;
                    }
                }
            }
            Ok(())
        }),
    });
    let a = sp.clone();
    fams.push(Family {
        name: "onespecial",
        bound: format!("3..=20, 64, 65 items in a row or scattered with item j (every j) replaced by each of the {} special envelopes; each special envelope and systematic windows as query; degrees 2, 8", sp.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = match cx.choose(if th { 24 } else { 12 }) {
                0 => 64,
                1 => 65,
                k => if th { k + 1 } else { 2 * k },
            };
            let p = *cx.pick(&[0usize, 3, 9]);
            let mut items = pattern(p, n);
            let j = cx.choose(n);
            items[j] = *cx.pick(&a);
            cx.note(|| format!("items {}, replaced {}", show(&items), j));
            let finite: Vec<Item> = items.iter().enumerate().filter(|(i, _)| *i != j).map(|x| *x.1).collect();
            let mut ws = windows(&finite, 6);
            ws.extend(a.iter().copied());
            for d in [2, 8] {
                for s in [true, false] {
                    let t = build::<f64>(&items, d, s);
                    for w in &ws {
                        query(cx, &t, &items, w, &|| format!("{} degree {}", ctor(s), d))?;
                    }
                }
            }
            Ok(())
        }),
    });
    let sizes: Vec<usize> = if th { (0..140).collect() } else { (0..70).collect() };
    fams.push(Family {
        name: "linestring",
        bound: format!("index of the segments of linestrings (zigzag, staircase, spiral, back and forth, all equal points) with 0..{} positions, f64 and f32; also indexes built from positions and segments", sizes.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&sizes);
            let pts: Vec<P> = match cx.choose(5) {
                0 => zigzag(n),
                1 => stair(n),
                2 => { let mut v = spiral(n.max(1)); v.truncate(n); v }
                3 => (0..n as i64).map(|i| (i * 3 % 11, i % 2)).collect(),
                _ => vec![(2, 2); n],
            };
            cx.note(|| format!("positions {:?}", pts));
            let segs: Vec<Item> = pts.windows(2).map(|s| bx(s[0].0.min(s[1].0), s[0].1.min(s[1].1), s[0].0.max(s[1].0), s[0].1.max(s[1].1))).collect();
            let ps: Vec<Item> = pts.iter().map(|p| bx(p.0, p.1, p.0, p.1)).collect();
            let ws = windows(&segs, 70);
            let t = ID.line::<f64>(&pts).build_rtree();
            let t32 = ID.line::<f32>(&pts).build_rtree();
            let sg: Vec<Segment<f64>> = pts.windows(2).map(|s| ID.seg(s[0], s[1])).collect();
            let po: Vec<Position<f64>> = pts.iter().map(|p| ID.pos(*p)).collect();
            let ts = Flatbush::new(&sg, 4);
            let tp = Flatbush::new(&po, 2);
            for w in &ws {
                query(cx, &t, &segs, w, &|| "LineString::build_rtree".into())?;
                query(cx, &t32, &segs, w, &|| "LineString::build_rtree".into())?;
                query(cx, &ts, &segs, w, &|| "Flatbush::new of segments, degree 4".into())?;
                query(cx, &tp, &ps, w, &|| "Flatbush::new of positions, degree 2".into())?;
            }
            let e: Envelope<f64> = t.envelope();
            ensure!(same(&item_of(&e), &union_all(segs.iter())), "index envelope {:?}", e);
            Ok(())
        }),
    });
    let ns: Vec<usize> = if th { vec![0, 1, 2, 50, 63, 64, 65, 100, 127, 128, 129, 130, 193, 200, 255, 256, 257, 258, 300, 383, 385, 511, 512, 513, 514, 767, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 2100, 4096, 4097, 4100] } else { vec![0, 1, 64, 65, 100, 128, 129, 200, 256, 257, 300, 513, 770, 1024, 1025, 2049, 2100] };
    fams.push(Family {
        name: "degrees",
        bound: format!("{:?} items x {} patterns x degrees 128, 256, 512, 1024, 4096, 65536 x both constructors; systematic windows", ns, PATTERNS.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns);
            let p = cx.choose(PATTERNS.len());
            let d = *cx.pick(&[128usize, 256, 512, 1024, 4096, 65536]);
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<f64>(&items, d, s);
            for w in windows(&items, 40) {
                query(cx, &t, &items, &w, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))?;
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C08",
        assumptions: vec!["degrees are powers of two >= 2 (others are refused by the constructor)"],
        families: fams,
    })
}
