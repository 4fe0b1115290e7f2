//! C26: index queries and validation do work in proportion to what they find; a user-defined coordinate
//! type gets the same answers as f64.
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::planar::primitives::{Envelope, HasEnvelope};
use magog::planar::types::{MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use mc::adapt::*;
use mc::cnt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::P;
use mc::gen::*;
use mc::rt::*;
use std::sync::Arc;

/// Coordinate operations allowed per pair of boxes that has to be looked at (a comparison takes at most four).
const K: u64 = 24;
type N = FlatbushNode<Cnt>;
type T = Flatbush<Cnt>;

fn bounds_of(e: &Envelope<Cnt>) -> Item {
    item_of(e)
}
/// Inner nodes that a search for `w` cannot do without.
fn reached(t: &T, w: &Item) -> u64 {
    let mut n = 0;
    let mut st = vec![t.root_node()];
    while let Some(x) = st.pop() {
        if x.level > 0 && meet(&bounds_of(&x.envelope), w) {
            n += 1;
            st.extend(t.get_children(x));
        }
    }
    n
}
/// Pairs of inner nodes of one level whose boxes meet (a node with itself included), counted by descending.
fn self_pairs(t: &T) -> u64 {
    let mut n = 0;
    let mut st = vec![(t.root_node(), t.root_node())];
    while let Some((a, b)) = st.pop() {
        if a.level == 0 || a.tree_index > b.tree_index || !meet(&bounds_of(&a.envelope), &bounds_of(&b.envelope)) {
            continue;
        }
        n += 1;
        let cb = t.get_children(b);
        for c in t.get_children(a) {
            st.extend(cb.iter().map(|d| (c, *d)));
        }
    }
    n
}
/// Pairs (node of t, node of u) whose boxes meet, of any levels but two leaves.
fn cross_pairs(t: &T, u: &T) -> u64 {
    let mut n = 0;
    let mut st: Vec<N> = vec![t.root_node()];
    while let Some(a) = st.pop() {
        let w = bounds_of(&a.envelope);
        let mut here = 0;
        let mut su = vec![u.root_node()];
        while let Some(b) = su.pop() {
            if meet(&w, &bounds_of(&b.envelope)) {
                if a.level > 0 || b.level > 0 {
                    n += 1;
                }
                here += 1;
                if b.level > 0 {
                    su.extend(u.get_children(b));
                }
            }
        }
        if a.level > 0 && here > 0 {
            st.extend(t.get_children(a));
        }
    }
    n
}
/// The window queries.
fn search(cx: &mut Cx, t: &T, items: &[Item], ws: &[Item], what: &dyn Fn() -> String) -> R {
    let d = t.degree as u64;
    for w in ws {
        cx.op(1);
        let (got, ops) = count(|| t.find_intersection_candidates(env::<Cnt>(w)));
        let m = reached(t, w);
        ensure!(ops <= K * (1 + d * m), "{} window {:?}: {} coordinate operations, {} inner nodes of {} children meet it, {} found", what(), w, ops, m, d, got.len());
        if items.len() < 40 {
            let mut g = got;
            g.sort_unstable();
            let want: Vec<usize> = (0..items.len()).filter(|i| meet(&items[*i], w)).collect();
            ensure!(g == want, "{} window {:?} yields {:?}, should be {:?}", what(), w, g, want);
        }
    }
    Ok(())
}
fn join(cx: &mut Cx, t: &T, items: &[Item], what: &dyn Fn() -> String) -> R {
    let d = t.degree as u64;
    cx.op(1);
    let (got, ops) = count(|| t.find_self_intersection_candidates());
    let p = self_pairs(t);
    ensure!(ops <= K * (1 + d * d * p) * (2 + t.root_node().level as u64), "{}: self-join takes {} coordinate operations, {} pairs of inner nodes of {} children meet, {} found", what(), ops, p, d, got.len());
    if items.len() < 40 {
        let mut g = got;
        g.sort_unstable();
        let mut want = vec![];
        for i in 0..items.len() {
            want.extend((i + 1..items.len()).filter(|j| meet(&items[i], &items[*j])).map(|j| (i, j)));
        }
        ensure!(g == want, "{}: self-join yields {:?}, should be {:?}", what(), g, want);
    }
    Ok(())
}
fn cross(cx: &mut Cx, t: &T, u: &T, what: &dyn Fn() -> String) -> R {
    cx.op(1);
    let d = t.degree.max(u.degree) as u64;
    let (got, ops) = count(|| t.find_other_rtree_intersection_candidates(u));
    let p = cross_pairs(t, u);
    ensure!(ops <= K * (1 + d * p) * 2, "{}: cross-join takes {} coordinate operations, {} pairs of nodes of up to {} children meet, {} found", what(), ops, p, d, got.len());
    Ok(())
}
fn ctor(s: bool) -> &'static str {
    if s { "new" } else { "new_unsorted" }
}
/// n log2 n, at least 8.
fn nlogn(n: usize) -> f64 {
    (n as f64 * (n.max(2) as f64).log2()).max(8.)
}
/// Coordinate operations allowed: so many times n log n, and a constant.
type V = (f64, f64);
const LINE: V = (80., 5000.);
const PARTS: V = (400., 20000.);
fn cheap(cx: &mut Cx, v: V, n: usize, what: &dyn Fn() -> String, f: impl FnOnce() -> bool) -> R {
    cx.op(1);
    let (ok, ops) = count(f);
    if std::env::var("MC_MEASURE").is_ok() {
        eprintln!("{:8.1} {} {}", ops as f64 / nlogn(n), n, what());
    }
    ensure!(ok, "{} of {}: not valid", what(), n);
    ensure!(ops as f64 <= v.0 * nlogn(n) + v.1, "{} of {}: validation takes {} coordinate operations, {:.1} times n log n", what(), n, ops, ops as f64 / nlogn(n));
    Ok(())
}
/// Cells for n parts.
fn cells(kind: usize, n: usize) -> Vec<P> {
    let w = (n as f64).sqrt().ceil().max(1.) as i64;
    (0..n as i64)
        .map(|i| match kind {
            0 => (8 * i, 0),
            1 => (0, -8 * i),
            2 => (8 * (i % w), 8 * (i / w)),
            3 => (8 * i, 8 * i),
            _ => (8 * ((i * 7919) % n as i64 % w), 8 * ((i * 7919) % n as i64 / w)),
        })
        .collect()
}
const CELLS: [&str; 5] = ["row", "column", "lattice", "diagonal", "shuffled lattice"];

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];

    let alpha = Arc::new(small_items(3, 2));
    let a = alpha.clone();
    let k = if th { 4 } else { 3 };
    fams.push(Family {
        name: "small",
        bound: format!("every sequence of 0..={} items out of the {} closed rectangles of the 3x2 grid and empty; degrees 2, 4; both constructors; every one of these rectangles as window; self-join", k, a.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let items = choose_items(cx, &a, k);
            cx.note(|| format!("items {}", show(&items)));
            for d in [2, 4] {
                for s in [true, false] {
                    let t = build::<Cnt>(&items, d, s);
                    let what = || format!("{} degree {}", ctor(s), d);
                    search(cx, &t, &items, &a, &what)?;
                    join(cx, &t, &items, &what)?;
                }
            }
            Ok(())
        }),
    });

    let top = if th { 600 } else { 150 };
    let mut ns: Vec<usize> = (0..top).collect();
    ns.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16385, 65536, 65537]);
    ns.sort();
    ns.dedup();
    let n1 = ns.clone();
    fams.push(Family {
        name: "sizes",
        bound: format!("0..{} and 255..257, 511..513, 1023..1025, 4095..4097, 8192, 16385, 65536, 65537 items x {} patterns x degrees 2, 4, 8, 16, 64 x both constructors: windows around items, between items and at the borders (at degrees 2 and 4 above 5000 items, those that meet up to 1000)", top, PATTERNS.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&n1);
            let p = cx.choose(PATTERNS.len());
            let d = *cx.pick(&[2usize, 4, 8, 16, 64]);
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<Cnt>(&items, d, s);
            let mut ws = windows(&items, 6);
            if n > 5000 && d < 8 {
                ws = narrow(&items, ws);
            }
            search(cx, &t, &items, &ws, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))
        }),
    });
    let mut n2: Vec<usize> = (0..if th { 300 } else { 80 }).collect();
    n2.extend([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 2049]);
    n2.sort();
    n2.dedup();
    let few = n2.clone();
    fams.push(Family {
        name: "selfjoin",
        bound: format!("0..{}, around powers of two to 2049 items x {} patterns x degrees 2, 8, 32 x both constructors: self-join; to 16385 items of the sparse patterns", if th { 300 } else { 80 }, PATTERNS.len()),
        outcomes: &[],
        f: Box::new(move |cx| {
            let p = cx.choose(PATTERNS.len());
            let sparse = p <= 4 || p == 11;
            let n = if sparse && cx.flip() { *cx.pick(&[4096usize, 4097, 8191, 16384, 16385]) } else { *cx.pick(&few) };
            let d = *cx.pick(&[2usize, 8, 32]);
            let s = cx.flip();
            let items = pattern(p, n);
            cx.note(|| format!("{} items, pattern {}, degree {}, {}", n, PATTERNS[p], d, ctor(s)));
            let t = build::<Cnt>(&items, d, s);
            join(cx, &t, &items, &|| format!("{} items ({}), {} degree {}", n, PATTERNS[p], ctor(s), d))
        }),
    });
    fams.push(Family {
        name: "crossjoin",
        bound: "indexes of two of 12 sizes (0..=1100) and two of 8 patterns, degrees 2 and 8, mixed, both constructors: cross-join both ways".into(),
        outcomes: &[],
        f: Box::new(move |cx| {
            const S: [usize; 12] = [0, 1, 2, 7, 8, 9, 64, 65, 150, 300, 513, 1100];
            const Q: [usize; 8] = [0, 1, 2, 3, 5, 9, 10, 11];
            let (n, m) = (*cx.pick(&S), *cx.pick(&S));
            let (p, q) = (*cx.pick(&Q), *cx.pick(&Q));
            let (d, e) = (*cx.pick(&[2usize, 8]), *cx.pick(&[2usize, 8]));
            let s = cx.flip();
            cx.note(|| format!("{} items, pattern {}, degree {}, {}; {} items, pattern {}, degree {}, new", n, PATTERNS[p], d, ctor(s), m, PATTERNS[q], e));
            let t = build::<Cnt>(&pattern(p, n), d, s);
            let u = build::<Cnt>(&pattern(q, m), e, true);
            let what = || format!("{} items ({}) degree {} with {} items ({}) degree {}", n, PATTERNS[p], d, m, PATTERNS[q], e);
            cross(cx, &t, &u, &what)?;
            cross(cx, &u, &t, &|| format!("{} exchanged", what()))
        }),
    });
    let sorted_n: Vec<usize> = vec![16, 64, 100, 256, 1000, 1024, 4096, 5000, 16384, 40000, 65536];
    fams.push(Family {
        name: "sorted",
        bound: "sorted indexes over a lattice, a row, a diagonal and a shuffled lattice of 16 to 65536 unit boxes, degrees 2, 4, 8, 16: a window at an item (every item up to 1024, every 61st beyond) takes coordinate operations proportional to degree x log n on average".into(),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&sorted_n);
            let kind = cx.choose(CELLS.len());
            let d = *cx.pick(&[2usize, 4, 8, 16]);
            let items: Vec<Item> = cells(kind, n).iter().map(|c| bx(c.0, c.1, c.0 + 2, c.1 + 2)).collect();
            cx.note(|| format!("{} boxes in a {}, degree {}", n, CELLS[kind], d));
            let t = build::<Cnt>(&items, d, true);
            let (mut total, mut asked) = (0u64, 0u64);
            for i in (0..n).step_by(if n <= 1024 { 1 } else { 61 }) {
                cx.op(1);
                let (got, ops) = count(|| t.find_intersection_candidates(env::<Cnt>(&items[i])));
                ensure!(got == [i], "window at item {} of {} yields {:?}", i, n, got);
                total += ops;
                asked += 1;
            }
            let per = total as f64 / asked as f64;
            let limit = 40. * d as f64 * (n as f64).log2();
            if std::env::var("MC_MEASURE").is_ok() {
                eprintln!("{:8.2} {} {} {}", per / limit, n, CELLS[kind], d);
            }
            ensure!(per <= limit, "{} boxes in a {}, degree {}: a window takes {:.0} coordinate operations on average", n, CELLS[kind], d, per);
            Ok(())
        }),
    });

    let mut ln: Vec<usize> = (2..if th { 1200 } else { 300 }).collect();
    ln.extend([512, 513, 1000, 1024, 4096, 4097, 10000, 16384, 32769, 65537]);
    fams.push(Family {
        name: "lines",
        bound: format!("monotone lines of 2..{} and up to 65537 positions (staircase, zigzag, straight, parabola, each as it is and reversed, in 8 directions), as linestring and as a multilinestring: at most {} n log2 n + {} coordinate operations", if th { 1200 } else { 300 }, LINE.0, LINE.1),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&ln);
            let kind = cx.choose(4);
            let e = *cx.pick(&[ID, MIRX, MIRY, SWAP, ROT45, SMALL, FAR, MIXED]);
            let rev = cx.flip();
            let mut l: Vec<P> = match kind {
                0 => stair(n),
                1 => zigzag(n),
                2 => (0..n as i64).map(|i| (2 * i, i)).collect(),
                _ => { let mut p = parabola(n); p.pop(); p }
            };
            if rev {
                l.reverse();
            }
            let name = ["staircase", "zigzag", "straight line", "parabola"][kind];
            cx.note(|| format!("{} of {} positions{}, {}", name, n, if rev { " reversed" } else { "" }, e.name));
            let a = e.line::<Cnt>(&l);
            cheap(cx, LINE, n, &|| format!("{} {}", name, e.name), || a.validate().is_ok())?;
            if n % 16 == 1 || n < 50 {
                let m = MultiLineString::new(vec![a]);
                cheap(cx, LINE, n, &|| format!("multilinestring {} {}", name, e.name), || m.validate().is_ok())?;
            }
            Ok(())
        }),
    });
    let mut pn: Vec<usize> = (1..if th { 400 } else { 120 }).collect();
    pn.extend([255, 256, 257, 512, 513, 1024, 4096, 4097, 16384]);
    fams.push(Family {
        name: "parts",
        bound: format!("1..{} and up to 16384 separate small parts in a row, column, lattice, diagonal and shuffled lattice: multilinestring, multipolygon, multipoint, polygon with these holes: at most {} n log2 n + {} coordinate operations", if th { 400 } else { 120 }, PARTS.0, PARTS.1),
        outcomes: &[],
        f: Box::new(move |cx| {
            let n = *cx.pick(&pn);
            let kind = cx.choose(CELLS.len());
            let g = cx.choose(5);
            let c = cells(kind, n);
            cx.note(|| format!("{} parts in a {}, kind {}", n, CELLS[kind], g));
            let what = |s: &'static str| move || format!("{} of parts in a {}", s, CELLS[kind]);
            let sq = |p: &P| rect(p.0, p.1, p.0 + 3, p.1 + 3);
            match g {
                0 => {
                    let m = MultiLineString::new(c.iter().map(|p| ID.line::<Cnt>(&[*p, (p.0 + 3, p.1 + 2), (p.0 + 1, p.1 + 3)])).collect());
                    cheap(cx, PARTS, n, &what("multilinestring"), || m.validate().is_ok())
                }
                1 => {
                    let m = MultiPolygon::new(c.iter().map(|p| ID.poly::<Cnt>(&sq(p), &[])).collect());
                    cheap(cx, PARTS, n, &what("multipolygon"), || m.validate().is_ok())
                }
                2 => {
                    let m = MultiPoint::new(c.iter().map(|p| Point(ID.pos::<Cnt>(*p))).collect());
                    cheap(cx, PARTS, n, &what("multipoint"), || m.validate().is_ok())
                }
                3 => {
                    let (x0, y0, x1, y1) = bounds(&c);
                    let p = Polygon::new(ID.line::<Cnt>(&rect(x0 - 9, y0 - 9, x1 + 9, y1 + 9)), c.iter().map(|p| ID.line::<Cnt>(&sq(p))).collect());
                    cheap(cx, PARTS, n, &what("polygon with holes"), || p.validate().is_ok())
                }
                _ => {
                    let m = MultiPolygon::new(c.iter().map(|p| ID.poly::<Cnt>(&sq(p), &[&rect(p.0 + 1, p.1 + 1, p.0 + 2, p.1 + 2)])).collect());
                    cheap(cx, PARTS, n, &what("multipolygon with holes"), || m.validate().is_ok())
                }
            }
        }),
    });

    let pts = Arc::new(grid(3, 3));
    let ln = if th { 6 } else { 5 };
    fams.push(Family {
        name: "usertype",
        bound: format!("all sequences of 0..={} points of the 3x3 grid, open and closed, as linestring, polygon and (cut in two) multilinestring: same verdict, envelope and boundary for a user-defined coordinate type as for f64; 5 embeddings", ln),
        outcomes: &["valid", "invalid"],
        f: Box::new(move |cx| {
            let n = cx.choose(ln + 1);
            let mut v: Vec<P> = (0..n).map(|_| *cx.pick(&pts)).collect();
            if n > 0 && cx.flip() {
                v.push(v[0]);
            }
            cx.note(|| format!("{:?}", v));
            for e in [ID, MIXZ, SMALL, FAR, ROT45] {
                let (a, b) = (e.line::<Cnt>(&v), e.line::<f64>(&v));
                cx.op(4);
                let (x, y) = (a.validate(), b.validate());
                cx.outcome(x.is_err() as usize);
                ensure!(x == y, "line {:?} {}: {:?} for the user type, {:?} for f64", v, e.name, x, y);
                ensure!(same(&item_of(&a.envelope()), &item_of(&b.envelope())), "line {:?} {}: envelopes {:?} and {:?}", v, e.name, a.envelope(), b.envelope());
                ensure!(a.boundary().is_empty() == b.boundary().is_empty(), "line {:?} {}: boundaries {:?} and {:?}", v, e.name, a.boundary(), b.boundary());
                let (x, y) = (Polygon::new(a, vec![]).validate(), Polygon::new(b, vec![]).validate());
                ensure!(x == y, "polygon {:?} {}: {:?} for the user type, {:?} for f64", v, e.name, x, y);
                if v.len() > 3 {
                    let h = v.len() / 2;
                    let (x, y) = (e.mls::<Cnt>(&[&v[..h], &v[h..]]).validate(), e.mls::<f64>(&[&v[..h], &v[h..]]).validate());
                    ensure!(x == y, "multilinestring {:?} cut at {} {}: {:?} for the user type, {:?} for f64", v, h, e.name, x, y);
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C26",
        assumptions: vec!["work is counted in arithmetic operations and comparisons of a counting coordinate type; the constants leave a factor of at least 4 above what is needed"],
        families: fams,
    })
}
