//! C21: validity does not depend on how a geometry is spelled or placed.
use magog::planar::primitives::Position;
use magog::planar::types::{LineString, MultiLineString, MultiPolygon, Polygon};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::{robust_line, robust_lines, P};
use mc::gen::*;
use std::sync::Arc;

type Q = (f64, f64);
type L = Vec<Q>;
#[derive(Clone, Debug, PartialEq)]
enum G {
    Line(L),
    Lines(Vec<L>),
    Poly(Vec<L>), // exterior first
    Polys(Vec<Vec<L>>),
}
fn lin(p: &[P]) -> L {
    p.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()
}
fn line<C: Co>(l: &L) -> LineString<C> {
    LineString::new(l.iter().map(|p| Position::new(C::of(p.0), C::of(p.1))).collect())
}
fn poly<C: Co>(v: &[L]) -> Polygon<C> {
    Polygon::new(line(&v[0]), v[1..].iter().map(line).collect())
}
fn valid<C: Co>(g: &G) -> bool {
    match g {
        G::Line(l) => line::<C>(l).validate().is_ok(),
        G::Lines(v) => MultiLineString::<C>::new(v.iter().map(line).collect()).validate().is_ok(),
        G::Poly(v) => poly::<C>(v).validate().is_ok(),
        G::Polys(v) => MultiPolygon::<C>::new(v.iter().map(|p| poly(p)).collect()).validate().is_ok(),
    }
}
fn map_lines(g: &G, f: &mut dyn FnMut(&L) -> L) -> G {
    match g {
        G::Line(l) => G::Line(f(l)),
        G::Lines(v) => G::Lines(v.iter().map(f).collect()),
        G::Poly(v) => G::Poly(v.iter().map(f).collect()),
        G::Polys(v) => G::Polys(v.iter().map(|p| p.iter().map(|l| f(l)).collect()).collect()),
    }
}
fn map(g: &G, f: impl Fn(Q) -> Q) -> G {
    map_lines(g, &mut |l| l.iter().map(|p| f(*p)).collect())
}
fn count(g: &G) -> usize {
    match g {
        G::Line(_) => 1,
        G::Lines(v) | G::Poly(v) => v.len(),
        G::Polys(v) => v.iter().map(|p| p.len()).sum(),
    }
}
/// Start a closed line at its k-th vertex.
fn turn(l: &L, k: usize) -> L {
    if l.len() < 2 || l[0] != l[l.len() - 1] {
        return l.clone();
    }
    let n = l.len() - 1;
    let mut r: L = (0..n).map(|i| l[(i + k) % n]).collect();
    r.push(r[0]);
    r
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// All orders of the parts (of the holes; of the polygons and the holes of one of them).
fn orders(g: &G) -> Vec<G> {
    let pick = |v: &[L], p: &[usize]| -> Vec<L> { p.iter().map(|&i| v[i].clone()).collect() };
    let holes = |v: &Vec<L>| -> Vec<Vec<L>> {
        permutations(v.len() - 1).iter().map(|p| { let mut r = vec![v[0].clone()]; r.extend(pick(&v[1..], p)); r }).collect()
    };
    match g {
        G::Line(_) => vec![],
        G::Lines(v) => permutations(v.len()).iter().map(|p| G::Lines(pick(v, p))).collect(),
        G::Poly(v) => holes(v).into_iter().map(G::Poly).collect(),
        G::Polys(v) => {
            let mut out = vec![];
            for p in permutations(v.len()) {
                out.push(G::Polys(p.iter().map(|&i| v[i].clone()).collect()));
            }
            for i in 0..v.len() {
                for h in holes(&v[i]) {
                    let mut w = v.clone();
                    w[i] = h;
                    out.push(G::Polys(w.clone()));
                    w.reverse();
                    out.push(G::Polys(w));
                }
            }
            out
        }
    }
}
/// The maps that are exact for every coordinate (short of overflow and underflow).
const LINEAR: [(&str, fn(Q) -> Q); 11] = [
    ("(-x,y)", |p| (-p.0, p.1)),
    ("(x,-y)", |p| (p.0, -p.1)),
    ("(-x,-y)", |p| (-p.0, -p.1)),
    ("(y,x)", |p| (p.1, p.0)),
    ("(-y,x)", |p| (-p.1, p.0)),
    ("(y,-x)", |p| (p.1, -p.0)),
    ("(-y,-x)", |p| (-p.1, -p.0)),
    ("2^-40(x,y)", |p| (p.0 * TINY, p.1 * TINY)),
    ("2^40(x,y)", |p| (p.0 * HUGE, p.1 * HUGE)),
    ("(2^20 x,y)", |p| (p.0 * 1048576., p.1)),
    ("-2^-30(y,x)", |p| (-p.1 / 1073741824., -p.0 / 1073741824.)),
];
/// Scales that only double precision has room for (products of two differences stay normal).
const REMOTE: [(&str, i32); 4] = [("2^-110(x,y)", -110), ("-2^-240(y,x)", -240), ("2^120(-x,y)", 120), ("2^400(x,y)", 400)];
fn remote(p: Q, e: i32) -> Q {
    let f = 2f64.powi(e);
    match e {
        -240 => (-p.1 * f, -p.0 * f),
        120 => (-p.0 * f, p.1 * f),
        _ => (p.0 * f, p.1 * f),
    }
}
const SHIFTS: [(f64, f64); 5] = [(1., -1.), (-2., -0.5), (1024., 4096.), (-65536., 0.), (0.25, -33.)];
const LONGSHIFTS: [(f64, f64); 3] = [(1048576., -1048576.), (-1099511627776., 3.), (0.5, 4294967296.)];

struct How {
    f32too: bool,
    spell: bool,  // rotations and reversals
    linear: bool, // maps
    shifts: bool,
}
const FULL: How = How { f32too: true, spell: true, linear: true, shifts: true };

fn judge(cx: &mut Cx, g: &G, how: &How) -> R {
    cx.note(|| format!("{:?}", g));
    cx.op(1);
    let base = valid::<f64>(g);
    cx.outcome(base as usize);
    let word = |b: bool| if b { "valid" } else { "invalid" };
    macro_rules! same {
        ($c:ty, $h:expr, $($a:tt)*) => {{
            cx.op(1);
            let h = $h;
            let v = valid::<$c>(&h);
            ensure!(v == base, "{:?} is {} but {} in {}: {:?} is {}", g, word(base), format!($($a)*), <$c as Co>::NAME, h, word(v));
        }};
    }
    if how.f32too {
        same!(f32, g.clone(), "the same");
    }
    for (i, h) in orders(g).into_iter().enumerate() {
        same!(f64, h, "in order {}", i);
    }
    if how.spell {
        let n = count(g);
        for k in 0..n {
            let mut len = 0;
            let mut at = 0;
            map_lines(g, &mut |l| { if at == k { len = l.len() } at += 1; l.clone() });
            for t in 0..len.max(2) - 1 {
                for rev in [false, true] {
                    let mut at = 0;
                    let h = map_lines(g, &mut |l| {
                        at += 1;
                        if at - 1 != k {
                            return l.clone();
                        }
                        let mut r = turn(l, t);
                        if rev {
                            r.reverse();
                        }
                        r
                    });
                    if h == *g {
                        continue;
                    }
                    if how.f32too {
                        same!(f32, h.clone(), "with line {} started at {}{}", k, t, if rev { " and reversed" } else { "" });
                    }
                    same!(f64, h, "with line {} started at {}{}", k, t, if rev { " and reversed" } else { "" });
                }
            }
        }
        let h = map_lines(g, &mut |l| { let mut r = l.clone(); r.reverse(); r });
        same!(f64, h, "with all lines reversed");
    }
    if how.linear {
        for (name, f) in &LINEAR {
            let h = map(g, f);
            if how.f32too {
                same!(f32, h.clone(), "mapped by {}", name);
            }
            same!(f64, h, "mapped by {}", name);
        }
        for (name, e) in &REMOTE {
            same!(f64, map(g, |p| remote(p, *e)), "mapped by {}", name);
        }
    }
    if how.shifts {
        for d in SHIFTS {
            let h = map(g, |p| (p.0 + d.0, p.1 + d.1));
            if how.f32too && d.0.abs() < 5000. {
                same!(f32, h.clone(), "moved by {:?}", d);
            }
            same!(f64, h, "moved by {:?}", d);
        }
        for d in LONGSHIFTS {
            same!(f64, map(g, |p| (p.0 + d.0, p.1 + d.1)), "moved by {:?}", d);
        }
    }
    Ok(())
}
fn cat(pts: &[P], ns: &[usize], straight: bool) -> Vec<L> {
    ns.iter().flat_map(|n| rings(pts, *n, false, straight)).map(|r| lin(&r)).collect()
}

fn cat_p(pts: &[P], ns: &[usize]) -> Vec<Vec<P>> {
    ns.iter().flat_map(|n| rings(pts, *n, false, false)).collect()
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    let out: &[&str] = &["invalid", "valid"];

    let g3 = grid(3, 3);
    let n = if th { 6 } else { 5 };
    fams.push(Family {
        name: "lines",
        bound: format!("every sequence of up to {} positions of the 3x3 grid, as it is and closed: every start, both directions, 15 exact linear maps, 8 translations, f64 and f32", n),
        outcomes: out,
        f: Box::new(move |cx| {
            let k = cx.choose(n + 1);
            let mut s: Vec<P> = (0..k).map(|_| *cx.pick(&g3)).collect();
            if k > 0 && cx.flip() {
                s.push(s[0]);
            }
            judge(cx, &G::Line(lin(&s)), &FULL)
        }),
    });

    let mut small: Vec<L> = vec![];
    let g = grid(3, 3);
    for n in [2usize, 3] {
        small.extend(lines(&g, n).iter().map(|l| lin(l)));
    }
    small.extend(cat(&g, if th { &[3, 4] } else { &[3] }, false));
    small.push(vec![]);
    let small = Arc::new(small);
    let s = small.clone();
    fams.push(Family {
        name: "twolines",
        bound: format!("every pair of {} lines of 2 or 3 positions and rings of the 3x3 grid: both orders, every start and direction of each, maps and translations", s.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&s).clone();
            let b = cx.pick(&s).clone();
            judge(cx, &G::Lines(vec![a, b]), &FULL)
        }),
    });
    let few: Arc<Vec<L>> = {
        let g = if th { grid(3, 3) } else { grid(3, 2) };
        let mut v: Vec<L> = lines(&g, 2).iter().map(|l| lin(l)).collect();
        v.extend(cat(&g, &[3], false));
        if th {
            v.truncate(60);
        }
        Arc::new(v)
    };
    let s = few.clone();
    fams.push(Family {
        name: "threelines",
        bound: format!("every triple of {} two-point lines and triangles: all orders, every start and direction", s.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let v: Vec<L> = (0..3).map(|_| cx.pick(&s).clone()).collect();
            judge(cx, &G::Lines(v), &How { f32too: false, linear: false, ..FULL })
        }),
    });

    let rings3 = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5, 6, 7] } else { &[3, 4, 5] }, true));
    let r = rings3.clone();
    fams.push(Family {
        name: "onehole",
        bound: format!("every ordered pair of the {} rings of the 3x3 grid as exterior and hole: every start and direction, maps, translations", r.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&r).clone();
            let b = cx.pick(&r).clone();
            judge(cx, &G::Poly(vec![a, b]), &FULL)
        }),
    });
    let holes = Arc::new({
        let mut v = cat(&if th { grid(4, 4) } else { grid(3, 3) }, &[3], false).into_iter().map(|l| l.into_iter().map(|p| (p.0 + 1., p.1 + 1.)).collect()).collect::<Vec<L>>();
        v.extend([lin(&rect(1, 1, 2, 2)), lin(&rect(3, 1, 4, 3)), lin(&rect(1, 2, 4, 4)), lin(&rect(0, 0, 5, 5)), lin(&rect(2, 2, 3, 3))]);
        v
    });
    let ext: Arc<Vec<L>> = Arc::new(vec![lin(&rect(0, 0, 5, 5)), lin(&[(0, 0), (6, 0), (6, 6), (3, 3), (0, 6), (0, 0)]), lin(&rect(1, 1, 4, 4))]);
    let (h, e) = (holes.clone(), ext.clone());
    let every = if th { 23 } else { 7 };
    fams.push(Family {
        name: "manyholes",
        bound: format!("3 exteriors with every ordered pair of the {} triangles and rectangles on an inner grid as holes, and triples with every {}th as third: all hole orders, every start and direction", h.len(), every),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&e).clone();
            let i = cx.choose(h.len());
            let j = cx.choose(h.len());
            let mut v = vec![a, h[i].clone(), h[j].clone()];
            if cx.flip() {
                let m = every;
                let k = cx.choose((h.len() + m - 1) / m);
                v.push(h[k * m].clone());
            }
            judge(cx, &G::Poly(v), &How { linear: false, shifts: false, f32too: false, spell: true })
        }),
    });

    let tri = Arc::new(cat(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }, true));
    let t = tri.clone();
    fams.push(Family {
        name: "twopolys",
        bound: format!("every pair of the {} rings of 3 or 4 vertices of the 3x3 grid as polygons: both orders, every start and direction, maps, translations", t.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&t).clone();
            let b = cx.pick(&t).clone();
            judge(cx, &G::Polys(vec![vec![a], vec![b]]), &FULL)
        }),
    });
    // polygons with holes, nested, in groups
    let group: Arc<Vec<Vec<L>>> = Arc::new(vec![
        vec![lin(&rect(0, 0, 10, 10)), lin(&rect(1, 1, 5, 9)), lin(&rect(6, 1, 9, 9))],
        vec![lin(&rect(2, 2, 4, 4))],
        vec![lin(&rect(2, 5, 4, 8)), lin(&rect(3, 6, 4, 7))],
        vec![lin(&rect(7, 2, 8, 8))],
        vec![lin(&rect(3, 2, 7, 4))],
        vec![lin(&rect(11, 0, 14, 3))],
        vec![lin(&rect(10, 10, 12, 12))],
        vec![lin(&rect(-2, -2, 14, 14)), lin(&rect(-1, -1, 13, 13))],
        vec![lin(&rect(0, 0, 10, 10))],
        vec![lin(&[(5, 1), (9, 5), (5, 9), (1, 5), (5, 1)])],
        vec![lin(&rect(1, 1, 5, 9))],
        vec![lin(&rect(1, 1, 5, 9)), lin(&rect(2, 2, 4, 4))],
    ]);
    let gr = group.clone();
    let m = if th { 4 } else { 3 };
    fams.push(Family {
        name: "polygroups",
        bound: format!("every list of up to {} of {} polygons with and without holes (nested in holes, beside, overlapping): all orders of polygons and holes, every start and direction, maps", m, gr.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = cx.choose(m + 1);
            let v: Vec<Vec<L>> = (0..n).map(|_| cx.pick(&gr).clone()).collect();
            judge(cx, &G::Polys(v), &FULL)
        }),
    });

    let most: Vec<usize> = if th { (1..=24).chain([31, 32, 33, 40, 63, 64, 65, 100]).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65] };
    fams.push(Family {
        name: "manyholed",
        bound: format!("a polygon with {:?} holes (squares, diamonds, triangles) with a small polygon in the j-th hole, filling it, on its side, in the body, touching or outside, and with another one in the first or last hole, for every j: listed before and after the host, the holes rotated to every start (to six of them for more than 9 holes, unless thorough) and reversed", most),
        outcomes: out,
        f: Box::new(move |cx| {
            let n = *cx.pick(&most);
            let shape = cx.choose(3);
            let j = cx.choose(n);
            let w = (1..).find(|w| w * w >= n).unwrap() as i64;
            let at = |i: usize| (6 * (i as i64 % w), 6 * (i as i64 / w));
            let hole = |i: usize, k: i64| -> L {
                let (x, y) = at(i);
                let r = match shape {
                    0 => rect(x + k, y + k, x + 4 - k, y + 4 - k),
                    1 => vec![(x + 2, y + k), (x + 4 - k, y + 2), (x + 2, y + 4 - k), (x + k, y + 2), (x + 2, y + k)],
                    _ => vec![(x + k, y + k), (x + 4 - 2 * k, y + k), (x + k, y + 4 - 2 * k), (x + k, y + k)],
                };
                lin(&r)
            };
            let (x, y) = at(j);
            let ext = lin(&rect(-2, -2, 6 * w, 6 * w));
            let island = match cx.choose(7) {
                0 => hole(j, 1),
                1 => hole(j, 0),
                2 => lin(&rect(x + 1, y - 1, x + 3, y + 1)),   // across the side of the hole, or about its corner
                3 => lin(&rect(x - 1, y - 1, x + 5, y + 5)),   // about the hole
                4 => lin(&rect(x + 5, y + 4, x + 6, y + 5)),   // in the body or outside at the edge
                5 => lin(&[(x, y), (x + 1, y + 1), (x + 1, y), (x, y)]),
                _ => lin(&rect(6 * w + 1, y, 6 * w + 2, y + 1)),
            };
            let more = match cx.choose(3) {
                0 => None,
                1 => Some(hole(0, 1)),
                _ => Some(hole(n - 1, 1)),
            };
            let host: Vec<L> = (0..n).map(|i| hole(i, 0)).collect();
            let spelled = |t: usize, rev: bool, order: usize| -> G {
                let mut h = host.clone();
                h.rotate_left(t);
                if rev { h.reverse() }
                let mut p = vec![ext.clone()];
                p.extend(h);
                let mut v = vec![p, vec![island.clone()]];
                v.extend(more.iter().map(|m| vec![m.clone()]));
                let k = v.len();
                v.rotate_left(order % k);
                G::Polys(v)
            };
            let base = valid::<f64>(&spelled(0, false, 0));
            cx.note(|| format!("{} holes (shape {}), island {:?}, another {:?}", n, shape, island, more));
            cx.outcome(base as usize);
            for t in 0..n {
                if n > 9 && !th && ![0, 1, j, n / 2, n - 1, (j + 1) % n].contains(&t) {
                    continue;
                }
                for rev in [false, true] {
                    for order in 0..2 + more.is_some() as usize {
                        cx.op(1);
                        let g = spelled(t, rev, order);
                        let v = valid::<f64>(&g);
                        ensure!(v == base, "{:?} is valid: {}, but with its holes rotated by {}{} and the polygons by {} valid: {}", spelled(0, false, 0), base, t, if rev { " and reversed" } else { "" }, order, v);
                    }
                }
            }
            if n <= 4 {
                judge(cx, &spelled(n / 2, false, 1), &How { f32too: true, spell: false, linear: true, shifts: true })?;
            }
            Ok(())
        }),
    });

    let top = if th { 150 } else { 70 };
    fams.push(Family {
        name: "long",
        bound: format!("zigzag, spiral and comb rings and open lines of every size up to {} (also with a defect at each eighth of the ring), as line, exterior and polygon pair: every start, both directions, maps, translations", top),
        outcomes: out,
        f: Box::new(move |cx| {
            let k = 1 + cx.choose(top);
            let mut r = match cx.choose(5) {
                0 => zigzag_ring(k + 2),
                1 => comb(k),
                2 => spiral(k + 1),
                3 => zigzag(k + 1),
                _ => stair(k + 1),
            };
            if r.len() > 2 * top + 4 {
                return Ok(());
            }
            let d = cx.choose(4);
            if d > 0 {
                // move one vertex onto another one
                let n = r.len();
                let i = (n * d) / 4;
                if i + 1 >= n || n < 8 {
                    return Ok(());
                }
                r[i] = r[(i + n / 2) % (n - 1)];
            }
            let l = lin(&r);
            let how = How { f32too: false, ..FULL };
            match cx.choose(3) {
                0 => judge(cx, &G::Line(l), &how),
                1 => judge(cx, &G::Poly(vec![l]), &how),
                _ => {
                    let c = l.iter().map(|p| (p.0 + 0.5, p.1)).collect();
                    judge(cx, &G::Lines(vec![l, c]), &How { spell: k % 10 == 0, ..how })
                }
            }
        }),
    });

    // coordinates that are not exact, where rounding cannot decide
    let n = if th { 6 } else { 5 };
    let g3 = grid(3, 3);
    fams.push(Family {
        name: "decimal-lines",
        bound: format!("every sequence of 3..={} positions of the 3x3 grid times 0.1, 1/3 and -0.7, open and closed, in which no end point touches the inside of a segment: every start and direction, 15 linear maps", n),
        outcomes: out,
        f: Box::new(move |cx| {
            let k = 3 + cx.choose(n - 2);
            let mut s: Vec<P> = (0..k).map(|_| *cx.pick(&g3)).collect();
            if cx.flip() {
                s.push(s[0]);
            }
            if !robust_line(&s) {
                return Ok(());
            }
            for f in [0.1, 1. / 3., -0.7] {
                let l = s.iter().map(|p| (p.0 as f64 * f, p.1 as f64 * f)).collect();
                judge(cx, &G::Line(l), &How { shifts: false, ..FULL })?;
            }
            Ok(())
        }),
    });
    let t = Arc::new(cat_p(&grid(3, 3), if th { &[3, 4, 5] } else { &[3, 4] }));
    fams.push(Family {
        name: "decimal-rings",
        bound: format!("every pair of the {} rings of the 3x3 grid, the second shifted by (1,1), as exterior and hole and as two polygons, times 0.1, 1/3 and -0.7, where no vertex touches the inside of a side", t.len()),
        outcomes: out,
        f: Box::new(move |cx| {
            let a = cx.pick(&t);
            let b = shift(cx.pick(&t), (1, 1));
            let b = if cx.flip() { a.iter().map(|p| (p.0 * 4 - 2, p.1 * 4 - 2)).collect::<Vec<P>>() } else { b };
            if !robust_line(a) || !robust_line(&b) || !robust_lines(a, &b) {
                return Ok(());
            }
            let polys = cx.flip();
            for f in [0.1, 1. / 3., -0.7] {
                let m = |v: &[P]| -> L { v.iter().map(|p| (p.0 as f64 * f, p.1 as f64 * f)).collect() };
                let g = if polys { G::Polys(vec![vec![m(a)], vec![m(&b)]]) } else { G::Poly(vec![m(&b), m(a)]) };
                judge(cx, &g, &How { shifts: false, ..FULL })?;
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C21",
        assumptions: vec!["maps are exact on the coordinates used (checked arithmetic is that of the exact image); single precision only where every coordinate, difference and product is exact"],
        families: fams,
    })
}
