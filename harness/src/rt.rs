//! Item sets for the r-tree checks, with a plain-list model.
use crate::adapt::Co;
use crate::engine::Cx;
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, Position};

/// Corners as written (min first), None = the empty envelope.  NaN allowed.
pub type Item = Option<[f64; 4]>;

pub fn bx(x0: i64, y0: i64, x1: i64, y1: i64) -> Item {
    Some([x0 as f64, y0 as f64, x1 as f64, y1 as f64])
}
/// Closed boxes share a point; NaN never does, the empty envelope never does.
pub fn meet(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
        _ => false,
    }
}
fn lo(a: f64, b: f64) -> f64 {
    if a.is_nan() || b < a { b } else { a }
}
fn hi(a: f64, b: f64) -> f64 {
    if a.is_nan() || b > a { b } else { a }
}
pub fn union(a: &Item, b: &Item) -> Item {
    match (a, b) {
        (None, x) | (x, None) => *x,
        (Some(a), Some(b)) => Some([lo(a[0], b[0]), lo(a[1], b[1]), hi(a[2], b[2]), hi(a[3], b[3])]),
    }
}
pub fn union_all<'a>(it: impl Iterator<Item = &'a Item>) -> Item {
    it.fold(None, |a, b| union(&a, b))
}
pub fn env<C: Co>(a: &Item) -> Envelope<C> {
    match a {
        None => Envelope::Empty,
        Some(v) => Envelope::Bounds {
            min: Position::new(C::of(v[0]), C::of(v[1])),
            max: Position::new(C::of(v[2]), C::of(v[3])),
        },
    }
}
pub fn envs<C: Co>(v: &[Item]) -> Vec<Envelope<C>> {
    v.iter().map(env).collect()
}
pub fn item_of<C: Co>(e: &Envelope<C>) -> Item {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some([min.x.f(), min.y.f(), max.x.f(), max.y.f()]),
    }
}
/// Equal as envelopes, NaN equal to NaN, -0.0 to 0.0.
pub fn same(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.iter().zip(b.iter()).all(|(x, y)| x == y || (x.is_nan() && y.is_nan())),
        _ => false,
    }
}
pub fn build<C: Co>(items: &[Item], degree: usize, sorted: bool) -> Flatbush<C> {
    let e = envs::<C>(items);
    if sorted {
        Flatbush::new(&e, degree)
    } else {
        Flatbush::new_unsorted(&e, degree)
    }
}
pub fn show(items: &[Item]) -> String {
    if items.len() > 40 {
        format!("{} items, first {}", items.len(), show(&items[..10]))
    } else {
        let v: Vec<String> = items
            .iter()
            .map(|i| match i {
                None => "empty".into(),
                Some(b) => format!("[{:?} {:?} {:?} {:?}]", b[0], b[1], b[2], b[3]),
            })
            .collect();
        v.join(" ")
    }
}

/// All closed rectangles (degenerate ones included) with corners on the w x h grid, and empty.
pub fn small_items(w: i64, h: i64) -> Vec<Item> {
    let mut v = vec![None];
    for x0 in 0..w {
        for x1 in x0..w {
            for y0 in 0..h {
                for y1 in y0..h {
                    v.push(bx(x0, y0, x1, y1));
                }
            }
        }
    }
    v
}

pub const PATTERNS: [&str; 18] = [
    "row", "column", "diagonal", "lattice", "overlapping row", "overlapping diagonal", "all equal", "nested",
    "nested, reversed", "scattered", "scattered, every 3rd empty", "two clusters", "points in a lattice, reversed",
    "one covering everything first", "one covering everything last", "all empty but one", "crosses", "one NaN, rest scattered",
];
/// n items of a pattern; integer coordinates (doubled so that there are positions between them).
pub fn pattern(k: usize, n: usize) -> Vec<Item> {
    let w = (n as f64).sqrt().ceil() as i64;
    let w = w.max(1);
    let m = n as i64;
    let mut seed: u64 = 12345 + 977 * n as u64;
    let mut rnd = move |k: i64| -> i64 {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as i64) % k
    };
    let mut scat = |i: i64| {
        let s = 4 * w;
        let (x, y) = (rnd(s), rnd(s));
        let (a, b) = if i % 7 == 0 { (rnd(s), rnd(s)) } else { (rnd(4), rnd(4)) };
        bx(x, y, x + a, y + b)
    };
    (0..m)
        .map(|i| match k {
            0 => bx(4 * i, 0, 4 * i + 2, 2),
            1 => bx(0, 4 * i, 2, 4 * i + 2),
            2 => bx(2 * i, 2 * i, 2 * i + 2, 2 * i + 2),
            3 => bx(4 * (i % w), 4 * (i / w), 4 * (i % w) + 2, 4 * (i / w) + 2),
            4 => bx(2 * i, 0, 2 * i + 7, 1),
            5 => bx(3 * i, -3 * i, 3 * i + 8, -3 * i + 8),
            6 => bx(2, 2, 6, 4),
            7 => bx(2 * i, 2 * i, 4 * m - 2 * i, 4 * m - 2 * i),
            8 => bx(2 * (m - 1 - i), 2 * (m - 1 - i), 4 * m - 2 * (m - 1 - i), 4 * m - 2 * (m - 1 - i)),
            9 => scat(i),
            10 => {
                let b = scat(i);
                if i % 3 == 1 { None } else { b }
            }
            11 => {
                let b = bx(2 * (i % 5), 2 * (i / 5), 2 * (i % 5) + 2, 2 * (i / 5) + 2).unwrap();
                if i % 2 == 0 { Some(b) } else { Some([b[0] + 1e4, b[1] + 1e4, b[2] + 1e4, b[3] + 1e4]) }
            }
            12 => {
                let j = m - 1 - i;
                bx(2 * (j % w), 2 * (j / w), 2 * (j % w), 2 * (j / w))
            }
            13 => if i == 0 { bx(-2, -2, 8 * w, 8 * w) } else { scat(i) },
            14 => if i == m - 1 { bx(-2, -2, 8 * w, 8 * w) } else { scat(i) },
            15 => if i == m / 2 { bx(2, 2, 4, 4) } else { None },
            16 => if i % 2 == 0 { bx(2 * i, 0, 2 * i, 4 * m) } else { bx(0, 2 * i, 4 * m, 2 * i) },
            _ => {
                let b = scat(i);
                if i == m / 3 { Some([f64::NAN, 1., f64::NAN, 2.]) } else { b }
            }
        })
        .collect()
}
/// Items with every kind of unusual coordinate (all representable in f32).
pub fn special_items() -> Vec<Item> {
    let (n, i) = (f64::NAN, f64::INFINITY);
    vec![
        None,
        Some([0., 0., 2., 2.]),
        Some([-0.0, -0.0, 0., 0.]),
        Some([2., 2., 2., 2.]),
        Some([1., -i, 3., i]),
        Some([-i, -i, i, i]),
        Some([i, 1., i, 1.]),
        Some([-i, 0., -1., 1.]),
        Some([n, 0., n, 2.]),
        Some([n, n, n, n]),
        Some([-1., n, 1., n]),
        Some([1e30, 1e30, 2e30, 2e30]),
        Some([1e-30, -1e-30, 2e-30, 0.]),
        Some([-3e38, -3e38, 3e38, 3e38]),
        Some([3e38, 3e38, 3e38, 3e38]),
    ]
}
/// Choose the number of items in 0..=max and the items from `alpha`.
pub fn choose_items(cx: &mut Cx, alpha: &[Item], max: usize) -> Vec<Item> {
    let n = cx.choose(max + 1);
    (0..n).map(|_| *cx.pick(alpha)).collect()
}
/// The windows that meet at most a thousand of the items.
pub fn narrow(items: &[Item], windows: Vec<Item>) -> Vec<Item> {
    windows.into_iter().filter(|w| items.iter().filter(|i| meet(i, w)).take(1001).count() <= 1000).collect()
}
/// A systematic set of query windows for the items.
pub fn windows(items: &[Item], many: usize) -> Vec<Item> {
    let all = union_all(items.iter());
    let mut w: Vec<Item> = vec![None, all];
    if let Some(a) = all {
        let (x0, y0, x1, y1) = (a[0], a[1], a[2], a[3]);
        w.push(Some([x0 - 5., y0, x0 - 1., y1]));
        w.push(Some([x0 - 5., y0, x0, y0]));
        w.push(Some([x1, y1, x1 + 5., y1 + 5.]));
        w.push(Some([x1 + 1., y1 + 1., x1 + 5., y1 + 5.]));
        w.push(Some([f64::NEG_INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::INFINITY]));
        for i in 1..4 {
            let (fx, fy) = ((x0 + (x1 - x0) * i as f64 / 4.).floor(), (y0 + (y1 - y0) * i as f64 / 4.).floor());
            w.push(Some([fx, y0, fx, y1]));
            w.push(Some([x0, fy, x1, fy]));
            w.push(Some([x0, y0, fx, fy]));
            w.push(Some([fx, fy, x1, y1]));
        }
    }
    let n = items.len();
    let step = 1 + n / many.max(1);
    for i in (0..n).step_by(step).chain(n.checked_sub(1)) {
        if let Some(b) = items[i] {
            w.push(Some(b));
            w.push(Some([b[0], b[1], b[0], b[1]]));
            w.push(Some([b[2], b[3], b[2], b[3]]));
            w.push(Some([b[2] + 1., b[1], b[2] + 1., b[3]]));
            w.push(Some([b[0] - 1., b[3] + 1., b[0], b[3] + 2.]));
            if let Some(Some(c)) = items.get((i * 7 + 3) % n) {
                w.push(Some([b[0].min(c[0]), b[1].min(c[1]), b[2].min(c[2]), b[3].min(c[3])]));
            }
        }
    }
    w.retain(|i| i.map_or(true, |b| !b.iter().any(|x| x.is_nan()) && b[0] <= b[2] && b[1] <= b[3]));
    w
}

/// Numbers past the end of n items, also such as become small when cut to 8, 16, 31, 32 or 63 bits.
pub fn beyond(n: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, n + 7, usize::MAX, usize::MAX - 1];
    for b in [8, 16, 31, 32, 40, 48, 63] {
        v.extend([0, 1, n / 2].iter().map(|k| (1usize << b) + k).filter(|i| *i >= n));
    }
    v
}
