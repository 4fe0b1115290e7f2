//! Small catalogues of rings and polylines on an integer grid, themselves produced exhaustively.
use crate::exact::*;

pub fn grid(w: i64, h: i64) -> Vec<P> {
    let mut v = vec![];
    for y in 0..h {
        for x in 0..w {
            v.push((x, y));
        }
    }
    v
}

/// All sequences of `n` points of `pts` that satisfy `ok` on every prefix.
pub fn seqs(pts: &[P], n: usize, ok: &dyn Fn(&[P]) -> bool) -> Vec<Vec<P>> {
    fn rec(pts: &[P], n: usize, ok: &dyn Fn(&[P]) -> bool, cur: &mut Vec<P>, out: &mut Vec<Vec<P>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for &p in pts {
            cur.push(p);
            if ok(cur) {
                rec(pts, n, ok, cur, out);
            }
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(pts, n, ok, &mut vec![], &mut out);
    out
}

/// All simple polygons with exactly `n` vertices on the points, one representative per cyclic
/// rotation (smallest vertex first), both orientations if `both`, closed (first point repeated).
/// Vertices with a straight angle are included when `straight`.
pub fn rings(pts: &[P], n: usize, both: bool, straight: bool) -> Vec<Vec<P>> {
    let ok = |c: &[P]| -> bool {
        let k = c.len();
        if k > 1 && c[k - 1] <= c[0] {
            return false;
        }
        if k >= 2 && !line_valid(c) {
            return false;
        }
        if !straight && k >= 3 && orient(c[k - 3], c[k - 2], c[k - 1]) == 0 {
            return false;
        }
        true
    };
    seqs(pts, n, &ok)
        .into_iter()
        .filter_map(|mut r| {
            if !straight && (orient(r[n - 2], r[n - 1], r[0]) == 0 || orient(r[n - 1], r[0], r[1]) == 0) {
                return None;
            }
            let f = r[0];
            r.push(f);
            if !ring_valid(&r) {
                return None;
            }
            if !both && area2(&r) < 0 {
                return None;
            }
            Some(r)
        })
        .collect()
}

/// All simple polylines with `n` points (closed ones included when n >= 4).
pub fn lines(pts: &[P], n: usize) -> Vec<Vec<P>> {
    seqs(pts, n, &|c: &[P]| {
        if c.len() < 2 {
            return true;
        }
        // a proper prefix must be simple and open
        if c.len() < n && c[0] == c[c.len() - 1] {
            return false;
        }
        line_valid(c)
    })
}

/// Rotate the start of a closed ring by k and optionally reverse it.
pub fn respell(r: &[P], k: usize, rev: bool) -> Vec<P> {
    if r.is_empty() {
        return vec![];
    }
    let n = r.len() - 1;
    let mut v: Vec<P> = (0..n).map(|i| r[(i + k) % n]).collect();
    if rev {
        v.reverse();
    }
    v.push(v[0]);
    v
}
pub fn shift(r: &[P], d: P) -> Vec<P> {
    r.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect()
}
pub fn scale(r: &[P], k: i64) -> Vec<P> {
    r.iter().map(|p| (p.0 * k, p.1 * k)).collect()
}
pub fn rect(x0: i64, y0: i64, x1: i64, y1: i64) -> Vec<P> {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]
}

/// Trace the outline of a set of unit cells that is simply connected and has no two cells meeting
/// only at a corner.  Counter-clockwise, vertices only where the direction changes, closed.
pub fn outline(cells: &[P]) -> Vec<P> {
    let set: std::collections::HashSet<P> = cells.iter().copied().collect();
    let start = *cells.iter().min_by_key(|c| (c.1, c.0)).unwrap();
    // walk along edges with the filled cell on the left; start along the bottom edge, eastwards
    let dirs: [P; 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let left = |p: P, d: usize| -> P {
        match d {
            0 => (p.0, p.1),
            1 => (p.0 - 1, p.1),
            2 => (p.0 - 1, p.1 - 1),
            _ => (p.0, p.1 - 1),
        }
    };
    let mut p = start;
    let mut d = 0;
    let mut out = vec![p];
    loop {
        p = (p.0 + dirs[d].0, p.1 + dirs[d].1);
        // left turn, straight on, or right turn
        let mut nd = None;
        for t in [3usize, 0, 1] {
            let e = (d + t) % 4;
            // right side cell of edge e must be empty, left filled
            let l = left(p, e);
            let r = left((p.0 + dirs[e].0, p.1 + dirs[e].1), (e + 2) % 4);
            if set.contains(&l) && !set.contains(&r) {
                nd = Some(e);
                break;
            }
        }
        let nd = nd.expect("MC-HARNESS outline");
        if p == start && nd == 0 {
            break;
        }
        if nd != d {
            out.push(p);
        }
        d = nd;
    }
    out.push(start);
    out
}

/// All fixed polyominoes with n cells that are simply connected and free of corner contacts,
/// as closed counter-clockwise rings.
pub fn polyominoes(n: usize) -> Vec<Vec<P>> {
    use std::collections::BTreeSet;
    let mut cur: BTreeSet<Vec<P>> = BTreeSet::new();
    cur.insert(vec![(0, 0)]);
    for _ in 1..n {
        let mut nx = BTreeSet::new();
        for c in &cur {
            for p in c {
                for d in [(1, 0), (-1, 0), (0, 1), (0, -1)] {
                    let q = (p.0 + d.0, p.1 + d.1);
                    if c.contains(&q) {
                        continue;
                    }
                    let mut v = c.clone();
                    v.push(q);
                    let mx = v.iter().map(|a| a.0).min().unwrap();
                    let my = v.iter().map(|a| a.1).min().unwrap();
                    for a in v.iter_mut() {
                        *a = (a.0 - mx, a.1 - my);
                    }
                    v.sort();
                    nx.insert(v);
                }
            }
        }
        cur = nx;
    }
    cur.into_iter()
        .map(|c| outline(&c))
        .filter(|r| ring_valid(r) && area2(r) == 2 * n as i128)
        .collect()
}

/// Rectangular outward spiral, open, n vertices (n >= 2), spacing 2.
pub fn spiral(n: usize) -> Vec<P> {
    let dirs: [P; 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut p = (0i64, 0i64);
    let mut v = vec![p];
    let mut len = 2;
    let mut k = 0;
    while v.len() < n {
        let d = dirs[k % 4];
        p = (p.0 + d.0 * len, p.1 + d.1 * len);
        v.push(p);
        k += 1;
        if k % 2 == 0 {
            len += 2;
        }
    }
    v
}
/// Open zigzag with n vertices.
pub fn zigzag(n: usize) -> Vec<P> {
    (0..n as i64).map(|i| (2 * i, if i % 2 == 0 { 0 } else { 6 })).collect()
}
/// Open staircase with n vertices (axis parallel).
pub fn stair(n: usize) -> Vec<P> {
    (0..n as i64).map(|i| (2 * ((i + 1) / 2), 2 * (i / 2))).collect()
}
/// Convex ring with n vertices on a parabola (closed, counter-clockwise).
pub fn parabola(n: usize) -> Vec<P> {
    let m = n as i64 / 2;
    let mut v: Vec<P> = (0..n as i64).map(|i| (2 * (i - m), 2 * (i - m) * (i - m))).collect();
    v.push(v[0]);
    v
}
/// Comb-shaped ring: a bar with `t` teeth pointing up (closed, counter-clockwise), 4t vertices.
pub fn comb(t: usize) -> Vec<P> {
    let t = t as i64;
    let mut v = vec![(0, 0), (8 * t - 4, 0)];
    for i in (0..t).rev() {
        let x = 8 * i;
        if i == t - 1 {
            v.push((x + 4, 12));
        } else {
            v.push((x + 4, 4));
            v.push((x + 4, 12));
        }
        v.push((x, 12));
        if i > 0 {
            v.push((x, 4));
        }
    }
    v.push(v[0]);
    v
}
/// Ring of a spiral-shaped corridor: outline of a spiral of unit cells with one-cell gaps, times k.
pub fn spiral_ring(turns: usize, k: i64) -> Vec<P> {
    let p = spiral(turns + 1);
    let mut cells = vec![p[0]];
    for s in p.windows(2) {
        let d = ((s[1].0 - s[0].0).signum(), (s[1].1 - s[0].1).signum());
        let mut c = s[0];
        while c != s[1] {
            c = (c.0 + d.0, c.1 + d.1);
            cells.push(c);
        }
    }
    scale(&outline(&cells), k)
}
/// Ring between two parallel zigzags (closed), 2n vertices.
pub fn zigzag_ring(n: usize) -> Vec<P> {
    let lo = zigzag(n);
    let mut v = lo.clone();
    v.extend(lo.iter().rev().map(|p| (p.0, p.1 + 4)));
    v.push(v[0]);
    if area2(&v) < 0 {
        v.reverse();
    }
    v
}
/// Remove closing point, insert the midpoint of every side (straight-angle vertices); input must
/// have even coordinates.
pub fn subdivide(r: &[P]) -> Vec<P> {
    let mut v = vec![];
    for s in r.windows(2) {
        v.push(s[0]);
        v.push(((s[0].0 + s[1].0) / 2, (s[0].1 + s[1].1) / 2));
    }
    v.push(r[r.len() - 1]);
    v
}
/// The same curve m times as large with every segment cut into k equal pieces (k divides m).
pub fn cut(r: &[P], m: i64, k: i64) -> Vec<P> {
    let mut v = vec![];
    for s in r.windows(2) {
        for i in 0..k {
            v.push((s[0].0 * m + (s[1].0 - s[0].0) * (m / k) * i, s[0].1 * m + (s[1].1 - s[0].1) * (m / k) * i));
        }
    }
    v.extend(r.last().map(|p| (p.0 * m, p.1 * m)));
    v
}
/// Settings of a case that follow from its choices: every case has one combination, and they are
/// spread evenly over the cases.
pub struct Turn(u64);
impl Turn {
    pub fn new(parts: &[usize]) -> Turn {
        Turn(parts.iter().fold(0x9E37_79B9_7F4A_7C15, |h, p| Turn::mix(h ^ (*p as u64 + 1))))
    }
    fn mix(x: u64) -> u64 {
        let x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    pub fn take(&mut self, n: usize) -> usize {
        self.0 = Turn::mix(self.0.wrapping_add(0x9E37_79B9_7F4A_7C15));
        ((self.0 >> 20) % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len())]
    }
}
/// Up to n small squares strictly inside a simple ring near its vertices, apart from each other.
pub fn nooks(r: &[P], n: usize) -> Vec<Vec<P>> {
    let m = r.len() - 1;
    let mut v: Vec<Vec<P>> = vec![];
    for i in 0..m {
        let (a, b, c) = (r[(i + m - 1) % m], r[i], r[i + 1]);
        let d = (a.0 + c.0 - 2 * b.0, a.1 + c.1 - 2 * b.1);
        for t in [3, 4, 5, 6] {
            let o = (b.0 + d.0 * t / 16, b.1 + d.1 * t / 16);
            let q = rect(o.0 - 1, o.1 - 1, o.0 + 1, o.1 + 1);
            if q.iter().all(|p| locate(*p, r) > 0)
                && polygon_valid(r, &[&q])
                && v.iter().all(|w| (w[0].0 - q[0].0).abs() > 4 || (w[0].1 - q[0].1).abs() > 4)
            {
                v.push(q);
                break;
            }
        }
        if v.len() == n {
            break;
        }
    }
    v
}
/// How finely two curves are cut (of 8).
pub const CUTS: [(i64, i64); 5] = [(8, 1), (1, 8), (4, 4), (8, 8), (2, 8)];
/// Pairs of places in a list of n at which two parts of interest are put.
pub fn places(n: usize) -> Vec<(usize, usize)> {
    let mut at: Vec<usize> = if n <= 5 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
    at.dedup();
    let mut v = vec![];
    for &i in &at {
        v.extend(at.iter().filter(|j| **j != i).map(|j| (i, *j)));
    }
    v
}
pub fn bounds(r: &[P]) -> (i64, i64, i64, i64) {
    (
        r.iter().map(|p| p.0).min().unwrap(),
        r.iter().map(|p| p.1).min().unwrap(),
        r.iter().map(|p| p.0).max().unwrap(),
        r.iter().map(|p| p.1).max().unwrap(),
    )
}
/// All axis-parallel rectangles with corners on the m x m grid.
pub fn bars(m: i64) -> Vec<Vec<P>> {
    let mut v = vec![];
    for x0 in 0..m {
        for x1 in x0 + 1..m {
            for y0 in 0..m {
                v.extend((y0 + 1..m).map(|y1| rect(x0, y0, x1, y1)));
            }
        }
    }
    v
}
/// A bar along x from -l to l with pointed ends of k inner vertices each (closed, counter-clockwise,
/// 2k + 4 vertices): all vertices are near the ends, the two long sides run from end to end.
pub fn long_bar(l: i64, k: usize) -> Vec<P> {
    let w = k as i64 + 1;
    let mut v = vec![];
    for s in [1i64, -1] {
        for i in 0..k as i64 + 2 {
            v.push((s * (l + 2 * (i & 1)), s * (2 * i - w)));
        }
    }
    v.push(v[0]);
    v
}
pub fn swapped(r: &[P]) -> Vec<P> {
    let mut v: Vec<P> = r.iter().map(|p| (p.1, p.0)).collect();
    v.reverse();
    v
}
/// Index distances around which packed or truncated pair keys would coincide.
pub fn gaps(far: bool) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 8, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 511, 512, 513];
    if far {
        v.extend([1024, 1025, 4096, 4097, 32768, 32769, 65535, 65536, 65537, 65538]);
    }
    v
}
/// Segments (0,0)-(n, s n + i) and (p, j)-(n + q, s n + l): long, close and nearly parallel;
/// None where a product or a sum of products would be rounded.
pub fn sliver(n: i64, s: i64, d: [i64; 5], bits: u32) -> Option<[P; 4]> {
    let [i, p, j, q, l] = d;
    let v: [P; 4] = [(0, 0), (n, s * n + i), (p, j), (n + q, s * n + l)];
    if exact_products(&v, bits) { Some(v) } else { None }
}
/// Whether the coordinates, their differences, the products of differences, and the sums and
/// differences of two products all have few enough bits.
pub fn exact_products(v: &[P], bits: u32) -> bool {
    let fits = |x: i128| x == 0 || 128 - x.unsigned_abs().leading_zeros() - x.trailing_zeros() <= bits;
    for a in v {
        for b in v {
            let (x, y) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
            if !fits(x) || !fits(y) || !fits(a.0 as i128) || !fits(a.1 as i128) {
                return false;
            }
            for c in v {
                for e in v {
                    let (z, w) = ((e.0 - c.0) as i128, (e.1 - c.1) as i128);
                    let all = [x * w, y * z, x * z, y * w, x * w - y * z, x * z + y * w];
                    if !all.iter().all(|v| fits(*v)) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// A bent line from (m, 0) over (k, k) to (0, m): all of them run between the same two points.
pub fn arc(m: i64, k: i64) -> Vec<P> {
    vec![(m, 0), (k, k), (0, m)]
}
/// The ring between the bent lines over (i, i) and (j, j): rings with apart ranges i..j touch in
/// two points only, though their boxes are the same.
pub fn lens(m: i64, i: i64, j: i64) -> Vec<P> {
    vec![(m, 0), (j, j), (0, m), (i, i), (m, 0)]
}

/// A corridor of width 2 that winds inwards around an open eye, counted in full turns (closed ring).
pub fn eye(turns: i64) -> Vec<P> {
    let s = 8 * turns + 8;
    let (mut out, mut back) = (vec![(0, 0)], vec![(0, 2)]);
    for t in 0..turns {
        let (lo, hi) = (4 * t, s - 4 * t);
        out.extend([(hi, lo), (hi, hi), (lo, hi), (lo, lo + 4)]);
        back.extend([(hi - 2, lo + 2), (hi - 2, hi - 2), (lo + 2, hi - 2), (lo + 2, lo + 6)]);
    }
    back.reverse();
    out.extend(back);
    out.push((0, 0));
    out
}
/// The corridor, and a small ring in its eye, within the corridor, or between its windings.
pub fn eyed(cx: &mut crate::engine::Cx, k: i64, all: bool) -> (Vec<P>, Vec<P>) {
    let e = eye(k);
    let s = 8 * k + 8;
    let mut ts = vec![0, k / 2, k - 1];
    if all && k <= 20 {
        ts = (0..k).collect();
    }
    ts.dedup();
    // centres: the eye; the middle of the corridor, and of the gap inside it, on each side
    let mut at: Vec<P> = vec![(s / 2, s / 2)];
    for t in ts {
        let (m, lo, hi) = (s / 2, 4 * t, s - 4 * t);
        for d in [1, 3] {
            at.extend([(m, lo + d), (hi - d, m), (m, hi - d), (lo + d, m)]);
        }
    }
    let (x, y) = *cx.pick(&at);
    let r = *cx.pick(&[2, 1, 4]);
    let h = match cx.choose(3) {
        0 => rect(2 * x - r, 2 * y - r, 2 * x + r, 2 * y + r),
        1 => vec![(2 * x - r, 2 * y), (2 * x + r, 2 * y - r), (2 * x + r, 2 * y + r), (2 * x - r, 2 * y)],
        _ => vec![(2 * x, 2 * y - r), (2 * x + r, 2 * y), (2 * x, 2 * y + r), (2 * x - r, 2 * y), (2 * x, 2 * y - r)],
    };
    (scale(&e, 2), h)
}
