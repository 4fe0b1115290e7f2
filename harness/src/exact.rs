//! The reference model: plane geometry over exact integers/rationals, written independently of the
//! library's algorithms (no winding numbers, no r-tree, no floating point).
pub type P = (i64, i64);

pub fn cross(o: P, a: P, b: P) -> i128 {
    (a.0 - o.0) as i128 * (b.1 - o.1) as i128 - (a.1 - o.1) as i128 * (b.0 - o.0) as i128
}
pub fn orient(o: P, a: P, b: P) -> i32 {
    cross(o, a, b).signum() as i32
}
/// Point on the closed segment a-b.
pub fn on_seg(p: P, a: P, b: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// Exact intersection of two closed segments.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Isect {
    None,
    /// a single point (xnum/den, ynum/den), den > 0
    Point { x: i128, y: i128, den: i128 },
    /// an overlap of positive length between two distinct points
    Overlap(P, P),
}

pub fn isect(a: P, b: P, c: P, d: P) -> Isect {
    // cheap rejection
    if a.0.max(b.0) < c.0.min(d.0)
        || c.0.max(d.0) < a.0.min(b.0)
        || a.1.max(b.1) < c.1.min(d.1)
        || c.1.max(d.1) < a.1.min(b.1)
    {
        return Isect::None;
    }
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if a == b {
        return if on_seg(a, c, d) { pt(a) } else { Isect::None };
    }
    if c == d {
        return if on_seg(c, a, b) { pt(c) } else { Isect::None };
    }
    if o1 == 0 && o2 == 0 {
        // collinear: order along the line (lexicographic order is monotone along a line)
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let (c, d) = if c <= d { (c, d) } else { (d, c) };
        let lo = a.max(c);
        let hi = b.min(d);
        return if lo < hi {
            Isect::Overlap(lo, hi)
        } else if lo == hi {
            pt(lo)
        } else {
            Isect::None
        };
    }
    if o1 * o2 > 0 || o3 * o4 > 0 {
        return Isect::None;
    }
    // one point: a + t (b-a), t = cross(c-a, d-c) / cross(b-a, d-c)
    let (rx, ry) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    let (sx, sy) = ((d.0 - c.0) as i128, (d.1 - c.1) as i128);
    let mut den = rx * sy - ry * sx;
    let mut tn = (c.0 - a.0) as i128 * sy - (c.1 - a.1) as i128 * sx;
    if den < 0 {
        den = -den;
        tn = -tn;
    }
    Isect::Point { x: a.0 as i128 * den + tn * rx, y: a.1 as i128 * den + tn * ry, den }
}
fn pt(p: P) -> Isect {
    Isect::Point { x: p.0 as i128, y: p.1 as i128, den: 1 }
}
pub fn isect_is(i: &Isect, p: P) -> bool {
    match *i {
        Isect::Point { x, y, den } => x == p.0 as i128 * den && y == p.1 as i128 * den,
        _ => false,
    }
}

/// Is the polyline a valid (simple) linestring?
pub fn line_valid(p: &[P]) -> bool {
    let n = p.len();
    if n == 0 {
        return true;
    }
    if n == 1 {
        return false;
    }
    for i in 0..n - 1 {
        if p[i] == p[i + 1] {
            return false;
        }
    }
    let m = n - 1;
    let closed = p[0] == p[n - 1];
    if closed && n < 4 {
        return false;
    }
    for i in 0..m {
        for j in i + 1..m {
            match isect(p[i], p[i + 1], p[j], p[j + 1]) {
                Isect::None => {}
                Isect::Overlap(..) => return false,
                is @ Isect::Point { .. } => {
                    let ok = (j == i + 1 && isect_is(&is, p[j]))
                        || (closed && i == 0 && j == m - 1 && isect_is(&is, p[0]));
                    if !ok {
                        return false;
                    }
                }
            }
        }
    }
    true
}
pub fn closed_ring(p: &[P]) -> bool {
    p.len() >= 4 && p[0] == p[p.len() - 1]
}
/// A valid ring: closed and simple.
pub fn ring_valid(p: &[P]) -> bool {
    closed_ring(p) && line_valid(p)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Separate,
    Contains,
    Within,
    Crosses,
}

fn cmp_frac(a: (i128, i128), b: (i128, i128)) -> std::cmp::Ordering {
    // denominators positive
    (a.0 * b.1).cmp(&(b.0 * a.1))
}

/// Relation of the regions enclosed by two simple closed rings (first point repeated at the end),
/// by vertical slab decomposition of the plane with exact rationals.
pub fn ring_relation(r1: &[P], r2: &[P]) -> Rel {
    // boxes with no common point: separate
    let bb = |r: &[P]| {
        let x0 = r.iter().map(|p| p.0).min().unwrap();
        let x1 = r.iter().map(|p| p.0).max().unwrap();
        let y0 = r.iter().map(|p| p.1).min().unwrap();
        let y1 = r.iter().map(|p| p.1).max().unwrap();
        (x0, x1, y0, y1)
    };
    let (a, b) = (bb(r1), bb(r2));
    if a.1 < b.0 || b.1 < a.0 || a.3 < b.2 || b.3 < a.2 {
        return Rel::Separate;
    }
    let mut xs: Vec<(i128, i128)> = Vec::with_capacity(32);
    for p in r1.iter().chain(r2.iter()) {
        xs.push((p.0 as i128, 1));
    }
    for s in r1.windows(2) {
        for t in r2.windows(2) {
            match isect(s[0], s[1], t[0], t[1]) {
                Isect::None => {}
                Isect::Overlap(..) => return Rel::Crosses,
                Isect::Point { x, den, .. } => {
                    if x % den != 0 {
                        xs.push((x, den));
                    } else {
                        xs.push((x / den, 1));
                    }
                }
            }
        }
    }
    xs.sort_by(|a, b| cmp_frac(*a, *b));
    xs.dedup_by(|a, b| cmp_frac(*a, *b) == std::cmp::Ordering::Equal);
    let (mut both, mut only1, mut only2) = (false, false, false);
    let mut edges: Vec<(P, P, u8)> = Vec::with_capacity(r1.len() + r2.len());
    for (k, r) in [(1u8, r1), (2u8, r2)] {
        for s in r.windows(2) {
            if s[0].0 != s[1].0 {
                let (a, b) = if s[0].0 < s[1].0 { (s[0], s[1]) } else { (s[1], s[0]) };
                edges.push((a, b, k));
            }
        }
    }
    let mut ys: Vec<((i128, i128), u8)> = Vec::with_capacity(16);
    for w in xs.windows(2) {
        let (n0, d0) = w[0];
        let (n1, d1) = w[1];
        let n = n0 * d1 + n1 * d0;
        let d = 2 * d0 * d1;
        ys.clear();
        for &(a, b, k) in &edges {
            // spans the slab?
            if (a.0 as i128) * d < n && n < (b.0 as i128) * d {
                let dx = (b.0 - a.0) as i128;
                let dy = (b.1 - a.1) as i128;
                // y * d = a.y*d + dy*(n - a.x*d)/dx
                ys.push(((a.1 as i128 * d * dx + dy * (n - a.0 as i128 * d), dx), k));
            }
        }
        ys.sort_by(|a, b| cmp_frac(a.0, b.0));
        let (mut in1, mut in2) = (false, false);
        for i in 0..ys.len() {
            if ys[i].1 == 1 {
                in1 = !in1
            } else {
                in2 = !in2
            }
            if i + 1 < ys.len() && cmp_frac(ys[i].0, ys[i + 1].0) != std::cmp::Ordering::Equal {
                match (in1, in2) {
                    (true, true) => both = true,
                    (true, false) => only1 = true,
                    (false, true) => only2 = true,
                    _ => {}
                }
            }
        }
        if both && only1 && only2 {
            return Rel::Crosses;
        }
    }
    if !both {
        Rel::Separate
    } else if !only2 {
        Rel::Contains
    } else if !only1 {
        Rel::Within
    } else {
        Rel::Crosses
    }
}

/// Polygon validity: rings closed and simple, holes inside the exterior, holes not overlapping.
pub fn polygon_valid(ext: &[P], holes: &[&[P]]) -> bool {
    if ext.is_empty() && holes.is_empty() {
        return true;
    }
    if !ring_valid(ext) {
        return false;
    }
    for h in holes {
        if !ring_valid(h) {
            return false;
        }
    }
    for h in holes {
        if ring_relation(ext, h) != Rel::Contains {
            return false;
        }
    }
    for i in 0..holes.len() {
        for j in i + 1..holes.len() {
            if ring_relation(holes[i], holes[j]) != Rel::Separate {
                return false;
            }
        }
    }
    true
}

pub fn multilinestring_valid(ls: &[&[P]]) -> bool {
    if ls.iter().any(|l| !line_valid(l)) {
        return false;
    }
    let ends = |l: &[P]| -> Vec<P> {
        if closed_ring(l) || l.is_empty() {
            vec![]
        } else {
            vec![l[0], l[l.len() - 1]]
        }
    };
    for i in 0..ls.len() {
        for j in i + 1..ls.len() {
            let (e1, e2) = (ends(ls[i]), ends(ls[j]));
            for s in ls[i].windows(2) {
                for t in ls[j].windows(2) {
                    match isect(s[0], s[1], t[0], t[1]) {
                        Isect::None => {}
                        Isect::Overlap(..) => return false,
                        is => {
                            let at1 = e1.iter().any(|p| isect_is(&is, *p));
                            let at2 = e2.iter().any(|p| isect_is(&is, *p));
                            if !(at1 && at2) {
                                return false;
                            }
                        }
                    }
                }
            }
        }
    }
    true
}

/// A polygon of the model: exterior and holes, rings closed (first point repeated).
pub type Poly = (Vec<P>, Vec<Vec<P>>);

pub fn poly_valid(p: &Poly) -> bool {
    let h: Vec<&[P]> = p.1.iter().map(|x| &x[..]).collect();
    polygon_valid(&p.0, &h)
}

/// Two valid polygons may coexist: exteriors share only finitely many points and either neither
/// encloses the other, or the enclosed one lies inside exactly one hole of the enclosing one.
pub fn polys_compatible(p: &Poly, q: &Poly) -> bool {
    if p.0.is_empty() || q.0.is_empty() {
        return true;
    }
    let (outer, inner) = match ring_relation(&p.0, &q.0) {
        Rel::Separate => return true,
        Rel::Crosses => return false,
        Rel::Contains => (p, q),
        Rel::Within => (q, p),
    };
    let mut inside = 0;
    for h in &outer.1 {
        match ring_relation(h, &inner.0) {
            Rel::Separate => {}
            Rel::Contains => inside += 1,
            _ => return false,
        }
    }
    inside == 1
}
pub fn multipolygon_valid(ps: &[Poly]) -> bool {
    if ps.iter().any(|p| !poly_valid(p)) {
        return false;
    }
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            if !polys_compatible(&ps[i], &ps[j]) {
                return false;
            }
        }
    }
    true
}

/// Strict convex hull, counter-clockwise, no repeated first point (Andrew's monotone chain).
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<P> = vec![];
    for pass in 0..2 {
        let start = h.len();
        let it: Vec<P> = if pass == 0 { p.clone() } else { p.iter().rev().copied().collect() };
        for &q in &it {
            while h.len() >= start + 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

/// Twice the signed area of a closed ring.
pub fn area2(r: &[P]) -> i128 {
    r.windows(2)
        .map(|s| s[0].0 as i128 * s[1].1 as i128 - s[0].1 as i128 * s[1].0 as i128)
        .sum()
}

/// Exact mod-2 location of a point (doubled coordinates allowed by the caller) in a ring's region:
/// 1 inside, 0 on the boundary, -1 outside.
pub fn locate(p: P, ring: &[P]) -> i32 {
    let mut inside = false;
    for s in ring.windows(2) {
        let (a, b) = (s[0], s[1]);
        if on_seg(p, a, b) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (o > 0) == (b.1 > a.1) {
                inside = !inside;
            }
        }
    }
    if inside {
        1
    } else {
        -1
    }
}

/// How robustly a pair of segments (not sharing a joint) is decided in the presence of rounding:
/// disjoint, properly crossing, or meeting exactly at a shared end point.
pub fn robust_pair(a: P, b: P, c: P, d: P) -> bool {
    match isect(a, b, c, d) {
        Isect::None => true,
        Isect::Overlap(..) => false,
        is => {
            let e1 = isect_is(&is, a) || isect_is(&is, b);
            let e2 = isect_is(&is, c) || isect_is(&is, d);
            e1 == e2
        }
    }
}
/// Every pair of segments of the polyline is robust (successive ones must not fold back).
pub fn robust_line(p: &[P]) -> bool {
    if p.len() < 2 {
        return true;
    }
    for i in 0..p.len() - 1 {
        for j in i + 1..p.len() - 1 {
            if p[i] == p[i + 1] || p[j] == p[j + 1] {
                continue;
            }
            if !robust_pair(p[i], p[i + 1], p[j], p[j + 1]) {
                return false;
            }
        }
    }
    true
}
pub fn robust_lines(p: &[P], q: &[P]) -> bool {
    p.windows(2).all(|s| q.windows(2).all(|t| robust_pair(s[0], s[1], t[0], t[1])))
}
