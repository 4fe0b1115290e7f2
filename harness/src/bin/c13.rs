//! C13: leaf order of sorted indexes follows a Hilbert curve.
use magog::flatbush::Flatbush;
use magog::planar::primitives::{Envelope, Position};
use mc::adapt::*;
use mc::engine::*;
use mc::ensure;
use mc::exact::P;
use mc::gen::*;
use std::sync::Arc;

/// Leaves in tree order.
fn order<C: Co>(t: &Flatbush<C>, n: usize, d: usize) -> Vec<usize> {
    let root = t.root_node();
    let mut count = vec![n];
    while count.len() <= root.level {
        let l = *count.last().unwrap();
        count.push((l + d - 1) / d);
    }
    let mut out = Vec::with_capacity(n);
    let mut stack = vec![root];
    while let Some(node) = stack.pop() {
        if node.sibling_index >= count[node.level] {
            continue;
        }
        if node.level == 0 {
            out.push(node.sibling_index);
        } else {
            stack.extend(t.get_children(node).into_iter().rev());
        }
    }
    out
}
fn tree<C: Co>(e: &Emb, pts: &[P], half: f64, d: usize) -> Flatbush<C> {
    let items: Vec<Envelope<C>> = pts
        .iter()
        .map(|p| {
            let (x, y) = e.xy(*p);
            let (hx, hy) = (half * (e.m[0].abs() + e.m[1].abs()), half * (e.m[2].abs() + e.m[3].abs()));
            Envelope::new(Position::new(C::of(x - hx), C::of(y - hy)), Position::new(C::of(x + hx), C::of(y + hy)))
        })
        .collect();
    Flatbush::new(&items, d)
}
/// Positions of a 2^k lattice block in leaf order: neighbours in sequence, quadrants contiguous.
fn is_curve(seq: &[P], o: P, k: u32, step: i64) -> Result<(), String> {
    let side = 1i64 << k;
    if seq.len() != (side * side) as usize {
        return Err(format!("{} leaves instead of {}", seq.len(), side * side));
    }
    for w in seq.windows(2) {
        if (w[0].0 - w[1].0).abs() + (w[0].1 - w[1].1).abs() != step {
            return Err(format!("successive leaves at {:?} and {:?}", w[0], w[1]));
        }
    }
    // every aligned quadrant of every size contiguous: runs of 4^j leaves share their high bits
    for j in 1..k {
        let run = 1usize << (2 * j);
        for c in seq.chunks(run) {
            let q = |p: &P| (((p.0 - o.0) / step) >> j, ((p.1 - o.1) / step) >> j);
            let q0 = q(&c[0]);
            if let Some(p) = c.iter().find(|p| q(p) != q0) {
                return Err(format!("quadrant of {:?} (side {}) left at {:?}", c[0], 1 << j, p));
            }
        }
    }
    Ok(())
}
fn arrange(pts: &[P], how: usize) -> Vec<P> {
    let n = pts.len();
    match how {
        0 => pts.to_vec(),
        1 => pts.iter().rev().copied().collect(),
        2 => {
            let mut v = pts.to_vec();
            v.sort();
            v
        }
        3 => (0..n).map(|i| pts[(i * 7 + 3) % n]).collect(), // n is a power of two
        _ => (0..n).map(|i| pts[(i * 4097 + n / 3) % n]).collect(),
    }
}

fn main() {
    let th = tier() == Tier::Thorough;
    let mut fams: Vec<Family> = vec![];
    const MAPS: [Emb; 12] = [ID, SHIFT, SMALL, LARGE, MIRX, MIRY, SWAP, WIDE, FAR, NEGZ, FAR20, VFAR];
    let degs: Vec<usize> = vec![2, 4, 8, 16, 32];
    let kmax = if th { 9 } else { 8 };
    fams.push(Family {
        name: "lattice",
        bound: format!("complete 2^k x 2^k lattices, k = 0..{}, 5 input orders, degrees 2,4,8,16,32, box half-widths 0, 1/4, 1/2 of the lattice step, {} exact placements, f64 and f32", kmax - 1, MAPS.len()),
        outcomes: &["one item", "curve"],
        f: Box::new(move |cx| {
            let k = cx.choose(kmax) as u32;
            let side = 1i64 << k;
            let how = cx.choose(5);
            let d = *cx.pick(&degs);
            let half = *cx.pick(&[0., 0.25, 0.5]);
            let e = *cx.pick(&MAPS);
            let pts = arrange(&grid(side, side), how);
            cx.note(|| format!("lattice 2^{} arranged {}, degree {}, half width {}, mapped by {}", k, how, d, half, e.name));
            cx.outcome((k > 0) as usize);
            cx.op(1);
            let seq: Vec<P> = order(&tree::<f64>(&e, &pts, half, d), pts.len(), d).into_iter().map(|i| pts[i]).collect();
            if let Err(m) = is_curve(&seq, (0, 0), k, 1) {
                return Err(Fail::new(format!("f64: {}", m)));
            }
            if !e.wide {
                cx.op(1);
                let seq: Vec<P> = order(&tree::<f32>(&e, &pts, half, d), pts.len(), d).into_iter().map(|i| pts[i]).collect();
                if let Err(m) = is_curve(&seq, (0, 0), k, 1) {
                    return Err(Fail::new(format!("f32: {}", m)));
                }
            }
            Ok(())
        }),
    });
    // any region of the full 16-bit square: two corner points fix the box
    let spots: Arc<Vec<i64>> = Arc::new({
        let mut v: Vec<i64> = vec![0, 1, 2, 3, 0x555, 0xaaa, 0x123, 0xedc, 0x7ff, 0x800, 0xffe, 0xfff, 0x0f0, 0xf0f];
        for b in 2..12 {
            v.push(1 << b);
            v.push(0xfff ^ (1 << b));
            v.push((1 << b) - 1);
        }
        if th {
            v.extend((0..4096).step_by(61));
        }
        v.sort();
        v.dedup();
        v
    });
    let s = spots.clone();
    fams.push(Family {
        name: "block",
        bound: format!("aligned 16x16 blocks at {0} x {0} places of the 65536-square (every bit of the coordinates exercised), single steps; and their neighbours as 64x64 blocks with steps of 16", spots.len()),
        outcomes: &["curve"],
        f: Box::new(move |cx| {
            let (a, b) = (*cx.pick(&s), *cx.pick(&s));
            let fine = cx.flip();
            let (step, k) = if fine { (1i64, 4u32) } else { (16, 4) };
            let m = step << k;
            // aligned origin of the block
            let o = (a * 16 / m * m, b * 16 / m * m);
            let mut pts: Vec<P> = grid(1 << k, 1 << k).iter().map(|p| (o.0 + p.0 * step, o.1 + p.1 * step)).collect();
            let n0 = pts.len();
            for c in [(0, 0), (65535, 65535)] {
                if !pts.contains(&c) {
                    pts.push(c);
                }
            }
            cx.note(|| format!("block of step {} at {:?} and the corners of the 65536 square", step, o));
            cx.outcome(0);
            cx.op(1);
            let seq: Vec<P> = order(&tree::<f64>(&ID, &pts, 0., 8), pts.len(), 8).into_iter().filter(|i| *i < n0).map(|i| pts[i]).collect();
            is_curve(&seq, o, k, step).map_err(Fail::new)
        }),
    });
    // input order does not matter
    let g = Arc::new(grid(4, 4));
    let gg = g.clone();
    let k = if th { 5 } else { 4 };
    fams.push(Family {
        name: "permuted",
        bound: format!("every set of {} or fewer lattice positions of the 4x4 grid in every order, point boxes: same leaf sequence as in ascending order; exact translations and scalings leave it unchanged", k),
        outcomes: &["one item", "several"],
        f: Box::new(move |cx| {
            let n = 1 + cx.choose(k);
            let mut left: Vec<P> = gg.to_vec();
            let mut pts = vec![];
            for _ in 0..n {
                let i = cx.choose(left.len());
                pts.push(left.remove(i));
            }
            cx.note(|| format!("points {:?}", pts));
            cx.outcome((n > 1) as usize);
            let mut asc = pts.clone();
            asc.sort();
            for d in [2, 8] {
                cx.op(1);
                let want: Vec<P> = order(&tree::<f64>(&ID, &asc, 0., d), n, d).into_iter().map(|i| asc[i]).collect();
                for e in [ID, SHIFT, SMALL, LARGE, FAR, FAR20, VFAR, WIDE] {
                    cx.op(1);
                    let got: Vec<P> = order(&tree::<f64>(&e, &pts, 0., d), n, d).into_iter().map(|i| pts[i]).collect();
                    ensure!(got == want, "degree {} mapped by {}: leaves {:?}, in ascending input order {:?}", d, e.name, got, want);
                    if !e.wide {
                        cx.op(1);
                        let got: Vec<P> = order(&tree::<f32>(&e, &pts, 0., d), n, d).into_iter().map(|i| pts[i]).collect();
                        ensure!(got == want, "f32 degree {} mapped by {}: leaves {:?}, in ascending input order {:?}", d, e.name, got, want);
                    }
                }
            }
            Ok(())
        }),
    });
    let ns: Vec<usize> = if th { (1..200).chain([500, 1000, 4097]).collect() } else { (1..100).chain([513, 1000]).collect() };
    fams.push(Family {
        name: "scattered",
        bound: format!("{} sizes of scattered, diagonal, row and column point sets (coordinates up to 4000), 4 input orders, 6 exact placements: same leaf sequence", ns.len()),
        outcomes: &["compared"],
        f: Box::new(move |cx| {
            let n = *cx.pick(&ns) as i64;
            let kind = cx.choose(4);
            let pts: Vec<P> = (0..n)
                .map(|i| match kind {
                    0 => ((i * 1237 + 11) % 4001, (i * i * 31 + 7 * i) % 3989),
                    1 => (i, 2 * i),
                    2 => (3 * i, 0),
                    _ => (5, 7 * i),
                })
                .collect();
            cx.outcome(0);
            cx.note(|| format!("{} points of kind {}", n, kind));
            let want: Vec<P> = order(&tree::<f64>(&ID, &pts, 0., 8), pts.len(), 8).into_iter().map(|i| pts[i]).collect();
            for how in 0..4 {
                let v: Vec<P> = match how {
                    0 => pts.clone(),
                    1 => pts.iter().rev().copied().collect(),
                    2 => { let mut v = pts.clone(); v.sort_by_key(|p| (p.1, p.0)); v }
                    _ => { let mut v = pts.clone(); v.rotate_left(pts.len() / 3); v.swap(0, pts.len() - 1); v }
                };
                for e in [ID, SMALL, FAR, FAR20, WIDE, SHIFT] {
                    cx.op(1);
                    let got: Vec<P> = order(&tree::<f64>(&e, &v, 0., 8), v.len(), 8).into_iter().map(|i| v[i]).collect();
                    ensure!(got == want, "input order {} mapped by {}: different leaf sequence ({:?}.. instead of {:?}..)", how, e.name, &got[..got.len().min(8)], &want[..want.len().min(8)]);
                }
            }
            Ok(())
        }),
    });
    run_check(Check {
        id: "C13",
        assumptions: vec![
            "the orientation of the curve is not specified; only adjacency, contiguity of quadrants and invariance are judged",
            "lattices up to 2^7 (thorough 2^8) per side, plus aligned blocks everywhere in the 16-bit square",
        ],
        families: fams,
    })
}
