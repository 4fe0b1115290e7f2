//! Exact embeddings of the integer model plane into the library's coordinate types.
use crate::exact::P;
use magog::planar::primitives::{Envelope, Position, Segment};
use magog::planar::types::{LineString, MultiLineString, MultiPolygon, Polygon};
use magog::Coordinate;

pub trait Co: Coordinate + 'static {
    const NAME: &'static str;
    const EPS: f64;
    const SINGLE: bool;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
}
impl Co for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const SINGLE: bool = false;
    #[inline]
    fn of(v: f64) -> f64 {
        v
    }
    #[inline]
    fn f(self) -> f64 {
        self
    }
}
impl Co for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const SINGLE: bool = true;
    #[inline]
    fn of(v: f64) -> f32 {
        v as f32
    }
    #[inline]
    fn f(self) -> f64 {
        self as f64
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Zeros {
    Plus,
    Minus,
    Mixed,
}
thread_local! {
    static ZERO: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
/// Start the sequence of mixed zeros anew (the engine does so before every execution).
pub fn reset_zeros() {
    ZERO.with(|z| z.set(0));
}
/// The next zero of the Thue-Morse sequence of signs.
fn mixed_zero() -> f64 {
    ZERO.with(|z| {
        let k = z.get();
        z.set(k.wrapping_add(1));
        if k.count_ones() % 2 == 0 { 0.0 } else { -0.0 }
    })
}

/// (x, y) -> (a x + b y + ox, c x + d y + oy).  All parameters are dyadic and moderate, so that the
/// image of a small integer point is exact in f64 and f32 (f64 only when `wide`), and predicates on
/// images equal predicates on the integers (orientation signs times the sign of the determinant).
#[derive(Clone, Copy, Debug)]
pub struct Emb {
    pub name: &'static str,
    pub m: [f64; 4],
    pub o: [f64; 2],
    /// how zero coordinates are written: always 0.0, always -0.0, or in a mixed sequence of both
    pub zeros: Zeros,
    /// too wide for f32
    pub wide: bool,
}
pub const fn emb(name: &'static str, m: [f64; 4], o: [f64; 2]) -> Emb {
    Emb { name, m, o, zeros: Zeros::Plus, wide: false }
}
pub const TINY: f64 = 1.0 / (1u64 << 40) as f64;
pub const HUGE: f64 = (1u64 << 40) as f64;
pub const ID: Emb = emb("(x,y)", [1., 0., 0., 1.], [0., 0.]);
pub const SHIFT: Emb = emb("(x-2,y-2)", [1., 0., 0., 1.], [-2., -2.]);
pub const SMALL: Emb = emb("(x,y)*2^-40", [TINY, 0., 0., TINY], [0., 0.]);
pub const LARGE: Emb = emb("(x,y)*2^40", [HUGE, 0., 0., HUGE], [0., 0.]);
pub const MIRX: Emb = emb("(-x,y)", [-1., 0., 0., 1.], [0., 0.]);
pub const MIRY: Emb = emb("(x,1-y)", [1., 0., 0., -1.], [0., 1.]);
pub const SWAP: Emb = emb("(y,x)", [0., 1., 1., 0.], [0., 0.]);
pub const WIDE: Emb = emb("(256x,y/16)", [256., 0., 0., 0.0625], [0., 0.]);
pub const FAR: Emb = emb("(x/4-1000,y/4+500)", [0.25, 0., 0., 0.25], [-1000., 500.]);
pub const NEGZ: Emb = Emb { name: "(x-1,y-1) with -0.0", m: [1., 0., 0., 1.], o: [-1., -1.], zeros: Zeros::Minus, wide: false };
pub const MIXZ: Emb = Emb { name: "(x-1,y-1) with 0.0 and -0.0 mixed", m: [1., 0., 0., 1.], o: [-1., -1.], zeros: Zeros::Mixed, wide: false };
pub const ROT45: Emb = emb("(x-y,x+y)", [1., -1., 1., 1.], [0., 0.]);
pub const SHEAR: Emb = emb("(x+1024y,y)", [1., 1024., 0., 1.], [0., 0.]);
pub const FAR20: Emb = Emb { name: "(x+2^20,y-2^20)", m: [1., 0., 0., 1.], o: [1048576., -1048576.], zeros: Zeros::Plus, wide: true };
pub const SLIVER: Emb = Emb { name: "(x+2^12*y,2^12*x+(2^24+1)*y)", m: [1., 4096., 4096., 16777217.], o: [0., 0.], zeros: Zeros::Plus, wide: true };
pub const VFAR: Emb = Emb { name: "(x+2^40,y-2^40)", m: [1., 0., 0., 1.], o: [HUGE, -HUGE], zeros: Zeros::Plus, wide: true };
pub const MIXED: Emb = emb("(3x-4y-2,4x+3y+5)/2", [1.5, -2., 2., 1.5], [-1., 2.5]);
pub const EMBS: [Emb; 17] =
    [ID, MIXZ, SHIFT, SMALL, LARGE, MIRX, MIRY, SWAP, WIDE, FAR, NEGZ, ROT45, SHEAR, FAR20, VFAR, MIXED, SLIVER];
/// Very large and very small powers of two (products are still exact and normal numbers).
pub const BIG: Emb = emb("(x,y)*2^55", [36028797018963968., 0., 0., 36028797018963968.], [0., 0.]);
pub const WEE: Emb = emb("(x,y)*2^-55", [1. / 36028797018963968., 0., 0., 1. / 36028797018963968.], [0., 0.]);
pub const XBIG: Emb = Emb { name: "(x,y)*2^480", m: [f64::from_bits((1023 + 480) << 52), 0., 0., f64::from_bits((1023 + 480) << 52)], o: [0., 0.], zeros: Zeros::Plus, wide: true };
pub const XWEE: Emb = Emb { name: "(x,y)*2^-480", m: [f64::from_bits((1023 - 480) << 52), 0., 0., f64::from_bits((1023 - 480) << 52)], o: [0., 0.], zeros: Zeros::Plus, wide: true };
pub const EXTREME: [Emb; 4] = [BIG, WEE, XBIG, XWEE];
/// A short list for the heavier families.
pub const EMBS3: [Emb; 4] = [MIXZ, SMALL, ROT45, FAR];

impl Emb {
    #[inline]
    fn zero(&self) -> f64 {
        match self.zeros {
            Zeros::Plus => 0.0,
            Zeros::Minus => -0.0,
            Zeros::Mixed => mixed_zero(),
        }
    }
    #[inline]
    pub fn xy(&self, p: P) -> (f64, f64) {
        let (px, py) = (p.0 as f64, p.1 as f64);
        let mut x = px * self.m[0] + py * self.m[1] + self.o[0];
        let mut y = px * self.m[2] + py * self.m[3] + self.o[1];
        if x == 0. {
            x = self.zero();
        }
        if y == 0. {
            y = self.zero();
        }
        (x, y)
    }
    /// determinant of the linear part
    pub fn det(&self) -> f64 {
        self.m[0] * self.m[3] - self.m[1] * self.m[2]
    }
    #[inline]
    pub fn pos<C: Co>(&self, p: P) -> Position<C> {
        let (x, y) = self.xy(p);
        Position::new(C::of(x), C::of(y))
    }
    pub fn seg<C: Co>(&self, a: P, b: P) -> Segment<C> {
        Segment::new(self.pos(a), self.pos(b))
    }
    pub fn line<C: Co>(&self, pts: &[P]) -> LineString<C> {
        LineString::new(pts.iter().map(|p| self.pos(*p)).collect())
    }
    pub fn poly<C: Co>(&self, ext: &[P], holes: &[&[P]]) -> Polygon<C> {
        Polygon::new(self.line(ext), holes.iter().map(|h| self.line(h)).collect())
    }
    pub fn mls<C: Co>(&self, ls: &[&[P]]) -> MultiLineString<C> {
        MultiLineString::new(ls.iter().map(|l| self.line(l)).collect())
    }
    pub fn mpoly<C: Co>(&self, ps: &[crate::exact::Poly]) -> MultiPolygon<C> {
        MultiPolygon::new(
            ps.iter()
                .map(|p| {
                    let h: Vec<&[P]> = p.1.iter().map(|x| &x[..]).collect();
                    self.poly(&p.0, &h)
                })
                .collect(),
        )
    }
    /// Smallest and largest corner of the image of the points, as f64.
    pub fn bbox(&self, pts: impl Iterator<Item = P>) -> Option<(f64, f64, f64, f64)> {
        let mut b: Option<(f64, f64, f64, f64)> = None;
        for p in pts {
            let (x, y) = self.xy(p);
            b = Some(match b {
                None => (x, y, x, y),
                Some(b) => (b.0.min(x), b.1.min(y), b.2.max(x), b.3.max(y)),
            });
        }
        b
    }
}

/// Compare an envelope with expected bounds (numerically: -0.0 == 0.0).
pub fn env_is<C: Co>(e: &Envelope<C>, want: Option<(f64, f64, f64, f64)>) -> bool {
    match (e, want) {
        (Envelope::Empty, None) => true,
        (Envelope::Bounds { min, max }, Some(w)) => {
            min.x == C::of(w.0) && min.y == C::of(w.1) && max.x == C::of(w.2) && max.y == C::of(w.3)
        }
        _ => false,
    }
}

pub fn show_pos<C: Co>(p: Position<C>) -> String {
    format!("({:?}, {:?})", p.x, p.y)
}
pub fn show_pts(e: &Emb, pts: &[P]) -> String {
    let v: Vec<String> = pts
        .iter()
        .map(|p| {
            let (x, y) = e.xy(*p);
            format!("({:?},{:?})", x, y)
        })
        .collect();
    format!("[{}]", v.join(" "))
}
