//! Facts about machine numbers and about `geo`'s rectangles that the contracts in /verif/specs take for granted,
//! discharged bit-precisely over the full domain of the number types (no loops, no bound).
#[cfg(kani)]
use geo::{BoundingRect, Coord, Intersects, Line, Point, Rect};

pub mod facts;

#[cfg(kani)]
macro_rules! float {
    ($m:ident, $t:ty) => {
        mod $m {
            use super::*;
            // (only finite ends have a finite difference)
            fn usable(lo: $t, hi: $t) -> bool { lo.is_finite() && hi.is_finite() && lo <= hi && (hi - lo).is_finite() }
            fn mid(lo: $t, hi: $t) -> $t { lo + (hi - lo) / (1.0 + 1.0) }
            // specs/num.vs axiom_mid
            #[kani::proof]
            fn mid_in() {
                let (lo, hi): ($t, $t) = (kani::any(), kani::any());
                kani::assume(usable(lo, hi));
                let m = mid(lo, hi);
                kani::cover!(lo < m && m < hi);
                assert!(lo <= m && m <= hi);
                assert!(usable(lo, m) && usable(m, hi));
            }
            // specs/num.vs axiom_okw
            #[kani::proof]
            fn sub_in() {
                let (lo, hi, a, b): ($t, $t, $t, $t) = (kani::any(), kani::any(), kani::any(), kani::any());
                kani::assume(usable(lo, hi) && lo <= a && a <= b && b <= hi);
                kani::cover!(lo < a && a < b && b < hi);
                assert!(usable(a, b));
            }
        }
    };
}
#[cfg(kani)]
float!(f32s, f32);
#[cfg(kani)]
float!(f64s, f64);

#[cfg(kani)]
mod ints {
    fn usable(lo: i32, hi: i32) -> bool { lo <= hi && hi.checked_sub(lo).is_some() }
    #[kani::proof]
    fn mid_in() {
        let (lo, hi): (i32, i32) = (kani::any(), kani::any());
        kani::assume(usable(lo, hi));
        let m = lo + (hi - lo) / (1 + 1);
        kani::cover!(lo < m && m < hi);
        assert!(lo <= m && m <= hi && usable(lo, m) && usable(m, hi));
    }
    #[kani::proof]
    fn sub_in() {
        let (lo, hi, a, b): (i32, i32, i32, i32) = (kani::any(), kani::any(), kani::any(), kani::any());
        kani::assume(usable(lo, hi) && lo <= a && a <= b && b <= hi);
        assert!(usable(a, b));
    }
}

/// the same number: the same bits, or both not a number
#[cfg(kani)]
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
#[cfg(kani)]
fn samec(a: Coord<f64>, b: Coord<f64>) -> bool { same(a.x, b.x) && same(a.y, b.y) }
#[cfg(kani)]
fn anyc() -> Coord<f64> { Coord { x: kani::any(), y: kani::any() } }
#[cfg(kani)]
fn lo2(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
#[cfg(kani)]
fn hi2(a: f64, b: f64) -> f64 { if a < b { b } else { a } }

#[cfg(kani)]
mod geos {
    use super::*;
    // specs/num.vs Rect::new, min, max, width, height: every pair of corners, NaN included
    #[kani::proof]
    fn rect_new() {
        let (a, b) = (anyc(), anyc());
        let r = Rect::new(a, b);
        assert!(samec(r.min(), Coord { x: lo2(a.x, b.x), y: lo2(a.y, b.y) }));
        assert!(samec(r.max(), Coord { x: hi2(a.x, b.x), y: hi2(a.y, b.y) }));
    }
    #[kani::proof]
    fn rect_size() {
        let (a, b) = (anyc(), anyc());
        kani::assume(a.x.is_finite() && a.y.is_finite() && b.x.is_finite() && b.y.is_finite());
        let r = Rect::new(a, b);
        assert!(r.width() == r.max().x - r.min().x);
        assert!(r.height() == r.max().y - r.min().y);
    }
    // specs/num.vs rmeet
    #[kani::proof]
    fn rect_intersects() {
        let (a, b) = (Rect::new(anyc(), anyc()), Rect::new(anyc(), anyc()));
        let want = !(a.max().x < b.min().x) && !(a.max().y < b.min().y) && !(b.max().x < a.min().x) && !(b.max().y < a.min().y);
        assert!(a.intersects(&b) == want);
    }
    // specs/geo.vs bounding_rect of Point, Line, Rect
    #[kani::proof]
    fn bounding() {
        let (a, b) = (anyc(), anyc());
        let p = Point(a).bounding_rect();
        assert!(samec(p.min(), a) && samec(p.max(), a));
        let l = Line::new(a, b).bounding_rect();
        let r = Rect::new(a, b);
        assert!(samec(l.min(), r.min()) && samec(l.max(), r.max()));
        let s = r.bounding_rect();
        assert!(samec(s.min(), r.min()) && samec(s.max(), r.max()));
    }
}

/// the crate's own functions on machine numbers (facts.rs), rounding included: nothing is idealised here
#[cfg(kani)]
mod real_code {
    use crate::facts;
    macro_rules! harness {
        ($($f:ident $n:expr;)*) => { $(
            #[kani::proof]
            fn $f() {
                let v: [f64; $n] = kani::any();
                let r = facts::$f(&v);
                kani::cover!(r.is_some());
                assert!(r != Some(false));
            }
        )* };
    }
    harness! { euclid_rects 8; sphere_rects 8; sphere_pt_rect 6; radians 2; }
}
