//! What the crate's own functions do on machine numbers. Each takes its input as numbers and says `None` where the
//! fact does not apply, else whether it holds: Kani runs it for all numbers, `bin/replay` for one.
use geo::{Coord, Point, Rect};
use quadtree::{euclidean, spherical, ToRadians};

/// a number whose square neither overflows nor vanishes, nor that of its difference to another such number: equal
/// formulas that differ only there are not told apart
fn sane(v: f64) -> bool { v == 0.0 || 1e-90 <= v.abs() && v.abs() <= 1e90 }
fn rect(v: &[f64]) -> Option<Rect<f64>> {
    if !(sane(v[0]) && sane(v[1]) && sane(v[2]) && sane(v[3])) {
        return None;
    }
    Some(Rect::new(Coord { x: v[0], y: v[1] }, Coord { x: v[2], y: v[3] }))
}
fn meet_x(a: &Rect<f64>, b: &Rect<f64>) -> bool { a.max().x >= b.min().x && b.max().x >= a.min().x }
fn meet_y(a: &Rect<f64>, b: &Rect<f64>) -> bool { a.max().y >= b.min().y && b.max().y >= a.min().y }

/// C11: zero exactly on contact, never negative (facing edges; between corners `hypot` is beyond Kani)
pub fn euclid_rects(v: &[f64]) -> Option<bool> {
    let (a, b) = (rect(&v[..4])?, rect(&v[4..])?);
    let (x, y) = (meet_x(&a, &b), meet_y(&a, &b));
    if !x && !y {
        return None;
    }
    let d = euclidean::math::dist_rect_rect(&a, &b);
    Some((d == 0.0) == (x && y) && d >= 0.0)
}
/// C19: where the longitudes meet, zero exactly on contact, never negative
pub fn sphere_rects(v: &[f64]) -> Option<bool> {
    let (a, b) = (rect(&v[..4])?, rect(&v[4..])?);
    if !meet_x(&a, &b) {
        return None;
    }
    let d = spherical::math::dist_rect_rect(&a, &b);
    Some((d == 0.0) == meet_y(&a, &b) && d >= 0.0)
}
/// C14: where the longitudes meet, zero exactly inside, never negative
pub fn sphere_pt_rect(v: &[f64]) -> Option<bool> {
    let r = rect(&v[..4])?;
    let (x, y) = (v[4], v[5]);
    if !sane(x) || !sane(y) || !(r.min().x <= x && x <= r.max().x) {
        return None;
    }
    let d = spherical::math::dist_pt_rect(&Point::new(x, y), &r);
    Some((d == 0.0) == (r.min().y <= y && y <= r.max().y) && d >= 0.0)
}
/// C16: the sign stays, the size does not grow
pub fn radians(v: &[f64]) -> Option<bool> {
    if !sane(v[0]) || !sane(v[1]) {
        return None;
    }
    let q = Point::new(v[0], v[1]).to_radians();
    let ok = |a: f64, b: f64| b.abs() <= a.abs() && if a > 0.0 { b >= 0.0 } else if a < 0.0 { b <= 0.0 } else { b == 0.0 };
    Some(ok(v[0], q.x()) && ok(v[1], q.y()))
}
