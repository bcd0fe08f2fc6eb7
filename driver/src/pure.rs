//! Checks over the geometry functions.
use crate::rng::{dict, lit, Rng};
use crate::scene::{NumT, Num, G};
use crate::trees::R;
use geo::{coord, BoundingRect, Coord, Distance, Euclidean, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon, Rect, Triangle};
use quadtree::spherical::math as sm;
use quadtree::*;
use std::f64::consts::*;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub trait Flt: Num + QtFloat {}
impl Flt for f64 {}
impl Flt for f32 {}

/// Input of one case.
#[derive(Clone, Debug)]
pub struct In {
    pub num: NumT,
    pub a: G,
    pub b: G,
    pub samples: Vec<[f64; 2]>,
}

fn planar(r: &mut Rng, style: u64) -> f64 {
    match style {
        0 => r.below(9) as f64 - 4.0,
        1 => (r.below(33) as f64 - 16.0) / 4.0,
        2 => r.range(-10.0, 10.0),
        _ => r.range(-1e4, 1e4),
    }
}
fn lng(r: &mut Rng, style: u64) -> f64 {
    match style {
        0 => (r.below(9) as f64 - 4.0) / 4.0 * 3.14159,
        1 => r.range(-PI, PI),
        2 => r.range(-0.2, 0.2),
        _ => *r.pick(&[3.1, -3.1, 3.14, -3.14, 3.0, -3.0, 0.0, 1.5, -1.5]) + r.range(-0.001, 0.001),
    }
}
fn lat(r: &mut Rng, style: u64) -> f64 {
    match style {
        0 => (r.below(9) as f64 - 4.0) / 4.0 * 1.5707,
        1 => r.range(-FRAC_PI_2, FRAC_PI_2),
        2 => r.range(-0.2, 0.2),
        _ => *r.pick(&[1.57, -1.57, 1.4, -1.4, 0.0, 0.7]),
    }
}
fn shape(r: &mut Rng, sph: bool, odd: bool, kinds: &[u8]) -> G {
    let st = r.below(4);
    let one = |r: &mut Rng| -> [f64; 2] {
        if sph {
            [lng(r, st), lat(r, st)]
        } else {
            [planar(r, st), planar(r, st)]
        }
    };
    match *r.pick(kinds) {
        0 => G::Pt(one(r)),
        1 => {
            let (a, b) = (one(r), one(r));
            if r.chance(1, 6) {
                return G::Ln([a[0], a[1], a[0], a[1]]);
            }
            G::Ln([a[0], a[1], b[0], b[1]])
        }
        2 => {
            let n = if odd && r.chance(1, 4) { r.below(3) } else if odd && r.chance(1, 12) { 40 + r.below(300) } else { 2 + r.below(5) };
            let mut v: Vec<[f64; 2]> = (0..n).map(|_| one(r)).collect();
            if odd && v.len() > 1 && r.chance(1, 4) {
                // repeated positions, closed strings
                let j = 1 + r.below(v.len() as u64 - 1) as usize;
                v[j] = if r.chance(1, 2) { v[0] } else { v[j - 1] };
            }
            G::Ls(v)
        }
        3 => {
            let (a, b) = (one(r), one(r));
            let (x1, y1, x2, y2) = (a[0].min(b[0]), a[1].min(b[1]), a[0].max(b[0]), a[1].max(b[1]));
            let (w, h) = (x2 - x1, y2 - y1);
            let bx = |f: f64, t: f64, g: f64, u: f64| vec![[x1 + w * f, y1 + h * g], [x1 + w * t, y1 + h * g], [x1 + w * t, y1 + h * u], [x1 + w * f, y1 + h * u]];
            let ext = match r.below(4) {
                0 | 1 => bx(0.0, 1.0, 0.0, 1.0),
                2 => {
                    // any number of corners, in order around the middle
                    let n = 4 + r.below(6);
                    (0..n).map(|k| {
                        let t = 2.0 * PI * (k as f64 + 0.9 * r.f()) / n as f64;
                        let s = *r.pick(&[0.2, 0.5, 1.0]) * (0.5 + 0.5 * r.f());
                        [x1 + w * (0.5 + 0.5 * s * t.cos()), y1 + h * (0.5 + 0.5 * s * t.sin())]
                    }).collect()
                }
                _ if r.chance(1, 3) => {
                    // a box with a corner pushed in or one more position on an edge
                    let mut v = bx(0.0, 1.0, 0.0, 1.0);
                    let (u, t) = (r.range(0.55, 1.0), r.range(0.55, 1.0));
                    if r.chance(1, 2) { v[2] = [x1 + w * u, y1 + h * t] } else { v.insert(1, [x1 + w * u, y1]) }
                    v
                }
                _ => vec![[x1, y1], [x2, y1 + h * r.f()], [x1 + w * r.f(), y2]],
            };
            let boxed = ext.len() == 4 && ext[2] == [x2, y2];
            let mut holes = vec![];
            if boxed && w > 0.0 && h > 0.0 {
                if r.chance(1, 2) {
                    holes.push(bx(0.1, 0.45, 0.2, 0.8));
                }
                if r.chance(1, 2) {
                    holes.push(bx(0.55, 0.9, 0.1, 0.7));
                }
                if odd && r.chance(1, 4) {
                    // a grid of small holes
                    let m = 2 + r.below(6);
                    holes = (0..m * m).map(|k| {
                        let (u, v) = ((k % m) as f64, (k / m) as f64);
                        bx((u + 0.2) / m as f64, (u + 0.8) / m as f64, (v + 0.2) / m as f64, (v + 0.8) / m as f64)
                    }).collect();
                }
            }
            if odd && r.chance(1, 10) {
                // degenerate rings
                match r.below(7) {
                    4 => holes.push(vec![a]),
                    5 => holes.push(vec![a, b]),
                    6 => holes.push(vec![[a[0], b[1]], [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0]]),
                    0 => return G::Pg(vec![], vec![]),
                    1 => return G::Pg(vec![a], vec![]),
                    2 => return G::Pg(vec![a, b], vec![]),
                    _ => holes.push(vec![]),
                }
            }
            G::Pg(ext, holes)
        }
        _ => {
            let (a, b) = (one(r), one(r));
            let mut q = [a[0], a[1], b[0], b[1]];
            if r.chance(1, 8) {
                q[2] = q[0];
            }
            if r.chance(1, 8) {
                q[3] = q[1];
            }
            G::Rc(q)
        }
    }
}

const ALL: &[u8] = &[0, 1, 2, 3, 4];
pub fn gen(prop: &str, r: &mut Rng) -> In {
    let num = if r.chance(1, 4) { NumT::F32 } else { NumT::F64 };
    let (sph, ka, kb): (bool, &[u8], &[u8]) = match prop {
        "C11" => (false, ALL, if r.chance(1, 3) { &[4] } else { ALL }),
        "C12" => (true, ALL, ALL),
        "C13" => (true, &[0], &[1, 2, 3]),
        "C14" => (true, &[0], &[4]),
        "C15" => (true, &[0], &[0]),
        "C19" => (true, &[4], &[4]),
        _ => (false, ALL, ALL),
    };
    // the distance functions of geo are not made for shapes without positions, so C11 does without them
    let odd = prop != "C11";
    let mut a = shape(r, sph, odd, ka);
    let mut b = shape(r, sph, odd, kb);
    if prop == "C11" && matches!(b, G::Rc(_)) && r.chance(1, 2) {
        a = shape(r, sph, odd, &[4]);
    }
    // touching and shared positions, points in holes
    if r.chance(1, 5) {
        match (&mut a, &b) {
            (G::Pt(p), G::Pt(q)) => {
                *p = match r.below(4) {
                    0 => *q,
                    1 => [-q[0], q[1]],
                    // the other side of the globe, up to rounding
                    2 => [if q[0] > 0.0 { q[0] - PI } else { q[0] + PI }, -q[1]],
                    _ => [if q[0] > 0.0 { q[0] - PI } else { q[0] + PI }, -q[1] + *r.pick(&[1e-16, 1e-12, 1e-9, 1e-6])],
                }
            }
            (G::Pt(p), G::Rc(q)) => {
                if r.chance(1, 2) {
                    p[0] = q[0].min(q[2])
                }
                if r.chance(1, 2) {
                    p[1] = q[1].max(q[3])
                }
            }
            (G::Pt(p), G::Ls(v)) | (G::Pt(p), G::Pg(v, _)) if !v.is_empty() => *p = *r.pick(v),
            (G::Rc(p), G::Rc(q)) => {
                p[0] = q[2];
                if r.chance(1, 2) {
                    p[1] = q[3]
                }
            }
            _ => {}
        }
    } else if let (G::Pt(p), G::Pg(e, h)) = (&mut a, &b) {
        if r.chance(1, 2) {
            let ring = if h.is_empty() { e } else { r.pick(h) };
            let n = ring.len() as f64;
            if n > 0.0 { *p = [ring.iter().map(|c| c[0]).sum::<f64>() / n, ring.iter().map(|c| c[1]).sum::<f64>() / n]; }
        }
    } else if let (G::Pt(p), G::Rc(q)) = (&mut a, &b) {
        match r.below(4) {
            // above or below, beside, inside
            0 => p[0] = q[0] + (q[2] - q[0]) * r.f(),
            1 => p[1] = q[1] + (q[3] - q[1]) * r.f(),
            2 => *p = [q[0] + (q[2] - q[0]) * r.f(), q[1] + (q[3] - q[1]) * r.f()],
            _ => {}
        }
    }
    if prop == "C17" && r.chance(1, 8) {
        b = if r.chance(1, 2) { G::Ls(vec![]) } else { G::Pg(vec![], vec![]) };
    }
    if prop == "C16" {
        let deg = |g: &mut [f64; 2]| {
            g[0] *= 17.0;
            g[1] *= 8.0;
        };
        if let G::Pt(p) = &mut a {
            deg(p)
        }
    }
    // a look through the magnifying glass
    if r.chance(1, 5) {
        let f = 10f64.powi(-(1 + r.below(if num == NumT::F32 { 3 } else { 9 }) as i32));
        let o = if sph { [lng(r, 1) * 0.9, lat(r, 1) * 0.9] } else if r.chance(1, 2) { [0.0, 0.0] } else { [planar(r, 2), planar(r, 2)] };
        for g in [&mut a, &mut b] {
            g.each(&mut |p: &mut [f64; 2]| {
                p[0] = o[0] + p[0] * f;
                p[1] = o[1] + p[1] * f;
            });
        }
    }
    if !dict().is_empty() && r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            let ax = r.below(2) as usize;
            let x = lit(r, false);
            let x = if !sph { x } else if ax == 0 { x.clamp(-3.1415, 3.1415) } else { x.clamp(-1.5707, 1.5707) };
            let from = if r.chance(1, 2) { &b } else { &a };
            let mut away = x;
            from.clone().each(&mut |p: &mut [f64; 2]| away = p[ax] + x);
            let away = if !sph { away } else if ax == 0 { away.clamp(-3.1415, 3.1415) } else { away.clamp(-1.5707, 1.5707) };
            let to = if r.chance(1, 2) { &mut a } else { &mut b };
            if matches!(to, G::Pg(..)) {
                // stays a polygon without crossings
                continue;
            }
            match r.below(4) {
                0 | 1 => {
                    let mut k = 0;
                    to.each(&mut |p: &mut [f64; 2]| {
                        if k == 0 {
                            p[ax] = x;
                        }
                        k += 1;
                    })
                }
                2 => to.each(&mut |p: &mut [f64; 2]| p[ax] = away),
                _ => {
                    // that many positions
                    let n = lit(r, true).clamp(0.0, 1500.0) as usize;
                    if let G::Ls(v) = to {
                        let m = v.len();
                        if m > 0 && (odd || n > 1) {
                            while v.len() < n {
                                let (p, q) = (v[r.below(m as u64) as usize], v[r.below(m as u64) as usize]);
                                v.push([p[0], q[1]]);
                            }
                            v.truncate(n.max(1));
                        }
                    }
                }
            }
        }
    }
    // zero has two signs
    if r.chance(1, 6) {
        for g in [&mut a, &mut b] {
            g.each(&mut |p: &mut [f64; 2]| {
                for x in p.iter_mut() {
                    if *x == 0.0 && r.chance(1, 2) {
                        *x = -0.0
                    }
                }
            });
        }
    }
    let samples = (0..40).map(|_| [r.f(), r.f()]).collect();
    In { num, a, b, samples }
}

pub fn check(prop: &str, i: &In) -> R {
    match i.num {
        NumT::F32 => go::<f32>(prop, i),
        _ => go::<f64>(prop, i),
    }
}
fn go<T: Flt + ToRad>(prop: &str, i: &In) -> R {
    match prop {
        "C11" => c11::<T>(i),
        "C12" => c12::<T>(i),
        // the formula itself, and that every way to ask for the distance comes to it
        "C13" => c13::<T>(i).and_then(|_| c12::<T>(i)),
        "C14" => c14::<T>(i).and_then(|_| c12::<T>(i)),
        "C15" => c15::<T>(i).and_then(|_| c12::<T>(i)),
        "C16" => c16::<T>(i),
        "C17" => c17::<T>(i),
        "C19" => c19::<T>(i).and_then(|_| c12::<T>(i)),
        _ => Err(format!("no such property {prop}")),
    }
}
pub trait ToRad {
    const LOOSE: bool;
}
impl ToRad for f64 {
    const LOOSE: bool = false;
}
impl ToRad for f32 {
    const LOOSE: bool = true;
}

fn close<T: ToRad>(a: f64, b: f64, scale: f64) -> bool {
    if a == b {
        return true;
    }
    let t = if T::LOOSE { 1e-3 } else { 1e-9 };
    (a - b).abs() <= t * (scale + a.abs().max(b.abs()))
}

// ---- C11 Euclidean ----
fn span(g: &G) -> f64 {
    g.bbox::<f64>().map_or(1.0, |b| b.iter().fold(1.0, |m, x| x.abs().max(m)))
}
fn gd<T: Flt>(a: &Geometry<T>, b: &Geometry<T>) -> T {
    use Geometry as X;
    macro_rules! d { ($a:expr, $b:expr) => { Euclidean::distance($a, $b) }; }
    macro_rules! row {
        ($p:expr, $b:expr) => {
            match $b {
                X::Point(q) => d!($p, q),
                X::Line(q) => d!($p, q),
                X::LineString(q) => d!($p, q),
                X::Polygon(q) => d!($p, q),
                X::Rect(q) => d!($p, &q.to_polygon()),
            }
        };
    }
    match a {
        X::Point(p) => row!(p, b),
        X::Line(p) => row!(p, b),
        X::LineString(p) => row!(p, b),
        X::Polygon(p) => row!(p, b),
        X::Rect(p) => row!(&p.to_polygon(), b),
    }
}
fn c11<T: Flt + ToRad>(i: &In) -> R {
    let (a, b) = (i.a.geom::<T>(), i.b.geom::<T>());
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let want = match (&i.a, &i.b) {
        (G::Rc(_), G::Rc(_)) => {
            let (p, q) = (i.a.bbox::<T>().unwrap().map(|x| x.to()), i.b.bbox::<T>().unwrap().map(|x| x.to()));
            let gap = |k: usize| (q[k] - p[k + 2]).max(p[k] - q[k + 2]).max(0.0);
            gap(0).hypot(gap(1))
        }
        _ => gd(&a, &b).to(),
    };
    if want.is_nan() {
        return Ok(()); // geo itself has no answer (squares that underflow): nothing to compare with
    }
    let sc = span(&i.a).max(span(&i.b)) * 1e-3;
    let ways: Vec<(&str, T)> = vec![
        ("ref/ref", ra.dist_euclidean(&rb)),
        ("ref/owned", ra.dist_euclidean(&b)),
        ("owned/ref", a.dist_euclidean(&rb)),
        ("owned/owned", a.dist_euclidean(&b)),
        ("swapped", rb.dist_euclidean(&ra)),
        ("dist_geom", a.with_calc(CalcMethod::Euclidean).dist_geom(&rb).map_err(|e| format!("dist_geom: {e:?}"))?),
    ];
    let touch = matches!((&i.a, &i.b), (G::Rc(_), G::Rc(_))) && want == 0.0;
    for (w, d) in &ways {
        ensure!(d.to() >= 0.0, "{w} distance is {d}");
        ensure!(!touch || d.to() == 0.0, "{w} distance is {d}, but the rects share a point");
        ensure!(close::<T>(d.to(), want, sc), "{w} distance is {d}, expected {want}");
    }
    if let Geometry::Rect(q) = &b {
        let d = a.with_calc(CalcMethod::Euclidean).dist_bbox(q).map_err(|e| format!("dist_bbox: {e:?}"))?;
        ensure!(close::<T>(d.to(), want, sc), "dist_bbox is {d}, expected {want}");
        for (w, d) in concrete_e(&a, &rb, &b) {
            ensure!(close::<T>(d.to(), want, sc), "{w} distance is {d}, expected {want}");
        }
    } else {
        for (w, d) in concrete_e(&a, &rb, &b) {
            ensure!(close::<T>(d.to(), want, sc), "{w} distance is {d}, expected {want}");
        }
    }
    Ok(())
}
fn concrete_e<T: Flt>(a: &Geometry<T>, rb: &GeometryRef<T>, b: &Geometry<T>) -> Vec<(&'static str, T)> {
    match a {
        Geometry::Point(p) => vec![("Point/ref", p.dist_euclidean(rb)), ("Point/owned", p.dist_euclidean(b))],
        Geometry::Line(p) => vec![("Line/ref", p.dist_euclidean(rb)), ("Line/owned", p.dist_euclidean(b))],
        Geometry::LineString(p) => vec![("LineString/ref", p.dist_euclidean(rb)), ("LineString/owned", p.dist_euclidean(b))],
        Geometry::Polygon(p) => vec![("Polygon/ref", p.dist_euclidean(rb)), ("Polygon/owned", p.dist_euclidean(b))],
        Geometry::Rect(p) => vec![("Rect/ref", p.dist_euclidean(rb)), ("Rect/owned", p.dist_euclidean(b))],
    }
}
fn concrete_h<T: Flt>(a: &Geometry<T>, rb: &GeometryRef<T>, b: &Geometry<T>) -> Vec<(&'static str, Result<T, Error>)> {
    match a {
        Geometry::Point(p) => vec![("Point/ref", p.dist_haversine(rb)), ("Point/owned", p.dist_haversine(b))],
        Geometry::Line(p) => vec![("Line/ref", p.dist_haversine(rb)), ("Line/owned", p.dist_haversine(b))],
        Geometry::LineString(p) => vec![("LineString/ref", p.dist_haversine(rb)), ("LineString/owned", p.dist_haversine(b))],
        Geometry::Polygon(p) => vec![("Polygon/ref", p.dist_haversine(rb)), ("Polygon/owned", p.dist_haversine(b))],
        Geometry::Rect(p) => vec![("Rect/ref", p.dist_haversine(rb)), ("Rect/owned", p.dist_haversine(b))],
    }
}

// ---- C12 which haversine distances exist ----
fn c12<T: Flt + ToRad>(i: &In) -> R {
    use Geometry as X;
    let (a, b) = (i.a.geom::<T>(), i.b.geom::<T>());
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let want = match (&a, &b) {
        (X::Point(p), X::Point(q)) => Ok(sm::dist_pt_pt(p, q)),
        (X::Point(p), X::Line(q)) | (X::Line(q), X::Point(p)) => Ok(sm::dist_pt_line(p, q)),
        (X::Point(p), X::LineString(q)) | (X::LineString(q), X::Point(p)) => Ok(sm::dist_pt_linestring(p, q)),
        (X::Point(p), X::Polygon(q)) | (X::Polygon(q), X::Point(p)) => Ok(sm::dist_pt_poly(p, q)),
        (X::Point(p), X::Rect(q)) | (X::Rect(q), X::Point(p)) => Ok(sm::dist_pt_rect(p, q)),
        (X::Rect(p), X::Rect(q)) => Ok(sm::dist_rect_rect(p, q)),
        _ => Err(Error::InvalidDistance),
    };
    let mut ways = vec![
        ("ref/ref", ra.dist_haversine(&rb)),
        ("ref/owned", ra.dist_haversine(&b)),
        ("owned/ref", a.dist_haversine(&rb)),
        ("owned/owned", a.dist_haversine(&b)),
        ("dist_geom", a.with_calc(CalcMethod::Spherical).dist_geom(&rb)),
    ];
    ways.push(("swapped", rb.dist_haversine(&ra)));
    ways.extend(concrete_h(&a, &rb, &b));
    if let X::Rect(q) = &b {
        ways.push(("dist_bbox", a.with_calc(CalcMethod::Spherical).dist_bbox(q)));
    }
    for (w, d) in ways {
        let ok = match (&d, &want) {
            (Ok(x), Ok(y)) => x == y || (x.to() - y.to()).abs() <= if T::LOOSE { 1e-3 } else { 1e-7 },
            (Err(x), Err(y)) => x == y,
            _ => false,
        };
        ensure!(ok, "{w} haversine distance is {d:?}, expected {want:?}");
    }
    // a shape and itself: the very object, its references and a copy
    for (g, rg) in [(&a, &ra), (&b, &rb)] {
        let c = g.clone();
        let want = rg.dist_haversine(&c);
        ensure!(want.is_ok() == matches!(g, X::Point(_) | X::Rect(_)), "haversine distance to a copy is {want:?}");
        let mut ways = vec![("itself", g.dist_haversine(g)), ("its reference", g.dist_haversine(rg)), ("its reference twice", rg.dist_haversine(rg))];
        ways.extend(concrete_h(g, rg, g));
        ways.push(("itself, dist_geom", g.with_calc(CalcMethod::Spherical).dist_geom(rg)));
        for (w, d) in ways {
            ensure!(d == want || matches!((&d, &want), (Ok(x), Ok(y)) if x != x && y != y), "haversine distance to {w} is {d:?}, to a copy {want:?}");
        }
    }
    Ok(())
}

// ---- haversine oracle: angle between unit vectors ----
fn ang(a: [f64; 2], b: [f64; 2]) -> f64 {
    let v = |p: [f64; 2]| [p[1].cos() * p[0].cos(), p[1].cos() * p[0].sin(), p[1].sin()];
    let (u, w) = (v(a), v(b));
    let cr = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
    let n = (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]).sqrt();
    n.atan2(u[0] * w[0] + u[1] * w[1] + u[2] * w[2])
}
fn tol<T: ToRad>(d: f64) -> f64 {
    if d < 0.05 {
        return if T::LOOSE { 1e-5 + 1e-4 * d } else { 1e-13 + 1e-8 * d };
    }
    match (T::LOOSE, d > 3.0) {
        (false, false) => 1e-9,
        (false, true) => 2e-7,
        (true, false) => 2e-3,
        (true, true) => 4e-3,
    }
}
fn near<T: ToRad>(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= tol::<T>(a.max(b))
}
fn xy<T: Flt>(c: Coord<T>) -> [f64; 2] {
    [c.x.to(), c.y.to()]
}

fn seg(p: [f64; 2], a: [f64; 2], b: [f64; 2]) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l = dx * dx + dy * dy;
    if l == 0.0 {
        return ang(p, a);
    }
    let t = (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l).clamp(0.0, 1.0);
    ang(p, [a[0] + t * dx, a[1] + t * dy])
}
fn string<T: Flt>(p: [f64; 2], l: &LineString<T>) -> f64 {
    l.0.windows(2).map(|w| seg(p, xy(w[0]), xy(w[1]))).fold(f64::INFINITY, f64::min)
}
/// Even-odd test with a margin: None when too close to call.
fn inside<T: Flt>(p: [f64; 2], l: &LineString<T>) -> Option<bool> {
    let mut c = false;
    if let [a] = l.0[..] {
        let a = xy(a);
        return if (a[0] - p[0]).hypot(a[1] - p[1]) < 1e-6 { None } else { Some(false) };
    }
    for w in l.0.windows(2) {
        let (a, b) = (xy(w[0]), xy(w[1]));
        let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
        let len = (dx * dx + dy * dy).sqrt();
        let t = if len == 0.0 { 0.0 } else { (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (len * len)).clamp(0.0, 1.0) };
        let d = (p[0] - a[0] - t * dx).hypot(p[1] - a[1] - t * dy);
        if d < 1e-6 {
            return None;
        }
        if (a[1] > p[1]) != (b[1] > p[1]) && p[0] < dx * (p[1] - a[1]) / dy + a[0] {
            c = !c;
        }
    }
    Some(c)
}

fn c13<T: Flt + ToRad>(i: &In) -> R {
    let p = match i.a.geom::<T>() {
        Geometry::Point(p) => p,
        _ => return Ok(()),
    };
    let f = xy(p.0);
    match i.b.geom::<T>() {
        Geometry::Line(l) => {
            let (got, want) = (sm::dist_pt_line(&p, &l).to(), seg(f, xy(l.start), xy(l.end)));
            ensure!(near::<T>(got, want), "point-line distance is {got}, to the clamped projection it is {want}");
        }
        Geometry::LineString(l) => {
            let (got, want) = (sm::dist_pt_linestring(&p, &l).to(), string(f, &l));
            ensure!(near::<T>(got, want), "point-linestring distance is {got}, the closest segment is at {want}");
        }
        Geometry::Polygon(g) => {
            let got = sm::dist_pt_poly(&p, &g).to();
            let out = g.interiors().iter().chain([g.exterior()]).map(|r| string(f, r)).fold(f64::INFINITY, f64::min);
            let ins: Option<Vec<bool>> = g.interiors().iter().map(|r| inside(f, r)).collect();
            match (inside(f, g.exterior()), ins) {
                (Some(e), Some(h)) => {
                    let want = if e && !h.contains(&true) { 0.0 } else { out };
                    ensure!(near::<T>(got, want), "point-polygon distance is {got}, expected {want}");
                    ensure!(want > 0.0 || got == 0.0, "the point lies in the polygon, but the distance is {got}");
                }
                _ => ensure!(got <= out + tol::<T>(out), "point-polygon distance is {got}, a ring is at {out}"),
            }
            // positions on the exterior ring itself intersect the polygon
            for c in g.exterior().0.iter().take(3) {
                let z = sm::dist_pt_poly(&Point(*c), &g).to();
                ensure!(z == 0.0, "distance from the ring's own position {c:?} is {z}");
            }
        }
        _ => {}
    }
    for n in 0..2 {
        let l = LineString::<T>::new(vec![p.0; n]);
        let d = sm::dist_pt_linestring(&p, &l).to();
        ensure!(d == f64::INFINITY, "distance to a linestring without segments is {d}");
    }
    Ok(())
}

fn c14<T: Flt + ToRad>(i: &In) -> R {
    let (p, q) = match (i.a.geom::<T>(), i.b.geom::<T>()) {
        (Geometry::Point(p), Geometry::Rect(q)) => (p, q),
        _ => return Ok(()),
    };
    let d = sm::dist_pt_rect(&p, &q).to();
    let f = xy(p.0);
    let (lo, hi) = (xy(q.min()), xy(q.max()));
    let ins = lo[0] <= f[0] && f[0] <= hi[0] && lo[1] <= f[1] && f[1] <= hi[1];
    ensure!(d >= 0.0, "point-rect distance is {d}");
    if ins {
        ensure!(d == 0.0, "the point is in the rect, but the distance is {d}");
        return Ok(());
    }
    // the same place can be written with another lng; only that can make an outside point's distance 0
    let mut best = f64::INFINITY;
    let mut see = |t: [f64; 2]| {
        let c = [lo[0] + t[0] * (hi[0] - lo[0]), lo[1] + t[1] * (hi[1] - lo[1])];
        best = best.min(ang(f, c));
    };
    for s in &i.samples {
        see(*s);
    }
    let n = 400;
    for k in 0..=n {
        let t = k as f64 / n as f64;
        for e in [[0.0, t], [1.0, t], [t, 0.0], [t, 1.0]] {
            see(e);
        }
    }
    // refine along the vertical edges and straight up and down
    for x in [lo[0], hi[0], f[0].clamp(lo[0], hi[0])] {
        let y = f[1].sin().atan2(f[1].cos() * (f[0] - x).cos()).clamp(lo[1], hi[1]);
        best = best.min(ang(f, [x, y]));
    }
    ensure!(d <= best + tol::<T>(best), "point-rect distance is {d}, but a position of the rect is at {best}");
    ensure!(d >= best - 0.02 - tol::<T>(best), "point-rect distance is {d}, but no position of the rect is closer than {best}");
    if f[0] >= lo[0] && f[0] <= hi[0] {
        let gap = (lo[1] - f[1]).max(f[1] - hi[1]);
        ensure!(near::<T>(d, gap), "the rect is straight up or down: distance {d}, lat gap {gap}");
    }
    if best > 1e-3 {
        ensure!(d > 0.0, "the point is outside the rect ({best} away), but the distance is 0");
    }
    Ok(())
}

fn c15<T: Flt + ToRad>(i: &In) -> R {
    let (p, q) = match (i.a.geom::<T>(), i.b.geom::<T>()) {
        (Geometry::Point(p), Geometry::Point(q)) => (p, q),
        _ => return Ok(()),
    };
    let d = sm::dist_pt_pt(&p, &q).to();
    let want = ang(xy(p.0), xy(q.0));
    ensure!(d >= 0.0 && d <= PI + 1e-6, "distance {d} is not in [0, pi]");
    ensure!(near::<T>(d, want), "distance is {d}, the great circle angle is {want}");
    let e = sm::dist_pt_pt(&q, &p).to();
    ensure!(near::<T>(d, e), "distance is {d} one way and {e} the other");
    ensure!(sm::dist_pt_pt(&p, &p).to() == 0.0, "distance from a point to itself is {}", sm::dist_pt_pt(&p, &p));
    let w = Point::new(T::of(p.x().to() + 2.0 * PI), p.y());
    let e = sm::dist_pt_pt(&w, &q).to();
    ensure!(near::<T>(d, e), "distance is {d}, but {e} when the lng is written a full turn further");
    let (a, b) = (Point::new(T::of(PI), p.y()), Point::new(T::of(-PI), p.y()));
    let z = sm::dist_pt_pt(&a, &b).to();
    ensure!(near::<T>(z, 0.0), "the two ways to write lng 180 are {z} apart");
    Ok(())
}

fn coords<T: Flt>(g: &Geometry<T>) -> Vec<[f64; 2]> {
    match g {
        Geometry::Point(p) => vec![xy(p.0)],
        Geometry::Line(l) => vec![xy(l.start), xy(l.end)],
        Geometry::LineString(l) => l.0.iter().map(|c| xy(*c)).collect(),
        Geometry::Polygon(p) => {
            let mut v: Vec<[f64; 2]> = vec![];
            for r in [p.exterior()].into_iter().chain(p.interiors()) {
                v.push([-7e7, r.0.len() as f64]);
                v.extend(r.0.iter().map(|c| xy(*c)));
            }
            v
        }
        Geometry::Rect(r) => vec![xy(r.min()), xy(r.max())],
    }
}
fn kind<T: Flt>(g: &Geometry<T>) -> u8 {
    match g {
        Geometry::Point(_) => 0,
        Geometry::Line(_) => 1,
        Geometry::LineString(_) => 2,
        Geometry::Polygon(_) => 3,
        Geometry::Rect(_) => 4,
    }
}
fn c16<T: Flt + ToRad>(i: &In) -> R {
    for g in [&i.a, &i.b] {
        let a = g.geom::<T>();
        let before = coords(&a);
        let want: Vec<[f64; 2]> = before.iter().map(|c| if c[0] == -7e7 { *c } else { [c[0] / 180.0 * PI, c[1] / 180.0 * PI] }).collect();
        let conv = a.to_radians();
        let mut inp = a.clone();
        inp.to_radians_in_place();
        let mut per = a.clone();
        match &mut per {
            Geometry::Point(d) => {
                let e = d.to_radians();
                d.to_radians_in_place();
                ensure!(e == *d, "Point: to_radians {e:?} in place {d:?}")
            }
            Geometry::Line(d) => {
                let e = d.to_radians();
                d.to_radians_in_place();
                ensure!(e == *d, "Line: to_radians {e:?} in place {d:?}")
            }
            Geometry::LineString(d) => {
                let e = d.to_radians();
                d.to_radians_in_place();
                ensure!(e == *d, "LineString: to_radians {e:?} in place {d:?}")
            }
            Geometry::Polygon(d) => {
                let e = d.to_radians();
                d.to_radians_in_place();
                ensure!(e == *d, "Polygon: to_radians {e:?} in place {d:?}")
            }
            Geometry::Rect(d) => {
                let e = d.to_radians();
                d.to_radians_in_place();
                ensure!(e == *d, "Rect: to_radians {e:?} in place {d:?}")
            }
        }
        ensure!(coords(&a) == before, "to_radians changed its input");
        for (w, x) in [("to_radians", &conv), ("to_radians_in_place", &inp), ("to_radians_in_place of the inner geometry", &per)] {
            ensure!(kind(x) == kind(&a), "{w} gives {x:?} for {a:?}");
            let got = coords(x);
            ensure!(got.len() == want.len(), "{w} gives {x:?} for {a:?}");
            for (g, w2) in got.iter().zip(&want) {
                let rel = if T::LOOSE { 1e-5 } else { 1e-14 };
                for k in 0..2 {
                    ensure!((g[k] - w2[k]).abs() <= rel * w2[k].abs(), "{w} of {a:?} has the coordinate {g:?}, expected {w2:?}");
                }
            }
        }
        ensure!(coords(&conv) == coords(&inp), "to_radians gives {conv:?}, in place {inp:?}");
    }
    Ok(())
}

fn c17<T: Flt + ToRad>(i: &In) -> R {
    for g in [&i.a, &i.b] {
        let a = g.geom::<T>();
        let bb = g.bbox::<T>();
        let show = |r: &Option<Rect<T>>| r.map(|r| [r.min().x, r.min().y, r.max().x, r.max().y]);
        let (o, r) = (a.bounding_rect(), a.as_geom().bounding_rect());
        ensure!(show(&o) == bb, "bounding box of {a:?} is {o:?}, expected {bb:?}");
        ensure!(show(&r) == bb, "bounding box of the reference to {a:?} is {r:?}, expected {bb:?}");
        let conv: Geometry<T> = match &a {
            Geometry::Point(d) => (*d).into(),
            Geometry::Line(d) => (*d).into(),
            Geometry::LineString(d) => d.clone().into(),
            Geometry::Polygon(d) => d.clone().into(),
            Geometry::Rect(d) => (*d).into(),
        };
        let ext: geo::Geometry<T> = match &a {
            Geometry::Point(d) => (*d).into(),
            Geometry::Line(d) => (*d).into(),
            Geometry::LineString(d) => d.clone().into(),
            Geometry::Polygon(d) => d.clone().into(),
            Geometry::Rect(d) => (*d).into(),
        };
        let tried = Geometry::<T>::try_from(ext).map_err(|e| format!("try_from of {a:?}: {e:?}"))?;
        for (w, x) in [("From", &conv), ("TryFrom", &tried)] {
            ensure!(kind(x) == kind(&a) && coords(x) == coords(&a), "{w} turns {a:?} into {x:?}");
        }
        let same = |r: GeometryRef<T>, e: &Geometry<T>| match (r, e) {
            (GeometryRef::Point(x), Geometry::Point(y)) => std::ptr::eq(x, y) || x == y,
            (GeometryRef::Line(x), Geometry::Line(y)) => x == y,
            (GeometryRef::LineString(x), Geometry::LineString(y)) => x == y,
            (GeometryRef::Polygon(x), Geometry::Polygon(y)) => x == y,
            (GeometryRef::Rect(x), Geometry::Rect(y)) => x == y,
            _ => false,
        };
        ensure!(same(a.as_geom(), &a) && same(a.as_geom().as_geom(), &a), "as_geom of {a:?} is {:?}", a.as_geom());
        let inner = match &a {
            Geometry::Point(d) => same(d.as_geom(), &a),
            Geometry::Line(d) => same(d.as_geom(), &a),
            Geometry::LineString(d) => same(d.as_geom(), &a),
            Geometry::Polygon(d) => same(d.as_geom(), &a),
            Geometry::Rect(d) => same(d.as_geom(), &a),
        };
        ensure!(inner, "as_geom of the geometry inside {a:?} is something else");
        if let Geometry::Point(p) = &a {
            ensure!(p.as_point() == *p && p.0.as_point() == *p, "as_point of {p:?}");
        }
        // unsupported kinds
        let c0 = coord! {x: T::of(0.0), y: T::of(0.0)};
        let pts: Vec<Coord<T>> = bb.map(|b| vec![coord! {x: b[0], y: b[1]}, coord! {x: b[2], y: b[3]}]).unwrap_or(vec![c0]);
        let un: Vec<geo::Geometry<T>> = vec![
            MultiPoint::new(pts.iter().map(|c| Point(*c)).collect()).into(),
            MultiLineString::new(vec![LineString::new(pts.clone())]).into(),
            MultiPolygon::<T>::new(vec![]).into(),
            MultiPolygon::new(vec![Polygon::new(LineString::new(pts.clone()), vec![])]).into(),
            MultiPoint::<T>::new(vec![]).into(),
            MultiPoint::new(vec![Point(pts[0])]).into(),
            MultiLineString::<T>::new(vec![]).into(),
            MultiLineString::new(vec![LineString::new(vec![])]).into(),
            MultiLineString::new(vec![LineString::new(pts.clone()), LineString::new(vec![c0, pts[0]])]).into(),
            geo::Geometry::GeometryCollection(geo::GeometryCollection::from(Vec::<geo::Geometry<T>>::new())),
            geo::Geometry::GeometryCollection(geo::GeometryCollection::from(vec![match &a {
                Geometry::Point(d) => geo::Geometry::from(*d),
                Geometry::Line(d) => (*d).into(),
                Geometry::LineString(d) => d.clone().into(),
                Geometry::Polygon(d) => d.clone().into(),
                Geometry::Rect(d) => (*d).into(),
            }])),
            Triangle::new(c0, c0, c0).into(),
            geo::Geometry::GeometryCollection(geo::GeometryCollection::from(vec![geo::Geometry::from(Point(pts[0]))])),
            Triangle::new(pts[0], c0, pts[0]).into(),
        ];
        for u in un {
            let t = Geometry::<T>::try_from(u.clone());
            ensure!(matches!(t, Err(Error::UnsupportedGeometry)), "try_from of {u:?} gives {t:?}");
        }
    }
    Ok(())
}

// ---- C19 spherical rect-rect ----
fn c19<T: Flt + ToRad>(i: &In) -> R {
    let (p, q) = match (i.a.geom::<T>(), i.b.geom::<T>()) {
        (Geometry::Rect(p), Geometry::Rect(q)) => (p, q),
        _ => return Ok(()),
    };
    let (d, e) = (sm::dist_rect_rect(&p, &q).to(), sm::dist_rect_rect(&q, &p).to());
    ensure!(d >= 0.0 && d <= PI + 1e-6, "distance is {d}");
    ensure!(near::<T>(d, e), "distance is {d} one way and {e} the other");
    let (a, b) = (i.a.bbox::<T>().unwrap().map(|x| x.to()), i.b.bbox::<T>().unwrap().map(|x| x.to()));
    let gap = |k: usize| (b[k] - a[k + 2]).max(a[k] - b[k + 2]).max(0.0);
    let (gx, gy) = (gap(0), gap(1));
    if gx == 0.0 {
        ensure!(near::<T>(d, gy), "the lng ranges meet: distance {d}, lat gap {gy}");
        ensure!(gy > 0.0 || d == 0.0, "the rects meet, but the distance is {d}");
        return Ok(());
    }
    let turn = |x: f64| {
        let m = x.abs() % (2.0 * PI);
        m.min(2.0 * PI - m)
    };
    let (ea, ei) = (turn(a[2] - b[0]), turn(a[0] - b[2]));
    let (y1, y2) = if gy > 0.0 {
        if a[3] < b[1] { (a[3], b[1]) } else { (a[1], b[3]) }
    } else {
        let (l, h) = (a[1].max(b[1]), a[3].min(b[3]));
        let y = if l.abs() > h.abs() { l } else { h };
        (y, y)
    };
    let (wa, wi) = (ang([a[2], y1], [b[0], y2]), ang([a[0], y1], [b[2], y2]));
    let fits = (near::<T>(d, wa) && ea <= ei + 1e-5) || (near::<T>(d, wi) && ei <= ea + 1e-5);
    ensure!(fits, "distance is {d}; one way round it is {wa} (lng {ea}), the other {wi} (lng {ei})");
    Ok(())
}
