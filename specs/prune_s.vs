//@@config sph.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_geo.vs
//@@include num.vs
//@@include real.vs
//@@include shapes_geo.vs
//@@include trig.vs
//@@include sphspec.vs
// ---------------------------------------------------------------- what lies in a rectangle is not nearer than the rectangle
pub open spec fn inc(r: Rect, c: Coord) -> bool { hasp(r, key(c.x), key(c.y)) }
// the smallest rectangle around a shape lies in r
pub open spec fn lies(d: Sh, r: Rect) -> bool {
    match d {
        Sh::Pt(c) => inc(r, c), Sh::Ln(a, b) => inc(r, a) && inc(r, b), Sh::Ls(s) => forall|i: int| 0 <= i < s.len() ==> inc(r, #[trigger] s[i]),
        Sh::Pg(e, i) => (forall|j: int| 0 <= j < e.len() ==> inc(r, #[trigger] e[j])) && forall|k: int, j: int| 0 <= k < i.len() && 0 <= j < i[k].len() ==> inc(r, #[trigger] i[k][j]),
        Sh::Rc(q) => inc(r, q.mn) && inc(r, q.mx),
    }
}
pub open spec fn regular(s: Sh) -> bool {
    match s { Sh::Pt(c) => cnum(c), Sh::Ln(a, b) => cnum(a) && cnum(b), Sh::Ls(s) => snum(s), Sh::Pg(e, i) => snum(e) && ssnum(i), Sh::Rc(r) => rok(r) }
}
// y is what the formulas of C13, C14 and C15 promise for the distance from p to d
pub open spec fn is_dp(p: Coord, d: Sh, y: T) -> bool {
    match d {
        Sh::Pt(c) => is(y, gdist(p, c)),
        Sh::Ln(a, b) => is(y, dl(p, a, b)),
        Sh::Ls(s) => lsd(y, p, s, s.len() - 1),
        Sh::Pg(e, i) => if pmeets(e, i, p) { is(y, 0real) } else { pgd(y, p, e, i, i.len() as int) },
        Sh::Rc(q) => !nan(y) && isnear(key(y), p, q),
    }
}
// ASSUMPTION geo: what intersects a polygon lies within any rectangle around its exterior ring
pub axiom fn axiom_meets(e: Seq<Coord>, i: Seq<Seq<Coord>>, r: Rect, p: Coord)
    requires pmeets(e, i, p), rok(r), cnum(p), forall|j: int| 0 <= j < e.len() ==> inc(r, #[trigger] e[j])
    ensures inc(r, p);
pub proof fn lemma_between(a: real, b: real, t: real, lo: real, hi: real)
    requires 0real <= t <= 1real, lo <= a <= hi, lo <= b <= hi
    ensures lo <= at(a, b, t) <= hi
{
    let s = 1real - t;
    assert(a + t * (b - a) == s * a + t * b) by (nonlinear_arith) requires s == 1real - t;
    assert(s * lo <= s * a <= s * hi) by (nonlinear_arith) requires s >= 0real, lo <= a <= hi;
    assert(t * lo <= t * b <= t * hi) by (nonlinear_arith) requires t >= 0real, lo <= b <= hi;
    assert(s * lo + t * lo == lo && s * hi + t * hi == hi) by (nonlinear_arith) requires s == 1real - t;
}
pub proof fn lemma_dl_far(p: Coord, a: Coord, b: Coord, r: Rect, x: real)
    requires inc(r, a), inc(r, b), isnear(x, p, r)
    ensures x <= dl(p, a, b)
{
    let (px, py) = (key(p.x), key(p.y)); let (x1, y1, x2, y2) = (key(a.x), key(a.y), key(b.x), key(b.y));
    lemma_dl(px, py, x1, y1, x2, y2); lemma_nearest(px, py, x1, y1, x2, y2, 0real);
    let t = par(px, py, x1, y1, x2, y2);
    lemma_between(x1, x2, t, key(r.mn.x), key(r.mx.x)); lemma_between(y1, y2, t, key(r.mn.y), key(r.mx.y));
    assert(hasp(r, at(x1, x2, t), at(y1, y2, t)));
}
pub proof fn lemma_ls_far(p: Coord, s: Seq<Coord>, r: Rect, x: real, y: T)
    requires forall|i: int| 0 <= i < s.len() ==> inc(r, #[trigger] s[i]), isnear(x, p, r), lsd(y, p, s, s.len() - 1)
    ensures x <= key(y)
{
    axiom_inf();
    let (u, v) = choose|u: real, v: real| hasp(r, u, v) && x == #[trigger] gcd(key(p.x), key(p.y), u, v); lemma_gcd(key(p.x), key(p.y), u, v);
    if s.len() > 1 { let i = choose|i: int| 0 <= i < s.len() - 1 && key(y) == #[trigger] dl(p, s[i], s[i + 1]); lemma_dl_far(p, s[i], s[i + 1], r, x); }
}
// axiom_prune of search.vs for spherical trees: x is the distance of the rectangle, y that of a shape in it
pub proof fn lemma_prune(p: Coord, d: Sh, r: Rect, x: T, y: T)
    requires cok(p), rok(r), !nan(x), isnear(key(x), p, r), inr(r, p) ==> is(x, 0real), is_dp(p, d, y), regular(d), lies(d, r)
    ensures le(x, y)
{
    let k = key(x);
    match d {
        Sh::Pt(c) => { assert(hasp(r, key(c.x), key(c.y))); },
        Sh::Ln(a, b) => { lemma_dl_far(p, a, b, r, k); },
        Sh::Ls(s) => { lemma_ls_far(p, s, r, k, y); },
        Sh::Pg(e, i) => {
            if pmeets(e, i, p) { axiom_meets(e, i, r, p); }
            else if lsd(y, p, e, e.len() - 1) { lemma_ls_far(p, e, r, k, y); }
            else { let j = choose|j: int| 0 <= j < i.len() && lsd(y, p, #[trigger] i[j], i[j].len() - 1);
                assert forall|m: int| 0 <= m < i[j].len() implies inc(r, #[trigger] i[j][m]) by {}
                lemma_ls_far(p, i[j], r, k, y); }
        },
        Sh::Rc(q) => {
            let (u, v) = choose|u: real, v: real| hasp(q, u, v) && key(y) == #[trigger] gcd(key(p.x), key(p.y), u, v);
            assert(hasp(r, u, v));
        },
    }
}
}
