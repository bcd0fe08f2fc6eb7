//@@config geo.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_geo.vs
//@@include num.vs
//@@include real.vs
//@@include shapes_geo.vs
//@@include edist.vs
// ---------------------------------------------------------------- what lies in a rectangle is not nearer than the rectangle
// the smallest rectangle around a shape lies in r
pub open spec fn inc(r: Rect, c: Coord) -> bool { place(Sh::Rc(r), key(c.x), key(c.y)) }
pub open spec fn lies(d: Sh, r: Rect) -> bool {
    match d {
        Sh::Pt(c) => inc(r, c), Sh::Ln(a, b) => inc(r, a) && inc(r, b), Sh::Ls(s) => forall|i: int| 0 <= i < s.len() ==> inc(r, #[trigger] s[i]),
        Sh::Pg(e, i) => forall|j: int| 0 <= j < e.len() ==> inc(r, #[trigger] e[j]), Sh::Rc(q) => inc(r, q.mn) && inc(r, q.mx),
    }
}
// ASSUMPTION geo: the places of a polygon lie within any rectangle around its exterior ring
pub axiom fn axiom_hull(e: Seq<Coord>, i: Seq<Seq<Coord>>, r: Rect, u: real, v: real)
    requires ppl(e, i, u, v), rnum(r), forall|j: int| 0 <= j < e.len() ==> inc(r, #[trigger] e[j])
    ensures place(Sh::Rc(r), u, v);
pub proof fn lemma_seg(a: Coord, b: Coord, r: Rect, u: real, v: real)
    requires inc(r, a), inc(r, b), onseg(a, b, u, v)
    ensures place(Sh::Rc(r), u, v)
{
    let t = choose|t: real| 0real <= t <= 1real && u == #[trigger] at(key(a.x), key(b.x), t) && v == at(key(a.y), key(b.y), t);
    lemma_between(key(a.x), key(b.x), t, key(r.mn.x), key(r.mx.x)); lemma_between(key(a.y), key(b.y), t, key(r.mn.y), key(r.mx.y));
}
pub proof fn lemma_between(a: real, b: real, t: real, lo: real, hi: real)
    requires 0real <= t <= 1real, lo <= a <= hi, lo <= b <= hi
    ensures lo <= at(a, b, t) <= hi
{
    let s = 1real - t;
    assert(a + t * (b - a) == s * a + t * b) by (nonlinear_arith) requires s == 1real - t;
    assert(s * lo <= s * a <= s * hi) by (nonlinear_arith) requires s >= 0real, lo <= a <= hi;
    assert(t * lo <= t * b <= t * hi) by (nonlinear_arith) requires t >= 0real, lo <= b <= hi;
    assert(s * lo + t * lo == lo && s * hi + t * hi == hi) by (nonlinear_arith) requires s == 1real - t;
}
pub proof fn lemma_in(d: Sh, r: Rect, u: real, v: real)
    requires lies(d, r), place(d, u, v), rnum(r)
    ensures place(Sh::Rc(r), u, v)
{
    match d {
        Sh::Ln(a, b) => { lemma_seg(a, b, r, u, v); },
        Sh::Ls(s) => { let i = choose|i: int| 0 <= i < s.len() - 1 && onseg(#[trigger] s[i], s[i + 1], u, v); lemma_seg(s[i], s[i + 1], r, u, v); },
        Sh::Pg(e, i) => { axiom_hull(e, i, r, u, v); },
        _ => {},
    }
}
// axiom_prune of search.vs for Euclidean trees: x is the distance of the rectangle, y that of a shape in it
pub proof fn lemma_prune(g: Sh, d: Sh, r: Rect, x: T, y: T)
    requires is_de(Sh::Rc(r), g, x), is_de(g, d, y) || is_de(d, g, y), regular(g), regular(d), rnum(r), lies(d, r)
    ensures le(x, y)
{
    let c = Sh::Rc(r);
    lemma_dist(c, g, x);
    if is_de(g, d, y) { lemma_dist(g, d, y); lemma_flip(g, d, y); } else { lemma_dist(d, g, y); }
    let (u, v, w, z) = choose|u: real, v: real, w: real, z: real| #[trigger] place(d, u, v) && #[trigger] place(g, w, z) && sq(key(y)) == dsq(u, v, w, z);
    lemma_in(d, r, u, v);
    let (p, q) = (key(x), key(y));
    assert(p * p <= q * q);
    assert(p <= q) by (nonlinear_arith) requires p >= 0real, q >= 0real, p * p <= q * q;
}
}
