// ---------------------------------------------------------------- geo's planar distance
// ASSUMPTION geo: between two shapes other than rectangles geo's Euclidean distance is the distance between them: a function
// of the two, no greater than from any place of the one to any place of the other, and reached between two places
pub uninterp spec fn edist(a: Sh, b: Sh) -> T;
pub axiom fn axiom_edist(a: Sh, b: Sh) requires regular(a), regular(b), !(a is Rc), !(b is Rc) ensures isdist(a, b, edist(a, b));
// the places of a polygon (border included); those of a rectangle's polygon are the rectangle's
pub uninterp spec fn ppl(e: Seq<Coord>, i: Seq<Seq<Coord>>, u: real, v: real) -> bool;
pub axiom fn axiom_polyof(r: Rect)
    requires rnum(r)
    ensures polyof(r) is Pg, regular(polyof(r)), forall|u: real, v: real| #[trigger] place(polyof(r), u, v) <==> place(Sh::Rc(r), u, v);
pub open spec fn at(a: real, b: real, t: real) -> real { a + t * (b - a) }
pub open spec fn onseg(a: Coord, b: Coord, u: real, v: real) -> bool { exists|t: real| 0real <= t <= 1real && u == #[trigger] at(key(a.x), key(b.x), t) && v == at(key(a.y), key(b.y), t) }
pub open spec fn place(s: Sh, u: real, v: real) -> bool {
    match s {
        Sh::Pt(c) => u == key(c.x) && v == key(c.y),
        Sh::Ln(a, b) => onseg(a, b, u, v),
        Sh::Ls(s) => exists|i: int| 0 <= i < s.len() - 1 && onseg(#[trigger] s[i], s[i + 1], u, v),
        Sh::Pg(e, i) => ppl(e, i, u, v),
        Sh::Rc(r) => key(r.mn.x) <= u <= key(r.mx.x) && key(r.mn.y) <= v <= key(r.mx.y),
    }
}
pub open spec fn snum(s: Seq<Coord>) -> bool { forall|i: int| 0 <= i < s.len() ==> cnum(#[trigger] s[i]) }
// a shape that has places, with numbers for coordinates
pub open spec fn regular(s: Sh) -> bool {
    match s {
        Sh::Pt(c) => cnum(c), Sh::Ln(a, b) => cnum(a) && cnum(b), Sh::Ls(s) => s.len() >= 2 && snum(s),
        Sh::Pg(e, i) => e.len() >= 4 && snum(e) && forall|j: int| 0 <= j < i.len() ==> snum(#[trigger] i[j]), Sh::Rc(r) => rnum(r),
    }
}
pub open spec fn dsq(u: real, v: real, w: real, z: real) -> real { sq(u - w) + sq(v - z) }
// x is the distance between the two shapes
pub open spec fn isdist(a: Sh, b: Sh, x: T) -> bool {
    &&& !nan(x) && key(x) >= 0real
    &&& forall|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) ==> sq(key(x)) <= dsq(u, v, w, z)
    &&& exists|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) && sq(key(x)) == dsq(u, v, w, z)
}
pub broadcast proof fn lemma_hyp(a: Coord, b: Coord)
    requires cnum(a), cnum(b)
    ensures !nan(#[trigger] edist(Sh::Pt(a), Sh::Pt(b))), key(edist(Sh::Pt(a), Sh::Pt(b))) >= 0real, sq(key(edist(Sh::Pt(a), Sh::Pt(b)))) == sq(key(a.x) - key(b.x)) + sq(key(a.y) - key(b.y))
{ axiom_edist(Sh::Pt(a), Sh::Pt(b)); }
impl T {
    #[verifier::external_body]
    pub fn hypot(self, o: T) -> (r: T) ensures !nan(self) && !nan(o) ==> !nan(r) && key(r) >= 0real && sq(key(r)) == sq(key(self)) + sq(key(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: T) ensures !nan(self) && key(self) >= 0real ==> !nan(r) && key(r) >= 0real && sq(key(r)) == key(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: T) ensures !nan(self) && n == 2 ==> !nan(r) && key(r) == sq(key(self)) { unimplemented!() }
}
pub struct Euclidean {}
impl Euclidean {
    #[verifier::external_body]
    pub fn distance<A: Shp, B: Shp>(a: A, b: B) -> (r: T) ensures r == edist(a.sh(), b.sh()) { unimplemented!() }
}
pub open spec fn cnum(c: Coord) -> bool { !nan(c.x) && !nan(c.y) }
// a rectangle of numbers: its corners are in order (Rect::new sees to that)
pub open spec fn rnum(r: Rect) -> bool { le(r.mn.x, r.mx.x) && le(r.mn.y, r.mx.y) }
pub open spec fn sq(a: real) -> real { a * a }
// the gap between two ranges, 0 where they meet
pub open spec fn gap(a0: T, a1: T, b0: T, b1: T) -> real { rmax(0real, rmax(key(a0) - key(b1), key(b0) - key(a1))) }
// x is the Euclidean distance of a and b (in either order: lemma_de says that it makes no difference)
pub open spec fn is_de(a: Sh, b: Sh, x: T) -> bool { is_de0(a, b, x) || is_de0(b, a, x) }
pub open spec fn is_de0(a: Sh, b: Sh, x: T) -> bool {
    match (a, b) {
        (Sh::Rc(r), Sh::Rc(s)) => rnum(r) && rnum(s) ==> !nan(x) && key(x) >= 0real && sq(key(x)) == sq(gap(r.mn.x, r.mx.x, s.mn.x, s.mx.x)) + sq(gap(r.mn.y, r.mx.y, s.mn.y, s.mx.y)),
        (Sh::Rc(r), _) => x == edist(polyof(r), b),
        (_, Sh::Rc(s)) => x == edist(a, polyof(s)),
        _ => x == edist(a, b),
    }
}
// the properties of the distance
pub proof fn lemma_dist(a: Sh, b: Sh, x: T)
    requires is_de(a, b, x), regular(a), regular(b)
    ensures isdist(a, b, x)
{ if is_de0(a, b, x) { lemma_dist0(a, b, x); } else { lemma_dist0(b, a, x); lemma_flip(b, a, x); } }
pub proof fn lemma_flip(a: Sh, b: Sh, x: T) requires isdist(a, b, x) ensures isdist(b, a, x)
{
    let (u, v, w, z) = choose|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) && sq(key(x)) == dsq(u, v, w, z);
    lemma_sqneg(u, w); lemma_sqneg(v, z);
    assert(place(b, w, z) && place(a, u, v) && sq(key(x)) == dsq(w, z, u, v));
    assert forall|u: real, v: real, w: real, z: real| #[trigger] place(b, u, v) && #[trigger] place(a, w, z) implies sq(key(x)) <= dsq(u, v, w, z) by { lemma_sqneg(u, w); lemma_sqneg(v, z); }
}
pub proof fn lemma_dist0(a: Sh, b: Sh, x: T)
    requires is_de0(a, b, x), regular(a), regular(b)
    ensures isdist(a, b, x)
{
    match (a, b) {
        (Sh::Rc(r), Sh::Rc(s)) => { lemma_rects(r, s, x); },
        (Sh::Rc(r), _) => { axiom_polyof(r); axiom_edist(polyof(r), b); lemma_same_places(polyof(r), a, b, x); },
        (_, Sh::Rc(s)) => { axiom_polyof(s); axiom_edist(a, polyof(s)); lemma_flip(a, polyof(s), x); lemma_same_places(polyof(s), b, a, x); lemma_flip(b, a, x); },
        _ => { axiom_edist(a, b); },
    }
}
pub proof fn lemma_same_places(p: Sh, a: Sh, b: Sh, x: T)
    requires isdist(p, b, x), forall|u: real, v: real| #[trigger] place(p, u, v) <==> place(a, u, v)
    ensures isdist(a, b, x)
{
    let (u, v, w, z) = choose|u: real, v: real, w: real, z: real| #[trigger] place(p, u, v) && #[trigger] place(b, w, z) && sq(key(x)) == dsq(u, v, w, z);
    assert(place(a, u, v) && place(b, w, z));
    assert forall|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) implies sq(key(x)) <= dsq(u, v, w, z) by { assert(place(p, u, v)); }
}
pub open spec fn clamp(a0: real, a1: real, b0: real, b1: real) -> (real, real) { if a1 < b0 { (a1, b0) } else if b1 < a0 { (a0, b1) } else if a0 < b0 { (b0, b0) } else { (a0, a0) } }
pub proof fn lemma_gap(a0: T, a1: T, b0: T, b1: T, u: real, w: real)
    requires key(a0) <= u <= key(a1), key(b0) <= w <= key(b1)
    ensures sq(gap(a0, a1, b0, b1)) <= sq(u - w)
{ let g = gap(a0, a1, b0, b1); let d = u - w; assert(g <= d || g <= -d); assert(g >= 0real);
  assert(g * g <= d * d) by (nonlinear_arith) requires g >= 0real, g <= d || g <= -d; }
pub proof fn lemma_rects(r: Rect, s: Rect, x: T)
    requires is_de0(Sh::Rc(r), Sh::Rc(s), x), rnum(r), rnum(s)
    ensures isdist(Sh::Rc(r), Sh::Rc(s), x)
{
    let (a, b) = (Sh::Rc(r), Sh::Rc(s));
    assert forall|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) implies sq(key(x)) <= dsq(u, v, w, z) by {
        lemma_gap(r.mn.x, r.mx.x, s.mn.x, s.mx.x, u, w); lemma_gap(r.mn.y, r.mx.y, s.mn.y, s.mx.y, v, z);
    }
    let (u, w) = clamp(key(r.mn.x), key(r.mx.x), key(s.mn.x), key(s.mx.x)); let (v, z) = clamp(key(r.mn.y), key(r.mx.y), key(s.mn.y), key(s.mx.y));
    let gx = gap(r.mn.x, r.mx.x, s.mn.x, s.mx.x); let gy = gap(r.mn.y, r.mx.y, s.mn.y, s.mx.y);
    assert(gx == u - w || gx == w - u); assert(gy == v - z || gy == z - v); lemma_sqneg(u, w); lemma_sqneg(v, z);
    assert(place(a, u, v) && place(b, w, z) && sq(key(x)) == dsq(u, v, w, z));
}
// two shapes have one distance, in either order; it is zero exactly if they share a place
pub proof fn lemma_de(a: Sh, b: Sh, x: T, y: T)
    requires is_de(a, b, x), is_de(b, a, y), regular(a), regular(b)
    ensures key(x) >= 0real, !nan(y), key(x) == key(y), key(x) == 0real <==> exists|u: real, v: real| #[trigger] place(a, u, v) && place(b, u, v)
{
    lemma_dist(a, b, x); lemma_dist(b, a, y); lemma_flip(b, a, y); lemma_unique(a, b, x, y);
    let (u, v, w, z) = choose|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) && sq(key(x)) == dsq(u, v, w, z);
    lemma_zsq();
    if key(x) == 0real {
        let (p, q) = (u - w, v - z);
        assert(p == 0real && q == 0real) by (nonlinear_arith) requires p * p + q * q == 0real;
        assert(place(a, u, v) && place(b, u, v));
    }
    if exists|u: real, v: real| #[trigger] place(a, u, v) && place(b, u, v) {
        let (u, v) = choose|u: real, v: real| #[trigger] place(a, u, v) && place(b, u, v);
        assert(u - u == 0real && v - v == 0real); assert(sq(key(x)) <= dsq(u, v, u, v));
        let k = key(x); assert(k == 0real) by (nonlinear_arith) requires k * k <= 0real;
    }
}
pub proof fn lemma_unique(a: Sh, b: Sh, x: T, y: T) requires isdist(a, b, x), isdist(a, b, y) ensures key(x) == key(y)
{
    let (u, v, w, z) = choose|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) && sq(key(x)) == dsq(u, v, w, z);
    let (c, d, e, f) = choose|u: real, v: real, w: real, z: real| #[trigger] place(a, u, v) && #[trigger] place(b, w, z) && sq(key(y)) == dsq(u, v, w, z);
    lemma_root(key(x), key(y));
}
pub proof fn lemma_root(x: real, y: real) requires x >= 0real, y >= 0real, sq(x) == sq(y) ensures x == y
{ assert(x == y) by (nonlinear_arith) requires x >= 0real, y >= 0real, x * x == y * y; }
pub proof fn lemma_sqneg(a: real, b: real) ensures sq(a - b) == sq(b - a)
{ assert((a - b) * (a - b) == (b - a) * (b - a)) by (nonlinear_arith); }
pub broadcast proof fn lemma_sqnn(a: T) ensures key(a) * key(a) >= 0real, #[trigger] mul(a, a) == mul(a, a)
{ assert(key(a) * key(a) >= 0real) by (nonlinear_arith); }
pub proof fn lemma_zsq() ensures sq(0real) == 0real { assert(0real * 0real == 0real) by (nonlinear_arith); }
