pub open spec fn cnum(c: Coord) -> bool { !nan(c.x) && !nan(c.y) }
pub open spec fn gdist(a: Coord, b: Coord) -> real { gcd(key(a.x), key(a.y), key(b.x), key(b.y)) }
pub open spec fn is(x: T, r: real) -> bool { !nan(x) && key(x) == r }
//#C13 C90{
// ---------------------------------------------------------------- C13: the closest part
// how far along the segment the projection of (x, y) lies, 0 at (x1, y1) and 1 at (x2, y2)
pub open spec fn dot(x: real, y: real, x1: real, y1: real, x2: real, y2: real) -> real { (x - x1) * (x2 - x1) + (y - y1) * (y2 - y1) }
pub open spec fn len2(x1: real, y1: real, x2: real, y2: real) -> real { (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1) }
pub open spec fn par(x: real, y: real, x1: real, y1: real, x2: real, y2: real) -> real {
    let d = dot(x, y, x1, y1, x2, y2); let l = len2(x1, y1, x2, y2);
    if l == 0real || d < 0real { 0real } else if d > l { 1real } else { d / l }
}
pub open spec fn at(a: real, b: real, t: real) -> real { a + t * (b - a) }
pub closed spec fn dline(x: real, y: real, x1: real, y1: real, x2: real, y2: real) -> real {
    let t = par(x, y, x1, y1, x2, y2); gcd(x, y, at(x1, x2, t), at(y1, y2, t))
}
pub open spec fn dl(p: Coord, a: Coord, b: Coord) -> real { dline(key(p.x), key(p.y), key(a.x), key(a.y), key(b.x), key(b.y)) }
// the projection is the position of the segment nearest to (x, y) in the lng/lat plane
pub open spec fn d2(x: real, y: real, u: real, v: real) -> real { sq(u - x) + sq(v - y) }
pub proof fn lemma_nearest(x: real, y: real, x1: real, y1: real, x2: real, y2: real, s: real)
    requires 0real <= s <= 1real
    ensures 0real <= par(x, y, x1, y1, x2, y2) <= 1real, ({ let t = par(x, y, x1, y1, x2, y2); d2(x, y, at(x1, x2, t), at(y1, y2, t)) <= d2(x, y, at(x1, x2, s), at(y1, y2, s)) })
{
    let (a, b, c, d) = (x - x1, y - y1, x2 - x1, y2 - y1);
    let dt = dot(x, y, x1, y1, x2, y2); let l = len2(x1, y1, x2, y2);
    assert(l >= 0real) by (nonlinear_arith) requires l == c * c + d * d;
    let t = par(x, y, x1, y1, x2, y2);
    assert(0real <= t <= 1real && (l == 0real || (t == 0real && dt < 0real) || (t == 1real && dt > l) || t * l == dt)) by {
        if l == 0real { } else if dt < 0real { } else if dt > l { } else {
            assert((dt / l) * l == dt) by (nonlinear_arith) requires l > 0real;
            assert(0real <= dt / l <= 1real) by (nonlinear_arith) requires l > 0real, 0real <= dt <= l;
        }
    }
    // the squared distance at s is l s^2 - 2 dt s + const
    lemma_quad(a, b, c, d, t); lemma_quad(a, b, c, d, s);
    assert(at(x1, x2, t) - x == t * c - a); assert(at(y1, y2, t) - y == t * d - b);
    assert(at(x1, x2, s) - x == s * c - a); assert(at(y1, y2, s) - y == s * d - b);
    let k = a * a + b * b;
    if l == 0real {
        assert(c == 0real && d == 0real) by (nonlinear_arith) requires c * c + d * d == 0real;
        assert(dt == 0real) by (nonlinear_arith) requires dt == a * c + b * d, c == 0real, d == 0real;
        assert(l * (t * t) - 2real * dt * t + k <= l * (s * s) - 2real * dt * s + k) by (nonlinear_arith) requires l == 0real, dt == 0real;
    } else {
        assert(l * (t * t) - 2real * dt * t <= l * (s * s) - 2real * dt * s) by {
            if dt < 0real {
                assert(l * (s * s) >= 0real) by (nonlinear_arith) requires l >= 0real;
                assert(2real * dt * s <= 0real) by (nonlinear_arith) requires dt < 0real, s >= 0real;
                assert(l * (t * t) - 2real * dt * t == 0real) by (nonlinear_arith) requires t == 0real;
            } else if dt > l {
                let w = 1real - s;
                assert(l * (t * t) - 2real * dt * t == l - 2real * dt) by (nonlinear_arith) requires t == 1real;
                assert(l * (s * s) - 2real * dt * s - l + 2real * dt >= 0real) by (nonlinear_arith) requires dt >= l, l >= 0real, 0real <= s <= 1real {
                    assert(l * (s * s) - 2real * dt * s - l + 2real * dt == (1real - s) * (2real * dt - l * (1real + s))) by (nonlinear_arith);
                    assert(l * (1real + s) <= 2real * l) by (nonlinear_arith) requires l >= 0real, s <= 1real;
                    let g = 2real * dt - l * (1real + s);
                    assert((1real - s) * g >= 0real) by (nonlinear_arith) requires s <= 1real, g >= 0real;
                }
            } else {
                assert(l * (s * s) - 2real * dt * s - (l * (t * t) - 2real * dt * t) >= 0real) by (nonlinear_arith) requires t * l == dt, l >= 0real {
                    assert(l * (s * s) - 2real * dt * s - (l * (t * t) - 2real * dt * t) == l * ((s - t) * (s - t))) by (nonlinear_arith) requires t * l == dt;
                    let q = (s - t) * (s - t);
                    assert(q >= 0real) by (nonlinear_arith) requires q == (s - t) * (s - t);
                    assert(l * q >= 0real) by (nonlinear_arith) requires l >= 0real, q >= 0real;
                }
            }
        }
    }
}
pub proof fn lemma_quad(a: real, b: real, c: real, d: real, t: real)
    ensures sq(t * c - a) + sq(t * d - b) == (c * c + d * d) * (t * t) - 2real * (a * c + b * d) * t + (a * a + b * b)
{
    lemma_quad1(a, c, t); lemma_quad1(b, d, t); let q = t * t; let (cc, dd, ac, bd) = (c * c, d * d, a * c, b * d);
    assert((cc + dd) * q == cc * q + dd * q) by (nonlinear_arith);
    assert(2real * (ac + bd) * t == 2real * ac * t + 2real * bd * t) by (nonlinear_arith);
}
pub proof fn lemma_quad1(a: real, c: real, t: real) ensures sq(t * c - a) == (c * c) * (t * t) - 2real * (a * c) * t + a * a
{
    assert((t * c) * (t * c) == (c * c) * (t * t)) by (nonlinear_arith);
    assert((t * c) * a == (a * c) * t) by (nonlinear_arith);
    let u = t * c; let ac = a * c;
    assert((u - a) * (u - a) == u * u - 2real * (u * a) + a * a) by (nonlinear_arith);
    assert(2real * (ac * t) == 2real * ac * t) by (nonlinear_arith);
}
pub proof fn lemma_dl(x: real, y: real, x1: real, y1: real, x2: real, y2: real)
    ensures ({ let t = par(x, y, x1, y1, x2, y2); dline(x, y, x1, y1, x2, y2) == gcd(x, y, at(x1, x2, t), at(y1, y2, t)) }),
        at(x1, x2, 0real) == x1, at(y1, y2, 0real) == y1, at(x1, x2, 1real) == x2, at(y1, y2, 1real) == y2,
        ({ let d = dot(x, y, x1, y1, x2, y2); let l = len2(x1, y1, x2, y2); l >= 0real && (l > 0real ==> (d / l < 0real <==> d < 0real) && (d / l > 1real <==> d > l)) }),
        0real <= dline(x, y, x1, y1, x2, y2) <= rpi()
{
    let (c, d) = (x2 - x1, y2 - y1); let l = len2(x1, y1, x2, y2); let e = dot(x, y, x1, y1, x2, y2);
    assert(l >= 0real) by (nonlinear_arith) requires l == c * c + d * d;
    if l > 0real {
        let q = e / l;
        assert(q * l == e) by (nonlinear_arith) requires q == e / l, l > 0real;
        assert((q < 0real <==> e < 0real) && (q > 1real <==> e > l)) by (nonlinear_arith) requires q * l == e, l > 0real;
    }
    let t = par(x, y, x1, y1, x2, y2); lemma_gcd(x, y, at(x1, x2, t), at(y1, y2, t));
}
// x is the smallest of the distances to the segments of s, infinite if there are none
pub open spec fn lsd(x: T, p: Coord, s: Seq<Coord>, n: int) -> bool {
    &&& !nan(x)
    &&& n <= 0 ==> x == inf()
    &&& n > 0 ==> 0real <= key(x) <= rpi() && exists|i: int| 0 <= i < n && key(x) == #[trigger] dl(p, s[i], s[i + 1])
    &&& forall|i: int| 0 <= i < n ==> key(x) <= #[trigger] dl(p, s[i], s[i + 1])
}
pub open spec fn snum(s: Seq<Coord>) -> bool { forall|i: int| 0 <= i < s.len() ==> cnum(#[trigger] s[i]) }
pub open spec fn ssnum(s: Seq<Seq<Coord>>) -> bool { forall|i: int| 0 <= i < s.len() ==> snum(#[trigger] s[i]) }
// ASSUMPTION: infinity is a number greater than pi
pub axiom fn axiom_inf() ensures !nan(inf()), key(inf()) > rpi();
// ASSUMPTION geo: intersects says whether the point is in the polygon or on its border
pub uninterp spec fn pmeets(e: Seq<Coord>, i: Seq<Seq<Coord>>, p: Coord) -> bool;
impl Polygon {
    #[verifier::external_body]
    pub fn intersects(&self, p: &Point) -> (r: bool) ensures r == pmeets(self.xs().0@, rings(self.is()@), p.0) { unimplemented!() }
}
pub open spec fn upto(x: T, p: Coord, s: Seq<Coord>) -> bool { exists|d: T| #[trigger] lsd(d, p, s, s.len() - 1) && le(x, d) }
// x is the smallest of the distances to the first n interior rings and the exterior
pub open spec fn pgd(x: T, p: Coord, e: Seq<Coord>, i: Seq<Seq<Coord>>, n: int) -> bool {
    &&& upto(x, p, e)
    &&& forall|j: int| 0 <= j < n ==> upto(x, p, #[trigger] i[j])
    &&& lsd(x, p, e, e.len() - 1) || exists|j: int| 0 <= j < n && lsd(x, p, #[trigger] i[j], i[j].len() - 1)
}
pub proof fn lemma_pgd(x: T, d: T, y: T, p: Coord, e: Seq<Coord>, i: Seq<Seq<Coord>>, n: int)
    requires 0 <= n < i.len(), pgd(x, p, e, i, n), lsd(d, p, i[n], i[n].len() - 1), y == x || y == d, key(y) == rmin(key(x), key(d))
    ensures pgd(y, p, e, i, n + 1)
{
    let w = choose|w: T| #[trigger] lsd(w, p, e, e.len() - 1) && le(x, w);
    assert(lsd(w, p, e, e.len() - 1) && le(y, w));
    assert forall|j: int| 0 <= j < n + 1 implies upto(y, p, #[trigger] i[j]) by {
        if j == n { assert(lsd(d, p, i[j], i[j].len() - 1) && le(y, d)); }
        else { let w = choose|w: T| #[trigger] lsd(w, p, i[j], i[j].len() - 1) && le(x, w); assert(lsd(w, p, i[j], i[j].len() - 1) && le(y, w)); }
    }
    if y == x {
        if !lsd(x, p, e, e.len() - 1) { let j = choose|j: int| 0 <= j < n && lsd(x, p, #[trigger] i[j], i[j].len() - 1); assert(0 <= j < n + 1 && lsd(y, p, i[j], i[j].len() - 1)); }
    } else { assert(0 <= n < n + 1 && lsd(y, p, i[n], i[n].len() - 1)); }
}
//#}
//#C14 C19 C90{
pub open spec fn lngok(a: real) -> bool { -rpi() <= a <= rpi() }
pub open spec fn latok(a: real) -> bool { -rpi() / 2real <= a <= rpi() / 2real }
// positions and rectangles in radians
pub open spec fn cok(c: Coord) -> bool { cnum(c) && lngok(key(c.x)) && latok(key(c.y)) }
pub open spec fn rok(r: Rect) -> bool { cok(r.mn) && cok(r.mx) && key(r.mn.x) <= key(r.mx.x) && key(r.mn.y) <= key(r.mx.y) }
//#}
//#C14 C90{
// ---------------------------------------------------------------- C14: the nearest place of a rectangle
pub open spec fn hasp(r: Rect, u: real, v: real) -> bool { key(r.mn.x) <= u <= key(r.mx.x) && key(r.mn.y) <= v <= key(r.mx.y) }
// d is the distance from p to the nearest place of r
pub open spec fn isnear(d: real, p: Coord, r: Rect) -> bool {
    &&& forall|u: real, v: real| hasp(r, u, v) ==> d <= #[trigger] gcd(key(p.x), key(p.y), u, v)
    &&& exists|u: real, v: real| hasp(r, u, v) && d == #[trigger] gcd(key(p.x), key(p.y), u, v)
}
// the same for the part from lo to hi of a meridian
pub open spec fn ismer(d: real, p: Coord, l: real, lo: real, hi: real) -> bool {
    &&& forall|v: real| lo <= v <= hi ==> d <= #[trigger] gcd(key(p.x), key(p.y), l, v)
    &&& exists|v: real| lo <= v <= hi && d == #[trigger] gcd(key(p.x), key(p.y), l, v)
}
// where the perpendicular from (x, y) meets the meridian l
pub open spec fn foot(x: real, y: real, l: real) -> real { ratan2(rsin(y), rcos(y) * rcos(x - l)) }
// the cosine of the angle to a place of the meridian is that of the angle to the foot, scaled
pub proof fn lemma_foot(x: real, y: real, l: real, v: real)
    ensures ({ let a = rsin(y); let b = rcos(y) * rcos(x - l); rsqrt(sq(a) + sq(b)) >= 0real && ang(x, y, l, v) == rsqrt(sq(a) + sq(b)) * rcos(v - foot(x, y, l)) }), -rpi() <= foot(x, y, l) <= rpi()
{
    let a = rsin(y); let b = rcos(y) * rcos(x - l); let f = foot(x, y, l); let h = sq(a) + sq(b); let r = rsqrt(h);
    axiom_atan2(a, b); lemma_sumsq(a, b); axiom_sqrt(h);
    lemma_sub(v, f); axiom_trig(x - l); assert(-(x - l) == l - x);
    lemma_foot_alg(a, b, r, rsin(v), rcos(v), rsin(f), rcos(f), rcos(y), rcos(x - l));
}
proof fn lemma_sumsq(a: real, b: real) ensures sq(a) + sq(b) >= 0real
{ assert(a * a >= 0real) by (nonlinear_arith); assert(b * b >= 0real) by (nonlinear_arith); }
proof fn lemma_foot_alg(a: real, b: real, r: real, sv: real, cv: real, sf: real, cf: real, cy: real, k: real)
    requires a == r * sf, b == r * cf, b == cy * k
    ensures a * sv + cy * cv * k == r * (cv * cf + sv * sf)
{
    assert(cy * cv * k == (cy * k) * cv) by (nonlinear_arith);
    assert((r * cf) * cv == r * (cv * cf)) by (nonlinear_arith);
    assert((r * sf) * sv == r * (sv * sf)) by (nonlinear_arith);
    assert(r * (cv * cf + sv * sf) == r * (cv * cf) + r * (sv * sf)) by (nonlinear_arith);
}
pub proof fn lemma_mer1(x: real, y: real, l: real, lo: real, hi: real, v: real)
    requires latok(lo), latok(hi), lo <= v <= hi
    ensures lo < foot(x, y, l) < hi ==> gcd(x, y, l, foot(x, y, l)) <= gcd(x, y, l, v),
        !(lo < foot(x, y, l) < hi) ==> rmin(gcd(x, y, l, lo), gcd(x, y, l, hi)) <= gcd(x, y, l, v),
{
    let f = foot(x, y, l); let a = rsin(y); let b = rcos(y) * rcos(x - l); let r = rsqrt(sq(a) + sq(b)); axiom_pi();
    lemma_foot(x, y, l, v); lemma_foot(x, y, l, lo); lemma_foot(x, y, l, hi); lemma_foot(x, y, l, f);
    let cv = rcos(v - f); lemma_one(v - f);
    if lo < f < hi {
        assert(f - f == 0real);
        let c0 = rcos(f - f);
        assert(r * cv <= r * c0) by (nonlinear_arith) requires r >= 0real, cv <= 1real, c0 == 1real;
        lemma_nearer(x, y, l, f, x, y, l, v);
    } else {
        axiom_trig(v - f); axiom_trig(lo - f); axiom_trig(hi - f);
        assert(-(v - f) == f - v); assert(-(lo - f) == f - lo); assert(-(hi - f) == f - hi);
        if f <= lo { lemma_ends(lo - f, v - f, hi - f); } else { lemma_ends(f - hi, f - v, f - lo); }
        let (cl, ch) = (rcos(lo - f), rcos(hi - f));
        if cv <= cl { assert(r * cv <= r * cl) by (nonlinear_arith) requires r >= 0real, cv <= cl; lemma_nearer(x, y, l, lo, x, y, l, v); }
        else { assert(r * cv <= r * ch) by (nonlinear_arith) requires r >= 0real, cv <= ch; lemma_nearer(x, y, l, hi, x, y, l, v); }
    }
}
// the distance to the nearest place of a meridian
pub closed spec fn dmer(x: real, y: real, l: real, lo: real, hi: real) -> real {
    let e = rmin(gcd(x, y, l, lo), gcd(x, y, l, hi));
    if lo < foot(x, y, l) < hi { rmin(e, gcd(x, y, l, foot(x, y, l))) } else { e }
}
pub proof fn lemma_mer(p: Coord, l: real, lo: real, hi: real)
    requires latok(lo), latok(hi), lo <= hi
    ensures ismer(dmer(key(p.x), key(p.y), l, lo, hi), p, l, lo, hi),
        ({ let (x, y) = (key(p.x), key(p.y)); let e = rmin(gcd(x, y, l, lo), gcd(x, y, l, hi));
           dmer(x, y, l, lo, hi) == if lo < foot(x, y, l) < hi { rmin(e, gcd(x, y, l, foot(x, y, l))) } else { e } }),
{
    let (x, y) = (key(p.x), key(p.y)); let d = dmer(x, y, l, lo, hi);
    assert forall|v: real| lo <= v <= hi implies d <= #[trigger] gcd(key(p.x), key(p.y), l, v) by { lemma_mer1(x, y, l, lo, hi, v); }
    let (e1, e2, e3) = (gcd(x, y, l, lo), gcd(x, y, l, hi), gcd(x, y, l, foot(x, y, l)));
}
// a meridian with two meeting points has one distance
pub proof fn lemma_mer_one(d: real, e: real, p: Coord, l: real, lo: real, hi: real) requires ismer(d, p, l, lo, hi), ismer(e, p, l, lo, hi) ensures d == e
{ }
// to one side: no place is nearer than those of the same latitude on the two vertical edges
pub proof fn lemma_side(p: Coord, r: Rect, u: real, v: real)
    requires cok(p), rok(r), hasp(r, u, v), key(p.x) < key(r.mn.x) || key(p.x) > key(r.mx.x)
    ensures ({ let (x, y) = (key(p.x), key(p.y)); rmin(gcd(x, y, key(r.mn.x), v), gcd(x, y, key(r.mx.x), v)) <= gcd(x, y, u, v) })
{
    let (x, y) = (key(p.x), key(p.y)); let (x0, x1) = (key(r.mn.x), key(r.mx.x)); axiom_pi();
    lemma_cosp(y); lemma_cosp(v);
    if x < x0 { lemma_ends(x0 - x, u - x, x1 - x); } else {
        axiom_trig(x0 - x); axiom_trig(x1 - x); axiom_trig(u - x); assert(-(x0 - x) == x - x0); assert(-(x1 - x) == x - x1); assert(-(u - x) == x - u);
        lemma_ends(x - x1, x - u, x - x0);
    }
    let k = rcos(y) * rcos(v); let (c, c0, c1) = (rcos(u - x), rcos(x0 - x), rcos(x1 - x));
    assert(k >= 0real) by (nonlinear_arith) requires k == rcos(y) * rcos(v), rcos(y) >= 0real, rcos(v) >= 0real;
    if c <= c0 { assert(k * c <= k * c0) by (nonlinear_arith) requires k >= 0real, c <= c0; lemma_nearer(x, y, x0, v, x, y, u, v); }
    else { assert(k * c <= k * c1) by (nonlinear_arith) requires k >= 0real, c <= c1; lemma_nearer(x, y, x1, v, x, y, u, v); }
}
pub proof fn lemma_aside(p: Coord, r: Rect, d0: real, d1: real)
    requires cok(p), rok(r), key(p.x) < key(r.mn.x) || key(p.x) > key(r.mx.x), ismer(d0, p, key(r.mn.x), key(r.mn.y), key(r.mx.y)), ismer(d1, p, key(r.mx.x), key(r.mn.y), key(r.mx.y))
    ensures isnear(rmin(d0, d1), p, r)
{
    assert forall|u: real, v: real| hasp(r, u, v) implies rmin(d0, d1) <= #[trigger] gcd(key(p.x), key(p.y), u, v) by { lemma_side(p, r, u, v); }
    let w0 = choose|v: real| key(r.mn.y) <= v <= key(r.mx.y) && d0 == #[trigger] gcd(key(p.x), key(p.y), key(r.mn.x), v);
    let w1 = choose|v: real| key(r.mn.y) <= v <= key(r.mx.y) && d1 == #[trigger] gcd(key(p.x), key(p.y), key(r.mx.x), v);
    assert(hasp(r, key(r.mn.x), w0) && hasp(r, key(r.mx.x), w1));
}
// straight up or down: the gap in latitude
pub proof fn lemma_updown(p: Coord, r: Rect)
    requires cok(p), rok(r), key(r.mn.x) <= key(p.x) <= key(r.mx.x)
    ensures isnear(latgap(p, r), p, r)
{
    let (x, y) = (key(p.x), key(p.y)); let g = latgap(p, r); axiom_pi();
    let w = if y < key(r.mn.y) { key(r.mn.y) } else if y > key(r.mx.y) { key(r.mx.y) } else { y };
    lemma_gcd_mer(x, y, w); assert(hasp(r, x, w));
    assert forall|u: real, v: real| hasp(r, u, v) implies g <= #[trigger] gcd(key(p.x), key(p.y), u, v) by {
        lemma_cosp(y); lemma_cosp(v); lemma_one(u - x); assert(x - x == 0real);
        let k = rcos(y) * rcos(v); let c = rcos(u - x);
        assert(k >= 0real) by (nonlinear_arith) requires k == rcos(y) * rcos(v), rcos(y) >= 0real, rcos(v) >= 0real;
        let c0 = rcos(x - x);
        assert(k * c <= k * c0) by (nonlinear_arith) requires k >= 0real, c <= 1real, c0 == 1real;
        lemma_nearer(x, y, x, v, x, y, u, v); lemma_gcd_mer(x, y, v);
    }
}
pub open spec fn latgap(p: Coord, r: Rect) -> real { rmax(0real, rmax(key(r.mn.y) - key(p.y), key(p.y) - key(r.mx.y))) }
//#}
//#C19{
// ---------------------------------------------------------------- C19: rectangles
// r is the angle n wrapped into [-pi, pi]
pub open spec fn is_lng(n: real, r: real) -> bool { -rpi() <= r <= rpi() && rcos(r) == rcos(n) && rsin(r) == rsin(n) }
pub open spec fn is_lsub(a: real, b: real, r: real) -> bool { is_lng(a - b, r) }
pub proof fn lemma_turns(a: real, k: int) ensures rcos(a + k as real * (2real * rpi())) == rcos(a), rsin(a + k as real * (2real * rpi())) == rsin(a)
    decreases (if k < 0 { -k } else { k })
{
    let t = 2real * rpi();
    if k > 0 { lemma_turns(a, k - 1); let b = a + (k - 1) as real * t; lemma_turn(b); assert(b + t == a + k as real * t) by (nonlinear_arith) requires b == a + (k - 1) as real * t; }
    else if k < 0 { lemma_turns(a, k + 1); let b = a + k as real * t; lemma_turn(b); assert(b + t == a + (k + 1) as real * t) by (nonlinear_arith) requires b == a + k as real * t; }
    else { assert(a + 0int as real * t == a) by (nonlinear_arith); }
}
pub broadcast proof fn lemma_wrap(x: real, m: real, b: real, k: int)
    requires #[trigger] mult(x, m, b, k), b == 2real * rpi()
    ensures 0real <= m <= b ==> is_lng(x - rpi(), m - rpi()), -b <= m <= 0real ==> is_lng(x - rpi(), m + rpi())
{
    let p = rpi(); let n = x - p;
    lemma_turns(m - p, k); assert(n == m - p + k as real * (2real * p));
    lemma_turns(m + p, k - 1);
    assert(n == m + p + (k - 1) as real * (2real * p)) by (nonlinear_arith) requires n == m - p + k as real * (2real * p);
}
pub broadcast proof fn lemma_lsub(a: real, a1: real, b: real, b1: real, r: real)
    requires #[trigger] is_lng(a, a1), #[trigger] is_lng(b, b1), #[trigger] is_lsub(a1, b1, r)
    ensures is_lng(a - b, r)
{ lemma_sub(a, b); lemma_sub(a1, b1); }
// the larger the cosine the shorter the way round
pub broadcast proof fn lemma_short(a: real, a1: real, b: real, b1: real)
    requires #[trigger] is_lng(a, a1), #[trigger] is_lng(b, b1)
    ensures rabs(a1) <= rabs(b1) <==> rcos(a) >= rcos(b)
{
    axiom_trig(a1); axiom_trig(b1); let (p, q) = (rabs(a1), rabs(b1));
    if p < q { axiom_mono(p, q); } if q < p { axiom_mono(q, p); }
}
pub broadcast proof fn lemma_sign(s: T, a: T)
    requires !nan(s), !nan(a), key(s) == 1real || key(s) == -1real
    ensures key(#[trigger] mul(s, a)) == key(s) * key(a), key(s) == 1real ==> key(mul(s, a)) == key(a), key(s) == -1real ==> key(mul(s, a)) == -key(a)
{ ax_mul(s, a); let (u, v) = (key(s), key(a)); if u == 1real { assert(u * v == v) by (nonlinear_arith) requires u == 1real; } else { assert(u * v == -v) by (nonlinear_arith) requires u == -1real; } }
pub broadcast proof fn lemma_twice(a: T)
    requires !nan(a)
    ensures key(#[trigger] mul(add(one(), one()), a)) == 2real * key(a)
{ broadcast use ax_one; ax_add(one(), one()); ax_mul(add(one(), one()), a); }
pub open spec fn meetx(r: Rect, s: Rect) -> bool { key(r.mx.x) >= key(s.mn.x) && key(s.mx.x) >= key(r.mn.x) }
pub open spec fn meety(r: Rect, s: Rect) -> bool { key(r.mx.y) >= key(s.mn.y) && key(s.mx.y) >= key(r.mn.y) }
// the range of latitudes both have
pub open spec fn shlo(r: Rect, s: Rect) -> real { rmax(key(r.mn.y), key(s.mn.y)) }
pub open spec fn shhi(r: Rect, s: Rect) -> real { rmin(key(r.mx.y), key(s.mx.y)) }
// l is a latitude of both, as near to a pole as such a latitude gets
pub open spec fn poleward(l: real, r: Rect, s: Rect) -> bool {
    let lo = shlo(r, s); let hi = shhi(r, s);
    (l == lo || l == hi) && rabs(l) >= rabs(lo) && rabs(l) >= rabs(hi)
}
pub proof fn lemma_poleward(l: real, r: Rect, s: Rect, v: real)
    requires poleward(l, r, s), key(r.mn.y) <= v <= key(r.mx.y), key(s.mn.y) <= v <= key(s.mx.y)
    ensures rabs(v) <= rabs(l)
{ }
// d is the distance between the facing edges of r at latitude y1 and of s at latitude y2, the shorter way round
pub open spec fn facing(d: real, r: Rect, s: Rect, y1: real, y2: real) -> bool {
    let a = key(r.mx.x) - key(s.mn.x); let b = key(r.mn.x) - key(s.mx.x);
    ||| rcos(a) >= rcos(b) && d == gcd(key(r.mx.x), y1, key(s.mn.x), y2)
    ||| rcos(b) >= rcos(a) && d == gcd(key(r.mn.x), y1, key(s.mx.x), y2)
}
pub open spec fn atpole(d: real, r: Rect, s: Rect, l: real) -> bool { poleward(l, r, s) && facing(d, r, s, l, l) }
pub open spec fn isrr(d: real, r: Rect, s: Rect) -> bool {
    if meetx(r, s) && meety(r, s) { d == 0real }
    else if meetx(r, s) { d == rmax(key(r.mn.y) - key(s.mx.y), key(s.mn.y) - key(r.mx.y)) }
    else if meety(r, s) { atpole(d, r, s, shlo(r, s)) || atpole(d, r, s, shhi(r, s)) }
    else if key(r.mx.y) < key(s.mn.y) { facing(d, r, s, key(r.mx.y), key(s.mn.y)) }
    else { facing(d, r, s, key(r.mn.y), key(s.mx.y)) }
}
// facing() fixes the cosine of d
pub proof fn lemma_facing(d: real, r: Rect, s: Rect, y1: real, y2: real)
    requires facing(d, r, s, y1, y2)
    ensures 0real <= d <= rpi(), ({ let a = key(r.mx.x) - key(s.mn.x); let b = key(r.mn.x) - key(s.mx.x); rcos(d) == rsin(y1) * rsin(y2) + rcos(y1) * rcos(y2) * rmax(rcos(a), rcos(b)) })
{
    lemma_gcd(key(r.mx.x), y1, key(s.mn.x), y2); lemma_gcd(key(r.mn.x), y1, key(s.mx.x), y2);
    axiom_trig(key(s.mn.x) - key(r.mx.x)); axiom_trig(key(s.mx.x) - key(r.mn.x));
    assert(-(key(s.mn.x) - key(r.mx.x)) == key(r.mx.x) - key(s.mn.x)); assert(-(key(s.mx.x) - key(r.mn.x)) == key(r.mn.x) - key(s.mx.x));
}
pub proof fn lemma_facing_sym(d: real, e: real, r: Rect, s: Rect, y1: real, y2: real)
    requires facing(d, r, s, y1, y2), facing(e, s, r, y2, y1)
    ensures d == e
{
    lemma_facing(d, r, s, y1, y2); lemma_facing(e, s, r, y2, y1);
    axiom_trig(key(s.mn.x) - key(r.mx.x)); axiom_trig(key(s.mx.x) - key(r.mn.x));
    assert(-(key(s.mn.x) - key(r.mx.x)) == key(r.mx.x) - key(s.mn.x)); assert(-(key(s.mx.x) - key(r.mn.x)) == key(r.mn.x) - key(s.mx.x));
    let m = rmax(rcos(key(r.mx.x) - key(s.mn.x)), rcos(key(r.mn.x) - key(s.mx.x)));
    let (c1, c2, s1, s2) = (rcos(y1), rcos(y2), rsin(y1), rsin(y2));
    assert(s1 * s2 + c1 * c2 * m == s2 * s1 + c2 * c1 * m) by (nonlinear_arith);
    lemma_same(d, e);
}
// a latitude and its mirror image give the same
pub proof fn lemma_facing_even(d: real, r: Rect, s: Rect, l: real)
    requires facing(d, r, s, l, l)
    ensures facing(d, r, s, -l, -l)
{
    axiom_trig(l); let (c, sn) = (rcos(l), rsin(l)); assert((-sn) * (-sn) == sn * sn) by (nonlinear_arith);
    lemma_gcd(key(r.mx.x), l, key(s.mn.x), l); lemma_gcd(key(r.mn.x), l, key(s.mx.x), l);
    lemma_gcd(key(r.mx.x), -l, key(s.mn.x), -l); lemma_gcd(key(r.mn.x), -l, key(s.mx.x), -l);
    lemma_same(gcd(key(r.mx.x), l, key(s.mn.x), l), gcd(key(r.mx.x), -l, key(s.mn.x), -l));
    lemma_same(gcd(key(r.mn.x), l, key(s.mx.x), l), gcd(key(r.mn.x), -l, key(s.mx.x), -l));
}
// the distance of two rectangles: in [0, pi], one value, the same in both directions
pub proof fn lemma_rr(d: real, e: real, r: Rect, s: Rect)
    requires rok(r), rok(s), isrr(d, r, s), isrr(e, s, r)
    ensures d == e, 0real <= d <= rpi()
{
    axiom_pi();
    if meetx(r, s) { }
    else if meety(r, s) {
        let l = if atpole(d, r, s, shlo(r, s)) { shlo(r, s) } else { shhi(r, s) };
        let m = if atpole(e, s, r, shlo(s, r)) { shlo(s, r) } else { shhi(s, r) };
        lemma_facing(d, r, s, l, l);
        if l != m { assert(m == -l); lemma_facing_even(e, s, r, m); assert(-m == l); }
        lemma_facing_sym(d, e, r, s, l, l);
    } else if key(r.mx.y) < key(s.mn.y) { lemma_facing(d, r, s, key(r.mx.y), key(s.mn.y)); lemma_facing_sym(d, e, r, s, key(r.mx.y), key(s.mn.y)); }
    else { lemma_facing(d, r, s, key(r.mn.y), key(s.mx.y)); lemma_facing_sym(d, e, r, s, key(r.mn.y), key(s.mx.y)); }
}
//#}
