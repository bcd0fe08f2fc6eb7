// ---------------------------------------------------------------- ASSUMPTION trig: the textbook facts about the real functions
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn rsin(a: real) -> real;
pub uninterp spec fn rcos(a: real) -> real;
pub uninterp spec fn rasin(a: real) -> real;
pub uninterp spec fn rsqrt(a: real) -> real;
pub uninterp spec fn ratan2(a: real, b: real) -> real;
pub axiom fn axiom_pi() ensures 3real < rpi() < 4real, rsin(rpi()) == 0real, rcos(rpi()) == -1real, rsin(0real) == 0real, rcos(0real) == 1real;
pub axiom fn axiom_trig(a: real) ensures sq(rsin(a)) + sq(rcos(a)) == 1real, rsin(-a) == -rsin(a), rcos(-a) == rcos(a);
pub axiom fn axiom_add(a: real, b: real) ensures rsin(a + b) == rsin(a) * rcos(b) + rcos(a) * rsin(b), rcos(a + b) == rcos(a) * rcos(b) - rsin(a) * rsin(b);
pub axiom fn axiom_mono(a: real, b: real) requires 0real <= a < b <= rpi() ensures rcos(a) > rcos(b);
pub axiom fn axiom_asin(s: real) requires 0real <= s <= 1real ensures 0real <= rasin(s) <= rpi() / 2real, rsin(rasin(s)) == s;
pub axiom fn axiom_sqrt(a: real) requires a >= 0real ensures rsqrt(a) >= 0real, sq(rsqrt(a)) == a;
pub axiom fn axiom_atan2(a: real, b: real) ensures -rpi() <= ratan2(a, b) <= rpi(), a == rsqrt(sq(a) + sq(b)) * rsin(ratan2(a, b)), b == rsqrt(sq(a) + sq(b)) * rcos(ratan2(a, b));
pub open spec fn sq(a: real) -> real { a * a }
// ---------------------------------------------------------------- the float's functions, as those of the reals
pub broadcast axiom fn ax_pi() ensures !nan(#[trigger] pi()), key(pi()) == rpi();
pub broadcast axiom fn ax_half(a: T) requires !nan(a) ensures !nan(#[trigger] div(a, add(one(), one()))), key(div(a, add(one(), one()))) == key(a) / 2real;
pub uninterp spec fn pi() -> T;
pub open spec fn mult(a: real, r: real, b: real, k: int) -> bool { a == k as real * b + r }
pub broadcast axiom fn ax_rem(a: T, b: T) requires !nan(a), !nan(b), key(b) > 0real
    ensures !nan(#[trigger] rem(a, b)), exists|k: int| #[trigger] mult(key(a), key(rem(a, b)), key(b), k), rabs(key(rem(a, b))) < key(b), key(a) >= 0real ==> key(rem(a, b)) >= 0real, key(a) <= 0real ==> key(rem(a, b)) <= 0real;
impl T {
    #[verifier::external_body]
    pub fn qt_pi() -> (r: T) ensures r == pi() { unimplemented!() }
    #[verifier::external_body]
    pub fn qt_two() -> (r: T) ensures r == two() { unimplemented!() }
    #[verifier::external_body]
    pub fn sin(self) -> (r: T) ensures !nan(self) ==> !nan(r) && key(r) == rsin(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn cos(self) -> (r: T) ensures !nan(self) ==> !nan(r) && key(r) == rcos(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn asin(self) -> (r: T) ensures !nan(self) && -1real <= key(self) <= 1real ==> !nan(r) && key(r) == rasin(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn acos(self) -> (r: T) ensures !nan(self) && -1real <= key(self) <= 1real ==> !nan(r) && 0real <= key(r) <= rpi() && rcos(key(r)) == key(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn sin_cos(self) -> (r: (T, T)) ensures !nan(self) ==> !nan(r.0) && !nan(r.1) && key(r.0) == rsin(key(self)) && key(r.1) == rcos(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn tan(self) -> (r: T) ensures !nan(self) && rcos(key(self)) != 0real ==> !nan(r) && key(r) == rsin(key(self)) / rcos(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn hypot(self, o: T) -> (r: T) ensures !nan(self) && !nan(o) ==> !nan(r) && key(r) == rsqrt(sq(key(self)) + sq(key(o))) { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: T) ensures !nan(self) && key(self) != 0real ==> !nan(r) && key(r) == 1real / key(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_add(self, a: T, b: T) -> (r: T) ensures !nan(self) && !nan(a) && !nan(b) ==> !nan(r) && key(r) == key(self) * key(a) + key(b) { unimplemented!() }
    // the largest integer not above
    #[verifier::external_body]
    pub fn floor(self) -> (r: T) ensures !nan(self) ==> !nan(r) && key(r) == key(self).floor() as real { unimplemented!() }
    // a multiple or part of pi, as written in the source
    #[verifier::external_body]
    pub fn qt_pis(n: i128, d: i128) -> (r: Option<T>) requires d > 0 ensures r is Some, !nan(r->0), key(r->0) == rpi() * (n as int as real) / (d as int as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: T) ensures !nan(self) && key(self) >= 0real ==> !nan(r) && key(r) == rsqrt(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn atan2(self, o: T) -> (r: T) ensures !nan(self) && !nan(o) ==> !nan(r) && key(r) == ratan2(key(self), key(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: T) ensures !nan(self) && n == 2 ==> !nan(r) && key(r) == sq(key(self)) { unimplemented!() }
    // 1 or -1; the sign of a zero is not said here
    #[verifier::external_body]
    pub fn signum(self) -> (r: T) ensures !nan(self) ==> !nan(r) && (key(r) == 1real || key(r) == -1real) && (key(self) > 0real ==> key(r) == 1real) && (key(self) < 0real ==> key(r) == -1real) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_f64(self) -> (r: Option<T>) ensures r == Some(self) { unimplemented!() }
}
// ---------------------------------------------------------------- what follows
pub proof fn lemma_sub(a: real, b: real) ensures rcos(a - b) == rcos(a) * rcos(b) + rsin(a) * rsin(b), rsin(a - b) == rsin(a) * rcos(b) - rcos(a) * rsin(b)
{ axiom_add(a, -b); axiom_trig(b); assert(a - b == a + (-b));
  assert(rsin(a) * (-rsin(b)) == -(rsin(a) * rsin(b))) by (nonlinear_arith); assert(rcos(a) * (-rsin(b)) == -(rcos(a) * rsin(b))) by (nonlinear_arith); }
pub proof fn lemma_one(a: real) ensures -1real <= rsin(a) <= 1real, -1real <= rcos(a) <= 1real
{ axiom_trig(a); let s = rsin(a); let c = rcos(a);
  assert(-1real <= s <= 1real && -1real <= c <= 1real) by (nonlinear_arith) requires s * s + c * c == 1real; }
pub proof fn lemma_half(a: real) ensures sq(rsin(a / 2real)) == (1real - rcos(a)) / 2real, 0real <= (1real - rcos(a)) / 2real <= 1real
{ let h = a / 2real; axiom_add(h, h); axiom_trig(h); assert(h + h == a); lemma_one(a); }
pub proof fn lemma_prod(a: real, b: real) ensures rcos(a) * rcos(b) == (rcos(a - b) + rcos(a + b)) / 2real
{ lemma_sub(a, b); axiom_add(a, b); }
pub proof fn lemma_turn(a: real) ensures rcos(a + 2real * rpi()) == rcos(a), rsin(a + 2real * rpi()) == rsin(a)
{ axiom_pi(); let p = rpi(); axiom_add(a, p); axiom_add(a + p, p); assert(a + 2real * p == a + p + p);
  let (s, c, s1, c1) = (rsin(a), rcos(a), rsin(a + p), rcos(a + p));
  let (z, m) = (rsin(p), rcos(p));
  assert(s1 == -s && c1 == -c) by (nonlinear_arith) requires s1 == s * m + c * z, c1 == c * m - s * z, z == 0real, m == -1real;
  let (s2, c2) = (rsin(a + p + p), rcos(a + p + p));
  assert(s2 == s && c2 == c) by (nonlinear_arith) requires s2 == s1 * m + c1 * z, c2 == c1 * m - s1 * z, z == 0real, m == -1real, s1 == -s, c1 == -c; }
pub proof fn lemma_mono(a: real, b: real) requires 0real <= a <= b <= rpi() ensures rcos(a) >= rcos(b)
{ if a < b { axiom_mono(a, b); } }
pub proof fn lemma_cosp(a: real) requires -rpi() / 2real <= a <= rpi() / 2real ensures rcos(a) >= 0real
{ axiom_pi(); let h = rpi() / 2real; axiom_add(h, h); axiom_trig(h); assert(h + h == rpi()); let (s, c) = (rsin(h), rcos(h));
  assert(c == 0real) by (nonlinear_arith) requires c * c - s * s == -1real, s * s + c * c == 1real;
  axiom_trig(a); if a >= 0real { lemma_mono(a, h); } else { lemma_mono(-a, h); } }
// over one turn cos is nowhere above the larger end of an interval
pub proof fn lemma_ends(a: real, t: real, b: real) requires 0real <= a <= t <= b <= 2real * rpi() ensures rcos(t) <= rmax(rcos(a), rcos(b))
{ axiom_pi(); let p = rpi(); if t <= p { lemma_mono(a, t); } else {
    lemma_turn(-b); lemma_turn(-t); axiom_trig(b); axiom_trig(t); assert(-b + 2real * p == 2real * p - b); assert(-t + 2real * p == 2real * p - t); lemma_mono(2real * p - b, 2real * p - t); } }
pub proof fn lemma_same(a: real, b: real) requires 0real <= a <= rpi(), 0real <= b <= rpi(), rcos(a) == rcos(b) ensures a == b
{ if a < b { axiom_mono(a, b); } if b < a { axiom_mono(b, a); } }
// however a product with a square is written
pub broadcast proof fn lemma_mulsq(a: T, b: T) requires !nan(a), !nan(b)
    ensures #![trigger mul(mul(a, b), b)] !nan(mul(mul(a, b), b)), key(mul(mul(a, b), b)) == key(a) * sq(key(b))
{ ax_mul(a, b); ax_mul(mul(a, b), b); let (x, y) = (key(a), key(b)); assert(x * y * y == x * (y * y)) by (nonlinear_arith); }
// ---------------------------------------------------------------- the great-circle distance
pub open spec fn hav(x1: real, y1: real, x2: real, y2: real) -> real { sq(rsin((y2 - y1) / 2real)) + rcos(y1) * rcos(y2) * sq(rsin((x2 - x1) / 2real)) }
pub closed spec fn gcd(x1: real, y1: real, x2: real, y2: real) -> real { 2real * rasin(rsqrt(hav(x1, y1, x2, y2))) }
pub open spec fn ang(x1: real, y1: real, x2: real, y2: real) -> real { rsin(y1) * rsin(y2) + rcos(y1) * rcos(y2) * rcos(x2 - x1) }
pub proof fn lemma_hav(x1: real, y1: real, x2: real, y2: real)
    ensures 0real <= hav(x1, y1, x2, y2) <= 1real, 1real - 2real * hav(x1, y1, x2, y2) == ang(x1, y1, x2, y2)
{
    lemma_half(y2 - y1); lemma_half(x2 - x1); lemma_sub(y2, y1); lemma_prod(y1, y2); lemma_one(y1 + y2); lemma_one(y2 - y1); axiom_trig(y1 - y2);
    assert(-(y1 - y2) == y2 - y1);
    let s = (1real - rcos(x2 - x1)) / 2real; let d = rcos(y2 - y1); let g = rcos(y1 + y2); let cc = rcos(y1) * rcos(y2);
    let h = hav(x1, y1, x2, y2);
    assert(h == (1real - d) / 2real + cc * s);
    assert(cc == (d + g) / 2real);
    assert(0real <= h <= 1real) by (nonlinear_arith) requires h == (1real - d) / 2real + cc * s, cc == (d + g) / 2real, 0real <= s <= 1real, -1real <= d <= 1real, -1real <= g <= 1real {
        assert(h == (1real - s) * ((1real - d) / 2real) + s * ((1real + g) / 2real)) by (nonlinear_arith) requires h == (1real - d) / 2real + cc * s, cc == (d + g) / 2real;
        let p = (1real - d) / 2real; let q = (1real + g) / 2real;
        assert(0real <= (1real - s) * p <= 1real - s) by (nonlinear_arith) requires 0real <= p <= 1real, 0real <= s <= 1real;
        assert(0real <= s * q <= s) by (nonlinear_arith) requires 0real <= q <= 1real, 0real <= s <= 1real;
    }
    let dl = rcos(x2 - x1); let ss = rsin(y1) * rsin(y2);
    assert(d == cc + ss) by (nonlinear_arith) requires d == rcos(y2) * rcos(y1) + rsin(y2) * rsin(y1), cc == rcos(y1) * rcos(y2), ss == rsin(y1) * rsin(y2);
    assert(1real - 2real * h == ss + cc * dl) by (nonlinear_arith) requires h == (1real - d) / 2real + cc * s, s == (1real - dl) / 2real, d == cc + ss;
}
pub proof fn lemma_root1(a: real) requires 0real <= a <= 1real ensures 0real <= rsqrt(a) <= 1real
{ axiom_sqrt(a); let r = rsqrt(a); assert(r <= 1real) by (nonlinear_arith) requires r >= 0real, r * r <= 1real; }
pub proof fn lemma_gcd(x1: real, y1: real, x2: real, y2: real)
    ensures 0real <= gcd(x1, y1, x2, y2) <= rpi(), rcos(gcd(x1, y1, x2, y2)) == ang(x1, y1, x2, y2)
{
    lemma_hav(x1, y1, x2, y2); let h = hav(x1, y1, x2, y2); lemma_root1(h); axiom_sqrt(h); axiom_asin(rsqrt(h));
    let d = gcd(x1, y1, x2, y2); lemma_half(d); assert(d / 2real == rasin(rsqrt(h)));
}
// it is what the haversine formula gives
pub proof fn lemma_gcd_def(x1: real, y1: real, x2: real, y2: real) ensures gcd(x1, y1, x2, y2) == 2real * rasin(rsqrt(hav(x1, y1, x2, y2))) { }
// the larger the cosine the nearer
pub proof fn lemma_nearer(a1: real, b1: real, a2: real, b2: real, c1: real, d1: real, c2: real, d2: real)
    ensures ang(a1, b1, a2, b2) >= ang(c1, d1, c2, d2) ==> gcd(a1, b1, a2, b2) <= gcd(c1, d1, c2, d2),
{
    lemma_gcd(a1, b1, a2, b2); lemma_gcd(c1, d1, c2, d2); let e = gcd(a1, b1, a2, b2); let f = gcd(c1, d1, c2, d2);
    if e > f { axiom_mono(f, e); }
}
// symmetric, zero to itself, unchanged by a full turn
pub proof fn lemma_gcd_sym(x1: real, y1: real, x2: real, y2: real) ensures gcd(x1, y1, x2, y2) == gcd(x2, y2, x1, y1)
{
    axiom_trig(x2 - x1); assert(-(x2 - x1) == x1 - x2); let (c1, c2, k) = (rcos(y1), rcos(y2), rcos(x2 - x1)); let (s1, s2) = (rsin(y1), rsin(y2));
    assert(s1 * s2 + c1 * c2 * k == s2 * s1 + c2 * c1 * k) by (nonlinear_arith);
    lemma_gcd(x1, y1, x2, y2); lemma_gcd(x2, y2, x1, y1); lemma_same(gcd(x1, y1, x2, y2), gcd(x2, y2, x1, y1));
}
pub proof fn lemma_gcd_self(x: real, y: real) ensures gcd(x, y, x, y) == 0real
{
    axiom_pi(); lemma_gcd(x, y, x, y); axiom_trig(y); assert(x - x == 0real);
    let (s, c, k) = (rsin(y), rcos(y), rcos(x - x));
    assert(s * s + c * c * k == 1real) by (nonlinear_arith) requires s * s + c * c == 1real, k == 1real;
    lemma_same(gcd(x, y, x, y), 0real);
}
pub proof fn lemma_gcd_turn(x1: real, y1: real, x2: real, y2: real) ensures gcd(x1, y1, x2 + 2real * rpi(), y2) == gcd(x1, y1, x2, y2), gcd(x1 + 2real * rpi(), y1, x2, y2) == gcd(x1, y1, x2, y2)
{
    let t = 2real * rpi();
    lemma_turn(x2 - x1); assert(x2 - x1 + t == x2 + t - x1);
    lemma_gcd(x1, y1, x2 + t, y2); lemma_gcd(x1, y1, x2, y2); lemma_same(gcd(x1, y1, x2 + t, y2), gcd(x1, y1, x2, y2));
    lemma_turn(x2 - (x1 + t)); assert(x2 - (x1 + t) + t == x2 - x1);
    lemma_gcd(x1 + t, y1, x2, y2); lemma_same(gcd(x1 + t, y1, x2, y2), gcd(x1, y1, x2, y2));
}
// up or down a meridian: the gap in latitude
pub proof fn lemma_gcd_mer(x: real, y1: real, y2: real) requires rabs(y1 - y2) <= rpi() ensures gcd(x, y1, x, y2) == rabs(y1 - y2)
{
    axiom_pi(); lemma_gcd(x, y1, x, y2); assert(x - x == 0real); lemma_sub(y1, y2); axiom_trig(y1 - y2); assert(-(y1 - y2) == y2 - y1);
    let (s1, c1, s2, c2, k) = (rsin(y1), rcos(y1), rsin(y2), rcos(y2), rcos(x - x));
    assert(s1 * s2 + c1 * c2 * k == c1 * c2 + s1 * s2) by (nonlinear_arith) requires k == 1real;
    lemma_same(gcd(x, y1, x, y2), rabs(y1 - y2));
}
