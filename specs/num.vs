// ---------------------------------------------------------------- numbers: an arbitrary `GeoNum`
// T is any numeric type: comparisons are those of the reals the numbers stand for, NaN compares with nothing,
// arithmetic is uninterpreted. Nothing else is assumed here (see `mid` axiom further down).
#[verifier::external_body]
pub struct T { p: PhantomData<()> }
impl Clone for T { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for T {}
pub uninterp spec fn nan(a: T) -> bool;
pub uninterp spec fn key(a: T) -> real;
pub open spec fn le(a: T, b: T) -> bool { !nan(a) && !nan(b) && key(a) <= key(b) }
pub open spec fn lt(a: T, b: T) -> bool { !nan(a) && !nan(b) && key(a) < key(b) }
pub open spec fn eqv(a: T, b: T) -> bool { !nan(a) && !nan(b) && key(a) == key(b) }
pub open spec fn ord(a: T, b: T) -> Option<Ordering> {
    if nan(a) || nan(b) { None } else if key(a) < key(b) { Some(Ordering::Less) } else if key(a) == key(b) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
pub uninterp spec fn add(a: T, b: T) -> T;
pub uninterp spec fn sub(a: T, b: T) -> T;
pub uninterp spec fn div(a: T, b: T) -> T;
pub uninterp spec fn one() -> T;
pub uninterp spec fn zero() -> T;
pub uninterp spec fn inf() -> T;
pub uninterp spec fn finite(a: T) -> bool;
pub open spec fn two() -> T { add(one(), one()) }
impl PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &T) -> bool { eqv(*self, *o) }
}
impl PartialEq for T { #[verifier::external_body] fn eq(&self, o: &T) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &T) -> Option<Ordering> { ord(*self, *o) }
}
impl PartialOrd for T { #[verifier::external_body] fn partial_cmp(&self, o: &T) -> (r: Option<Ordering>) { unimplemented!() } }
impl AddSpecImpl<T> for T {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: T) -> bool { true }
    open spec fn add_spec(self, o: T) -> T { add(self, o) }
}
impl Add for T { type Output = T; #[verifier::external_body] fn add(self, o: T) -> T { unimplemented!() } }
impl SubSpecImpl<T> for T {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: T) -> bool { true }
    open spec fn sub_spec(self, o: T) -> T { sub(self, o) }
}
impl Sub for T { type Output = T; #[verifier::external_body] fn sub(self, o: T) -> T { unimplemented!() } }
impl DivSpecImpl<T> for T {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: T) -> bool { true }
    open spec fn div_spec(self, o: T) -> T { div(self, o) }
}
impl Div for T { type Output = T; #[verifier::external_body] fn div(self, o: T) -> T { unimplemented!() } }
pub uninterp spec fn mul(a: T, b: T) -> T;
pub uninterp spec fn neg(a: T) -> T;
impl MulSpecImpl<T> for T {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: T) -> bool { true }
    open spec fn mul_spec(self, o: T) -> T { mul(self, o) }
}
impl Mul for T { type Output = T; #[verifier::external_body] fn mul(self, o: T) -> T { unimplemented!() } }
impl NegSpecImpl for T {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> T { neg(self) }
}
impl Neg for T { type Output = T; #[verifier::external_body] fn neg(self) -> T { unimplemented!() } }
pub uninterp spec fn rem(a: T, b: T) -> T;
impl RemSpecImpl<T> for T {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: T) -> bool { true }
    open spec fn rem_spec(self, o: T) -> T { rem(self, o) }
}
impl Rem for T { type Output = T; #[verifier::external_body] fn rem(self, o: T) -> T { unimplemented!() } }
pub open spec fn rmax(a: real, b: real) -> real { if a < b { b } else { a } }
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a < 0real { -a } else { a } }
pub uninterp spec fn eps() -> T;
impl T {
    #[verifier::external_body]
    pub fn epsilon() -> (r: T) ensures r == eps(), !nan(r), 0real < key(r) < 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn infinity() -> (r: T) ensures r == inf() { unimplemented!() }
    // a number written in the source, as a fraction
    #[verifier::external_body]
    pub fn qt_num(n: i128, d: i128) -> (r: Option<T>) requires d > 0 ensures r is Some, !nan(r->0), key(r->0) == (n as int as real) / (d as int as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == nan(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == eqv(*self, zero()) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: T) -> (r: T) ensures !nan(self) && !nan(o) ==> (r == self || r == o) && !nan(r) && key(r) == rmax(key(self), key(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: T) -> (r: T) ensures !nan(self) && !nan(o) ==> (r == self || r == o) && !nan(r) && key(r) == rmin(key(self), key(o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: T) ensures !nan(self) ==> !nan(r) && key(r) == rabs(key(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: T) ensures r == one() { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: T) ensures r == zero() { unimplemented!() }
    #[verifier::external_body]
    pub fn qt_cast() -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn qt_infinity() -> (r: Option<T>) ensures r == Some(inf()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == (finite(self) && !nan(self)) { unimplemented!() }
}
pub fn qt_unreachable<A>() -> (r: A) requires false { loop invariant false decreases 0int { } }

// ---------------------------------------------------------------- geo's Coord, Point, Rect
pub struct Coord { pub x: T, pub y: T }
impl Clone for Coord { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Coord {}
impl Coord { pub fn x_y(&self) -> (r: (T, T)) ensures r == (self.x, self.y) { (self.x, self.y) } }
pub struct Point(pub Coord);
impl Clone for Point { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Point {}
impl Point {
    pub fn x_y(&self) -> (r: (T, T)) ensures r == (self.0.x, self.0.y) { (self.0.x, self.0.y) }
    pub fn x(&self) -> (r: T) ensures r == self.0.x { self.0.x }
    pub fn y(&self) -> (r: T) ensures r == self.0.y { self.0.y }
    pub fn new(x: T, y: T) -> (r: Point) ensures r.0 == (Coord { x, y }) { Point(Coord { x, y }) }
}
pub struct Rect { pub mn: Coord, pub mx: Coord }
impl Clone for Rect { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Rect {}
impl PartialEqSpecImpl for Coord {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Coord) -> bool { ceqv(*self, *o) }
}
impl PartialEq for Coord { #[verifier::external_body] fn eq(&self, o: &Coord) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Point) -> bool { ceqv(self.0, o.0) }
}
impl PartialEq for Point { #[verifier::external_body] fn eq(&self, o: &Point) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Rect {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Rect) -> bool { reqv(*self, *o) }
}
impl PartialEq for Rect { #[verifier::external_body] fn eq(&self, o: &Rect) -> (r: bool) { unimplemented!() } }
pub open spec fn lo2(a: T, b: T) -> T { if lt(a, b) { a } else { b } }
pub open spec fn hi2(a: T, b: T) -> T { if lt(a, b) { b } else { a } }
pub open spec fn rnew(a: Coord, b: Coord) -> Rect {
    Rect { mn: Coord { x: lo2(a.x, b.x), y: lo2(a.y, b.y) }, mx: Coord { x: hi2(a.x, b.x), y: hi2(a.y, b.y) } }
}
impl Rect {
    #[verifier::external_body]
    pub fn new(a: Coord, b: Coord) -> (r: Rect) ensures r == rnew(a, b) { unimplemented!() }
    pub fn min(self) -> (r: Coord) ensures r == self.mn { self.mn }
    // geo: not below (above) the other corner, else a panic
    pub fn set_min(&mut self, c: Coord) requires le(c.x, old(self).mx.x), le(c.y, old(self).mx.y) ensures final(self).mn == c, final(self).mx == old(self).mx { self.mn = c; }
    pub fn set_max(&mut self, c: Coord) requires le(old(self).mn.x, c.x), le(old(self).mn.y, c.y) ensures final(self).mx == c, final(self).mn == old(self).mn { self.mx = c; }
    pub fn max(self) -> (r: Coord) ensures r == self.mx { self.mx }
    pub fn width(self) -> (r: T) ensures r == sub(self.mx.x, self.mn.x) { self.mx.x - self.mn.x }
    pub fn height(self) -> (r: T) ensures r == sub(self.mx.y, self.mn.y) { self.mx.y - self.mn.y }
    // geo: two rectangles intersect unless one lies strictly to one side of the other
    #[verifier::external_body]
    pub fn intersects(&self, o: &Rect) -> (r: bool) ensures r == rmeet(*self, *o) { unimplemented!() }
}
pub open spec fn rmeet(a: Rect, b: Rect) -> bool {
    !lt(a.mx.x, b.mn.x) && !lt(a.mx.y, b.mn.y) && !lt(b.mx.x, a.mn.x) && !lt(b.mx.y, a.mn.y)
}
pub open spec fn inr(b: Rect, c: Coord) -> bool { le(b.mn.x, c.x) && le(c.x, b.mx.x) && le(b.mn.y, c.y) && le(c.y, b.mx.y) }
pub open spec fn okq(q: Rect) -> bool { le(q.mn.x, q.mx.x) && le(q.mn.y, q.mx.y) }
pub open spec fn rin(a: Rect, b: Rect) -> bool { le(a.mn.x, b.mn.x) && le(b.mx.x, a.mx.x) && le(a.mn.y, b.mn.y) && le(b.mx.y, a.mx.y) }

// ---------------------------------------------------------------- the geometry of a cell
pub open spec fn mid(lo: T, hi: T) -> T { add(lo, div(sub(hi, lo), two())) }
pub open spec fn midx(b: Rect) -> T { mid(b.mn.x, b.mx.x) }
pub open spec fn midy(b: Rect) -> T { mid(b.mn.y, b.mx.y) }
// which quadrant a position belongs to: a position on a centre line goes to the low side
pub open spec fn route(b: Rect, c: Coord) -> int {
    if le(c.x, midx(b)) { if le(c.y, midy(b)) { 0 } else { 3 } } else { if le(c.y, midy(b)) { 1 } else { 2 } }
}
// the rectangles cut out by the centre lines: low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y
pub open spec fn quad(b: Rect, i: int) -> Rect {
    let m = Coord { x: midx(b), y: midy(b) };
    if i == 0 { rnew(b.mn, m) }
    else if i == 1 { rnew(Coord { x: m.x, y: b.mn.y }, Coord { x: b.mx.x, y: m.y }) }
    else if i == 2 { rnew(m, b.mx) }
    else { rnew(Coord { x: b.mn.x, y: m.y }, Coord { x: m.x, y: b.mx.y }) }
}
// a usable interval: ends are numbers in order, and the length can be represented
pub uninterp spec fn okw(lo: real, hi: real) -> bool;
pub open spec fn oki(lo: T, hi: T) -> bool { le(lo, hi) && okw(key(lo), key(hi)) }
pub open spec fn okr(b: Rect) -> bool { oki(b.mn.x, b.mx.x) && oki(b.mn.y, b.mx.y) }
// ASSUMPTION mid: the computed centre of a usable interval lies in it and cuts it into usable intervals
// (discharged bit-precisely for f32, f64 and i32 by the Kani harness `mid_*` in /verif/kani)
#[verifier::external_body]
pub proof fn axiom_mid(lo: T, hi: T)
    requires oki(lo, hi)
    ensures le(lo, mid(lo, hi)), le(mid(lo, hi), hi), oki(lo, mid(lo, hi)), oki(mid(lo, hi), hi)
{}
// ASSUMPTION sub: an interval inside a usable one is usable (Kani: `sub_*`)
#[verifier::external_body]
pub proof fn axiom_okw(lo: T, hi: T, a: T, b: T)
    requires oki(lo, hi), le(lo, a), le(a, b), le(b, hi)
    ensures oki(a, b)
{}
pub open spec fn ceqv(a: Coord, b: Coord) -> bool { eqv(a.x, b.x) && eqv(a.y, b.y) }
// same rectangle up to the bits of equal numbers (0.0 and -0.0)
pub open spec fn reqv(a: Rect, b: Rect) -> bool { ceqv(a.mn, b.mn) && ceqv(a.mx, b.mx) }

// ---------------------------------------------------------------- std: slice, vec and chained iterators
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct VecIt<X> { p: std::vec::IntoIter<X> }
impl<X> VecIt<X> {
    pub uninterp spec fn rem(self) -> Seq<X>;
    #[verifier::external_body]
    pub fn qt_next(&mut self) -> (r: Option<X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
}
pub trait QtIntoVec<X>: Sized { fn qt_into(self) -> VecIt<X>; }
impl<X> QtIntoVec<X> for Vec<X> {
    #[verifier::external_body]
    fn qt_into(self) -> (r: VecIt<X>) ensures r.rem() == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Iter<'a, X> { p: std::slice::Iter<'a, X> }
impl<'a, X> Iter<'a, X> {
    pub uninterp spec fn rem(self) -> Seq<X>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *r->0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
    pub fn qt_next(&mut self) -> (r: Option<&'a X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *r->0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
    { self.next() }
    pub fn qt_into(self) -> (r: Iter<'a, X>) ensures r == self { self }
}
pub trait QtIter<X> { spec fn items(&self) -> Seq<X>; fn qt_iter(&self) -> (r: Iter<'_, X>) ensures r.rem() == self.items(); }
impl<X> QtIter<X> for Vec<X> {
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn qt_iter(&self) -> (r: Iter<'_, X>) { unimplemented!() }
}
impl<X> QtIter<X> for [X; 4] {
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn qt_iter(&self) -> (r: Iter<'_, X>) { unimplemented!() }
}
pub trait QtIntoArr<'a, X>: Sized { spec fn items2(&self) -> Seq<X>; fn qt_into(self) -> (r: Iter<'a, X>) ensures r.rem() == self.items2(); }
impl<'a, X> QtIntoArr<'a, X> for &'a [X; 4] {
    open spec fn items2(&self) -> Seq<X> { (**self)@ }
    #[verifier::external_body]
    fn qt_into(self) -> (r: Iter<'a, X>) { unimplemented!() }
}
impl<'a, X> QtIntoArr<'a, X> for &'a Vec<X> {
    open spec fn items2(&self) -> Seq<X> { (**self)@ }
    #[verifier::external_body]
    fn qt_into(self) -> (r: Iter<'a, X>) { unimplemented!() }
}
pub trait QtDef: Sized { spec fn is_def(self) -> bool; fn qt_def() -> (r: Self) ensures r.is_def(); }
impl<X> QtDef for Vec<X> { open spec fn is_def(self) -> bool { self@.len() == 0 } fn qt_def() -> (r: Self) { Vec::new() } }
impl<X> QtDef for Option<X> { open spec fn is_def(self) -> bool { self is None } fn qt_def() -> (r: Self) { None } }
pub fn qt_take<X: QtDef>(dest: &mut X) -> (r: X) ensures r == *old(dest), final(dest).is_def() { let x = X::qt_def(); std::mem::replace(dest, x) }
impl<X> QtIntoVec<X> for VecIt<X> { fn qt_into(self) -> (r: VecIt<X>) ensures r == self { self } }
pub assume_specification<X> [std::mem::replace::<X>] (dest: &mut X, src: X) -> (r: X)
    ensures r == *old(dest), *final(dest) == src;

// ---------------------------------------------------------------- sequence and multiset lemmas
pub broadcast proof fn lemma_skip1<A>(s: Seq<A>)
    requires s.len() > 0
    ensures #[trigger] s.skip(1).to_multiset() =~= s.to_multiset().remove(s[0]), s.to_multiset().contains(s[0])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s =~= seq![s[0]] + s.skip(1));
    vstd::seq_lib::lemma_multiset_commutative(seq![s[0]], s.skip(1));
    assert(seq![s[0]] =~= Seq::<A>::empty().push(s[0]));
    assert(seq![s[0]].to_multiset() =~= Multiset::singleton(s[0]));
}
pub assume_specification<X, Y> [Option::<X>::zip::<Y>] (a: Option<X>, b: Option<Y>) -> (r: Option<(X, Y)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
//@@include std.vs
