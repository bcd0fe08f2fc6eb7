// ---------------------------------------------------------------- std: further iterator methods (trusted contracts)
pub open spec fn sk<X>(s: Seq<X>, n: int) -> Seq<X> { if n < s.len() { s.skip(n) } else { Seq::empty() } }
pub open spec fn tk<X>(s: Seq<X>, n: int) -> Seq<X> { if n < s.len() { s.take(n) } else { s } }
impl<'a, X> Iter<'a, X> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &'a [X]) ensures r@ == self.rem() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *r->0 == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<&'a X>)
        ensures old(self).rem().len() <= n ==> r is None && final(self).rem() == Seq::<X>::empty(),
            old(self).rem().len() > n ==> r is Some && *r->0 == old(self).rem()[n as int] && final(self).rem() == old(self).rem().skip(n + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<&'a X>) ensures r is Some <==> self.rem().len() > 0, r is Some ==> *r->0 == self.rem().last() { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Iter<'a, X>) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Iter<'a, X>) ensures r.rem() == sk(self.rem(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Iter<'a, X>) ensures r.rem() == tk(self.rem(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VecIt<X>) ensures r.rem() == self.rem() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VecIt<(usize, &'a X)>)
        ensures r.rem().len() == self.rem().len(), forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i]).0 == i && *r.rem()[i].1 == self.rem()[i],
    { unimplemented!() }
}
impl<X> VecIt<X> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<X>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem().last()) && final(self).rem() == old(self).rem().drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<X>) ensures r == (if self.rem().len() > 0 { Some(self.rem().last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<X>)
        ensures old(self).rem().len() <= n ==> r is None && final(self).rem() == Seq::<X>::empty(),
            old(self).rem().len() > n ==> r == Some(old(self).rem()[n as int]) && final(self).rem() == old(self).rem().skip(n + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VecIt<X>) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VecIt<X>) ensures r.rem() == sk(self.rem(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VecIt<X>) ensures r.rem() == tk(self.rem(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VecIt<(usize, X)>)
        ensures r.rem().len() == self.rem().len(), forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i]).0 == i && r.rem()[i].1 == self.rem()[i],
    { unimplemented!() }
}
pub open spec fn oseq<X>(o: Option<X>) -> Seq<X> { match o { Some(x) => seq![x], None => Seq::empty() } }
impl<X> QtIntoVec<X> for Option<X> {
    #[verifier::external_body]
    fn qt_into(self) -> (r: VecIt<X>) ensures r.rem() == oseq(self) { unimplemented!() }
}
pub trait QtRange { spec fn lo(&self) -> int; spec fn hi(&self, n: int) -> int; }
impl QtRange for std::ops::Range<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { self.end as int } }
impl QtRange for std::ops::RangeTo<usize> { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self, n: int) -> int { self.end as int } }
impl QtRange for std::ops::RangeFrom<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self, n: int) -> int { n } }
impl QtRange for std::ops::RangeFull { open spec fn lo(&self) -> int { 0 } open spec fn hi(&self, n: int) -> int { n } }
pub trait QtDrain<X>: Sized {
    spec fn vw(self) -> Seq<X>;
    fn qt_drain<R: QtRange>(&mut self, r: R) -> (o: VecIt<X>)
        requires 0 <= r.lo() <= r.hi(old(self).vw().len() as int) <= old(self).vw().len(),
        ensures o.rem() == old(self).vw().subrange(r.lo(), r.hi(old(self).vw().len() as int)),
            final(self).vw() == old(self).vw().take(r.lo()) + old(self).vw().skip(r.hi(old(self).vw().len() as int));
}
impl<X> QtDrain<X> for Vec<X> {
    open spec fn vw(self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn qt_drain<R: QtRange>(&mut self, r: R) -> (o: VecIt<X>) { unimplemented!() }
}
pub assume_specification<X> [<[X]>::swap] (s: &mut [X], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<X> [<[X]>::reverse] (s: &mut [X])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<X> [Option::<X>::or] (a: Option<X>, b: Option<X>) -> (r: Option<X>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<X> [Option::<X>::xor] (a: Option<X>, b: Option<X>) -> (r: Option<X>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<X> [Option::<X>::replace] (a: &mut Option<X>, b: X) -> (r: Option<X>)
    ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<X> [Option::<Option<X>>::flatten] (a: Option<Option<X>>) -> (r: Option<X>)
    ensures r == (match a { Some(b) => b, None => None });
pub assume_specification<X, E> [Result::<X, E>::unwrap_or] (a: Result<X, E>, b: X) -> (r: X)
    ensures r == (match a { Ok(x) => x, Err(_) => b });
pub assume_specification<X, E, F> [Result::<X, E>::or::<F>] (a: Result<X, E>, b: Result<X, F>) -> (r: Result<X, F>)
    ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
