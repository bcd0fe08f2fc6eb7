impl<'a> DatumIter<'a> {
//@@fn iter.rs|DatumIter<'a,N,D,T>|Iterator|next
//@ret Option<&'a D>
ensures
    rem_d(*old(self)).len() == 0 ==> ret is None && rem_d(*final(self)) == rem_d(*old(self)),
    rem_d(*old(self)).len() > 0 ==> ret is Some && *ret->0 == rem_d(*old(self))[0] && rem_d(*final(self)) == rem_d(*old(self)).skip(1),
    w_d(*final(self)) <= w_d(*old(self)),
decreases w_d(*old(self))
//@pre
broadcast use {lemma_wd_pos};
//@end
    // std's provided methods (over `next`)
    #[verifier::external_body]
    pub fn count(self) -> (ret: usize) ensures ret == rem_d(self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (ret: Option<&'a D>) ensures ret is Some <==> rem_d(self).len() > 0, ret is Some ==> *ret->0 == rem_d(self).last() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<&'a D>)
        ensures rem_d(*old(self)).len() <= n ==> ret is None && rem_d(*final(self)).len() == 0,
            rem_d(*old(self)).len() > n ==> ret is Some && *ret->0 == rem_d(*old(self))[n as int] && rem_d(*final(self)) == rem_d(*old(self)).skip(n + 1),
    { unimplemented!() }
    pub fn qt_into(self) -> (ret: Self) ensures ret == self { self }
    pub fn qt_next(&mut self) -> (ret: Option<&'a D>)
    ensures
        rem_d(*old(self)).len() == 0 ==> ret is None && rem_d(*final(self)) == rem_d(*old(self)),
        rem_d(*old(self)).len() > 0 ==> ret is Some && *ret->0 == rem_d(*old(self))[0] && rem_d(*final(self)) == rem_d(*old(self)).skip(1),
    { self.next() }
}
impl<'a> ChainSelfIter<'a> {
//@@fn iter.rs|ChainSelfIter<'a,N,D,T>||new
ensures rem_c(ret.iter) == rem_d($1) + rem_d($2),
//@end
//@@fn iter.rs|ChainSelfIter<'a,N,D,T>|Iterator|next
//@ret Option<&'a D>
ensures
    rem_c(old(self).iter).len() == 0 ==> ret is None && rem_c(final(self).iter) == rem_c(old(self).iter),
    rem_c(old(self).iter).len() > 0 ==> ret is Some && *ret->0 == rem_c(old(self).iter)[0] && rem_c(final(self).iter) == rem_c(old(self).iter).skip(1),
    w_c(final(self).iter) <= w_c(old(self).iter),
decreases w_c(old(self).iter)
//@end
}
impl<'a> DescendantIter<'a> {
//@@fn iter.rs|DescendantIter<'a,N,D,T>||new
requires $2.rem().len() > 0,
ensures
    rem_x(ret) == rem_d($1) + flat($2.rem()),
    w_x(ret) <= w_d($1) + w_n($2.rem()),
decreases ht($2.rem()[0]), 1int
//@pre
broadcast use {lemma_cat, lemma_wn_pos, lemma_wd_pos, lemma_dw_pos};
//@end
//@@fn iter.rs|DescendantIter<'a,N,D,T>|Iterator|next
//@ret Option<&'a D>
ensures
    rem_x(*old(self)).len() == 0 ==> ret is None && rem_x(*final(self)) == rem_x(*old(self)),
    rem_x(*old(self)).len() > 0 ==> ret is Some && *ret->0 == rem_x(*old(self))[0] && rem_x(*final(self)) == rem_x(*old(self)).skip(1),
    w_x(*final(self)) <= w_x(*old(self)),
decreases w_x(*old(self))
//@pre
lemma_x_step(*self);
broadcast use {lemma_wn_pos, lemma_wd_pos, lemma_dw_pos};
//@alt loops=1
//@attr #[verifier::loop_isolation(false)]
//@pre
lemma_x_step(*self);
broadcast use {lemma_wn_pos, lemma_wd_pos, lemma_dw_pos};
//@loop 0
invariant rem_x(*self) == rem_x(*old(self)), w_x(*self) <= w_x(*old(self)),
decreases w_x(*self)
//@body 0
proof {
    lemma_x_step(*self);
    broadcast use {lemma_wn_pos, lemma_wd_pos, lemma_dw_pos};
}
//@end
}
