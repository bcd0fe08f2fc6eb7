// ---------------------------------------------------------------- std::iter::Chain and Empty (trusted contracts)
pub struct EmptyIt<'a> { p: PhantomData<&'a D> }
impl<'a> EmptyIt<'a> {
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<&'a D>) ensures r is None { unimplemented!() }
}
#[verifier::external_body]
pub fn empty<'a>() -> EmptyIt<'a> { unimplemented!() }
pub struct ChainS<'a> { pub a: Iter<'a, D>, pub b: Iter<'a, D> }
impl<'a> ChainS<'a> {
    pub open spec fn rem(self) -> Seq<D> { self.a.rem() + self.b.rem() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a D>)
        ensures old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && *r->0 == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
}
pub trait QtChainArg<'a>: Sized { spec fn its(&self) -> Seq<D>; }
impl<'a> QtChainArg<'a> for &'a Vec<D> { open spec fn its(&self) -> Seq<D> { (**self)@ } }
impl<'a> QtChainArg<'a> for Iter<'a, D> { open spec fn its(&self) -> Seq<D> { self.rem() } }
impl<'a> Iter<'a, D> {
    #[verifier::external_body]
    pub fn qt_chain<X: QtChainArg<'a>>(self, o: X) -> (r: ChainS<'a>) ensures r.a.rem() == self.rem(), r.b.rem() == o.its() { unimplemented!() }
}
pub struct ChainD<'a> { pub a: Box<DatumIter<'a>>, pub b: Box<DatumIter<'a>> }
impl<'a> ChainD<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a D>)
        ensures rem_c(*old(self)).len() == 0 ==> r is None && rem_c(*final(self)) == rem_c(*old(self)),
            rem_c(*old(self)).len() > 0 ==> r is Some && *r->0 == rem_c(*old(self))[0] && rem_c(*final(self)) == rem_c(*old(self)).skip(1),
            w_c(*final(self)) <= w_c(*old(self)),
    { unimplemented!() }
}
pub trait QtChainBox<'a>: Sized { fn qt_chain(self, o: Self) -> ChainD<'a>; }
impl<'a> QtChainBox<'a> for Box<DatumIter<'a>> {
    fn qt_chain(self, o: Self) -> (r: ChainD<'a>) ensures r.a == self, r.b == o { ChainD { a: self, b: o } }
}

//@@type iter.rs|DatumIter
//@@type iter.rs|ChainSelfIter
//@@type iter.rs|DescendantIter

// what an iterator will still yield
pub open spec fn rem_c(c: ChainD) -> Seq<D> decreases c { rem_d(*c.a) + rem_d(*c.b) }
pub open spec fn rem_x(x: DescendantIter) -> Seq<D> decreases x { rem_d(*x.children_iter) + (rem_d(*x.cur_node_iter) + flat(x.nodes.rem())) }
pub open spec fn rem_d(i: DatumIter) -> Seq<D> decreases i {
    match i {
        DatumIter::Empty => Seq::empty(),
        DatumIter::Slice(s) => s.rem(),
        DatumIter::ChainSlice(s) => s.rem(),
        DatumIter::ChainSelf(s) => rem_c(s.iter),
        DatumIter::Descendant(s) => rem_x(s),
    }
}
// the contents of a row of cells, each in preorder
pub open spec fn flat(s: Seq<Nd>) -> Seq<D> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0].pre() + flat(s.skip(1)) }
}
// ghost weights: every step inside an iterator lowers them (termination)
pub open spec fn dw(n: Nd) -> int decreases n {
    match n.nodes { None => 1, Some(b) => 6 + dw(b@[0]) + dw(b@[1]) + dw(b@[2]) + dw(b@[3]) }
}
pub open spec fn w_n(s: Seq<Nd>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dw(s[0]) + 1 + w_n(s.skip(1)) } }
pub open spec fn w_c(c: ChainD) -> int decreases c { w_d(*c.a) + w_d(*c.b) }
pub open spec fn w_x(x: DescendantIter) -> int decreases x { w_d(*x.children_iter) + w_d(*x.cur_node_iter) + w_n(x.nodes.rem()) }
pub open spec fn w_d(i: DatumIter) -> int decreases i {
    match i {
        DatumIter::Empty => 1,
        DatumIter::Slice(s) => 1,
        DatumIter::ChainSlice(s) => 1,
        DatumIter::ChainSelf(s) => 1 + w_c(s.iter),
        DatumIter::Descendant(s) => 1 + w_x(s),
    }
}
pub open spec fn ht(n: Nd) -> nat decreases n {
    match n.nodes { None => 0, Some(b) => 1 + ht(b@[0]) + ht(b@[1]) + ht(b@[2]) + ht(b@[3]) }
}
pub broadcast proof fn lemma_dw_pos(n: Nd) ensures #[trigger] dw(n) >= 1 decreases n
{ match n.nodes { None => {}, Some(b) => { lemma_dw_pos(b@[0]); lemma_dw_pos(b@[1]); lemma_dw_pos(b@[2]); lemma_dw_pos(b@[3]); } } }
pub broadcast proof fn lemma_wn_pos(s: Seq<Nd>) ensures #[trigger] w_n(s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_wn_pos(s.skip(1)); lemma_dw_pos(s[0]); } }
pub proof fn lemma_wx_pos(x: DescendantIter) ensures w_x(x) >= 2 decreases x
{ lemma_wd_pos(*x.children_iter); lemma_wd_pos(*x.cur_node_iter); lemma_wn_pos(x.nodes.rem()); }
pub proof fn lemma_wc_pos(c: ChainD) ensures w_c(c) >= 2 decreases c
{ lemma_wd_pos(*c.a); lemma_wd_pos(*c.b); }
pub broadcast proof fn lemma_wd_pos(i: DatumIter) ensures #[trigger] w_d(i) >= 1 decreases i
{ match i { DatumIter::ChainSelf(s) => lemma_wc_pos(s.iter), DatumIter::Descendant(s) => lemma_wx_pos(s), _ => {} } }
pub broadcast proof fn lemma_flat4(s: Seq<Nd>)
    requires s.len() == 4
    ensures #[trigger] flat(s) == s[0].pre() + (s[1].pre() + (s[2].pre() + s[3].pre())),
        flat(s.skip(1)) == s[1].pre() + (s[2].pre() + s[3].pre()),
        w_n(s) == 4 + dw(s[0]) + dw(s[1]) + dw(s[2]) + dw(s[3]),
        w_n(s.skip(1)) == 3 + dw(s[1]) + dw(s[2]) + dw(s[3]),
{
    let a = s.skip(1); let b = a.skip(1); let c = b.skip(1);
    assert(c.skip(1) =~= Seq::<Nd>::empty());
    assert(flat(c.skip(1)) =~= Seq::<D>::empty());
    assert(flat(c) =~= s[3].pre());
    assert(flat(b) =~= s[2].pre() + s[3].pre());
    assert(flat(a) =~= s[1].pre() + (s[2].pre() + s[3].pre()));
    assert(w_n(c.skip(1)) == 0);
    assert(w_n(c) == 1 + dw(s[3]));
    assert(w_n(b) == 2 + dw(s[2]) + dw(s[3]));
    assert(w_n(a) == 3 + dw(s[1]) + dw(s[2]) + dw(s[3]));
}
pub broadcast proof fn lemma_cat(a: Seq<D>, b: Seq<D>)
    ensures a.len() > 0 ==> (#[trigger] (a + b)).skip(1) == a.skip(1) + b && (a + b)[0] == a[0],
      a.len() == 0 ==> (a + b) == b,
{ if a.len() > 0 { assert((a + b).skip(1) =~= a.skip(1) + b); } else { assert(a + b =~= b); } }

// what one step of a descendant iterator may do (a restatement of the definitions)
pub proof fn lemma_x_step(x: DescendantIter)
    ensures ({
        let c = rem_d(*x.children_iter); let u = rem_d(*x.cur_node_iter); let n = x.nodes.rem(); let f = flat(n);
        &&& rem_x(x) == c + (u + f) && w_x(x) == w_d(*x.children_iter) + w_d(*x.cur_node_iter) + w_n(n)
        &&& c.len() > 0 ==> rem_x(x)[0] == c[0] && rem_x(x).skip(1) == c.skip(1) + (u + f) && rem_x(x).len() > 0
        &&& c.len() == 0 ==> rem_x(x) == u + f
        &&& c.len() == 0 && u.len() > 0 ==> rem_x(x)[0] == u[0] && rem_x(x).skip(1) == c + (u.skip(1) + f) && rem_x(x).len() > 0
        &&& c.len() == 0 && u.len() == 0 ==> rem_x(x) == f
        &&& c.len() == 0 && u.len() == 0 && n.len() > 0 ==> rem_x(x) == c + (n[0].pre() + flat(n.skip(1))) && w_n(n) == dw(n[0]) + 1 + w_n(n.skip(1))
        &&& c.len() == 0 && u.len() == 0 && n.len() == 0 ==> rem_x(x).len() == 0
        &&& w_d(*x.children_iter) >= 1 && w_d(*x.cur_node_iter) >= 1 && w_n(n) >= 0
        &&& n.len() > 0 ==> w_n(n.skip(1)) >= 0 && dw(n[0]) >= 1
    })
{
    let c = rem_d(*x.children_iter); let u = rem_d(*x.cur_node_iter); let n = x.nodes.rem(); let f = flat(n);
    lemma_cat(c, u + f); lemma_cat(u, f); lemma_cat(c, u.skip(1) + f);
    lemma_wd_pos(*x.children_iter); lemma_wd_pos(*x.cur_node_iter); lemma_wn_pos(n);
    if n.len() > 0 { lemma_cat(c, n[0].pre() + flat(n.skip(1))); lemma_wn_pos(n.skip(1)); lemma_dw_pos(n[0]); }
}
