//#C07 C08 C09 C10{
// ---------------------------------------------------------------- distances
// ASSUMPTION dist: what the four distance functions compute is a function of their arguments; nothing else is
// assumed about them here, except `axiom_prune` below. (The functions themselves: C11, C12, C14, C15.)
pub uninterp spec fn de(g: Shape, h: Shape) -> T;
pub uninterp spec fn dh(g: Shape, h: Shape) -> Result<T, Error>;
pub uninterp spec fn deb(b: Rect, h: Shape) -> T;
pub uninterp spec fn dhb(b: Rect, h: Shape) -> Result<T, Error>;
pub type Calc = (Shape, CalcMethod);
//@@type geom/mod.rs|GeomCalc
pub open spec fn gc(g: GeomCalc) -> Calc { (gshape(g.geom), g.method) }
// the distance of a comparator to a datum, to a cell
pub open spec fn gd(c: Calc, d: D) -> Result<T, Error> {
    match c.1 { CalcMethod::None => Err(Error::CalcMethodNotSet), CalcMethod::Euclidean => Ok(de(c.0, shape(d))), CalcMethod::Spherical => dh(c.0, shape(d)) }
}
pub open spec fn bd(c: Calc, b: Rect) -> Result<T, Error> {
    match c.1 { CalcMethod::None => Err(Error::CalcMethodNotSet), CalcMethod::Euclidean => Ok(deb(b, c.0)), CalcMethod::Spherical => dhb(b, c.0) }
}
pub open spec fn fin(x: T) -> bool { finite(x) && !nan(x) }
pub open spec fn okd(c: Calc, d: D) -> bool { gd(c, d) is Ok && fin(gd(c, d)->Ok_0) }
pub open spec fn okb0(c: Calc, b: Rect) -> bool { bd(c, b) is Ok && !nan(bv(c, b)) }
pub open spec fn okb(c: Calc, b: Rect) -> bool { bd(c, b) is Ok && fin(bd(c, b)->Ok_0) }
pub open spec fn gv(c: Calc, d: D) -> T { gd(c, d)->Ok_0 }
pub open spec fn bv(c: Calc, b: Rect) -> T { bd(c, b)->Ok_0 }
// the distance of the comparator to the rectangle is zero
pub open spec fn inside(c: Calc, b: Rect) -> bool { bd(c, b) is Ok && eqv(bv(c, b), zero()) }
// for which comparators cells may be skipped by their distance: shapes whose coordinates are numbers and that have
// places (Euclidean), points in radians (spherical, the tree's rectangle being in radians too)
pub uninterp spec fn regular(g: Shape) -> bool;
pub uninterp spec fn radpoint(g: Shape) -> bool;
pub uninterp spec fn lnglat() -> bool;
pub uninterp spec fn rpi() -> real;
pub open spec fn prunes(c: Calc) -> bool { match c.1 { CalcMethod::None => true, CalcMethod::Euclidean => regular(c.0), CalcMethod::Spherical => lnglat() && radpoint(c.0) } }
pub open spec fn radrect(b: Rect) -> bool { -rpi() <= key(b.mn.x) && key(b.mx.x) <= rpi() && -rpi() / 2real <= key(b.mn.y) && key(b.mx.y) <= rpi() / 2real }
pub open spec fn span(b: Rect) -> bool { lnglat() ==> radrect(b) }
// what lies in a rectangle is not nearer than the rectangle. Not a further assumption about the distance functions: it is
// lemma_prune of prune_e.vs and prune_s.vs, proved there from the contracts that C11-C15 establish for them
#[verifier::external_body]
pub proof fn axiom_prune(c: Calc, d: D, b: Rect)
    requires prunes(c), cont(d, b), okq0(b), span(b), okd(c, d), bd(c, b) is Ok, !nan(bv(c, b))
    ensures le(bv(c, b), gv(c, d))
{}
pub open spec fn okq0(b: Rect) -> bool { le(b.mn.x, b.mx.x) && le(b.mn.y, b.mx.y) }
// ASSUMPTION inf: infinity is a number, and no number is greater
#[verifier::external_body]
pub broadcast proof fn axiom_inf(x: T) ensures #![trigger lt(inf(), x)] !lt(inf(), x), !nan(inf()) {}
#[verifier::external_body]
pub broadcast proof fn axiom_inf_nan() ensures !nan(#[trigger] inf()) {}

// ---------------------------------------------------------------- cells
#[verifier::opaque]
pub open spec fn within(m: Multiset<D>, b: Rect) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> cont(d, b) }
pub broadcast proof fn lemma_within_ins(m: Multiset<D>, d: D, b: Rect)
    requires within(m, b), cont(d, b)
    ensures #[trigger] within(m.insert(d), b)
{ reveal(within); }
pub broadcast proof fn lemma_within_0(b: Rect)
    ensures #[trigger] within(Multiset::empty(), b)
{ reveal(within); }
pub open spec fn good(n: Nd) -> bool {
    &&& n.inv()
    &&& okr(n.bounds) && span(n.bounds) && within(n.ms(), n.bounds)      //#C07 C08 C09
}
pub open spec fn kms(n: Nd) -> Multiset<D> { match n.nodes { None => Multiset::empty(), Some(b) => b@[0].ms().add(b@[1].ms()).add(b@[2].ms()).add(b@[3].ms()) } }
pub proof fn lemma_good(n: Nd)
    requires good(n), n.nodes is Some
    ensures good(n.nodes->0@[0]), good(n.nodes->0@[1]), good(n.nodes->0@[2]), good(n.nodes->0@[3])
{
    //#C07 C08 C09{
    reveal(routed); reveal(within);
    let b = n.nodes->0@;
    lemma_tile(n.bounds, n.bounds.mn);
    assert forall|i: int, d: D| 0 <= i < 4 && #[trigger] b[i].ms().count(d) > 0 implies cont(d, b[i].bounds) by {
        assert(i == 0 || i == 1 || i == 2 || i == 3);
        assert(n.ms().count(d) > 0);
        assert(n.kid_ok(b[i], i));
        lemma_tile(n.bounds, at(d));
        assert(cont(d, n.bounds));
    }
    //#}
}
// the distances to all cells below exist
pub open spec fn cells(c: Calc, n: Nd) -> bool decreases n {
    match n.nodes { None => true, Some(b) => okb(c, b@[0].bounds) && okb(c, b@[1].bounds) && okb(c, b@[2].bounds) && okb(c, b@[3].bounds)
        && cells(c, b@[0]) && cells(c, b@[1]) && cells(c, b@[2]) && cells(c, b@[3]) }
}
// the distances to all these data exist
#[verifier::opaque]
pub open spec fn data(c: Calc, m: Multiset<D>) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> okd(c, d) }
pub proof fn lemma_data_1(c: Calc, all: Multiset<D>, d: D) requires data(c, all), all.count(d) > 0 ensures okd(c, d) { reveal(data); }
pub open spec fn exist(c: Calc, n: Nd) -> bool { cells(c, n) && data(c, n.ms()) }
pub open spec fn exist2(c: Calc, n: Nd) -> bool { exist(c, n) && boxes(c, n.ms()) }
pub broadcast proof fn lemma_add_empty(m: Multiset<D>) ensures #[trigger] m.add(Multiset::empty()) == m
{ assert(m.add(Multiset::empty()) =~= m); }
pub broadcast proof fn lemma_empty_add(m: Multiset<D>) ensures #[trigger] Multiset::empty().add(m) == m
{ assert(Multiset::empty().add(m) =~= m); }
pub open spec fn subms(a: Multiset<D>, m: Multiset<D>) -> bool { forall|d: D| #[trigger] a.count(d) <= m.count(d) }
// every datum of m is at least / more than x away
#[verifier::opaque]
pub open spec fn atleast(c: Calc, m: Multiset<D>, x: T) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> le(x, gv(c, d)) }
#[verifier::opaque]
pub open spec fn beyond(c: Calc, m: Multiset<D>, x: T) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> lt(x, gv(c, d)) }
//#C07 C08 C09{
pub proof fn lemma_cell_far(c: Calc, n: Nd, x: T)
    requires good(n), prunes(c), data(c, n.ms()), bd(c, n.bounds) is Ok
    ensures lt(x, bv(c, n.bounds)) ==> beyond(c, n.ms(), x), le(x, bv(c, n.bounds)) ==> atleast(c, n.ms(), x)
{
    reveal(data); reveal(beyond); reveal(atleast); reveal(within);
    if lt(x, bv(c, n.bounds)) || le(x, bv(c, n.bounds)) {
        assert forall|d: D| #[trigger] n.ms().count(d) > 0 implies le(bv(c, n.bounds), gv(c, d)) by { axiom_prune(c, d, n.bounds); }
    }
}
//#}
// ---------------------------------------------------------------- rows of cells
pub open spec fn nms(s: Seq<Nd>) -> Multiset<D> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { s[0].ms().add(nms(s.skip(1))) } }
pub open spec fn nwt(s: Seq<Nd>) -> int decreases s.len() { if s.len() == 0 { 0 } else { wt(s[0]) + nwt(s.skip(1)) } }
// a ghost weight: expanding a cell lowers the sum (termination)
pub open spec fn wt(n: Nd) -> int decreases n {
    1 + n.own().len() + match n.nodes { None => 0, Some(b) => wt(b@[0]) + wt(b@[1]) + wt(b@[2]) + wt(b@[3]) }
}
pub open spec fn kwt(n: Nd) -> int { match n.nodes { None => 0, Some(b) => wt(b@[0]) + wt(b@[1]) + wt(b@[2]) + wt(b@[3]) } }
pub proof fn lemma_row4(s: Seq<Nd>)
    requires s.len() == 4
    ensures nms(s) =~= s[0].ms().add(s[1].ms()).add(s[2].ms()).add(s[3].ms()), nwt(s) == wt(s[0]) + wt(s[1]) + wt(s[2]) + wt(s[3])
{
    let a = s.skip(1); let b = a.skip(1); let c = b.skip(1); let d = c.skip(1);
    assert(d =~= Seq::<Nd>::empty());
    assert(nms(d) =~= Multiset::empty());
    assert(nms(c) =~= s[3].ms()); assert(nms(b) =~= s[2].ms().add(s[3].ms())); assert(nms(a) =~= s[1].ms().add(s[2].ms().add(s[3].ms())));
    assert(nwt(d) == 0);
    assert(nwt(c) == wt(s[3])); assert(nwt(b) == wt(s[2]) + wt(s[3]));  assert(nwt(a) == wt(s[1]) + wt(s[2]) + wt(s[3]));
}
pub broadcast proof fn lemma_wt_pos(n: Nd) ensures #[trigger] wt(n) >= 1 decreases n
{ match n.nodes { None => {}, Some(b) => { lemma_wt_pos(b@[0]); lemma_wt_pos(b@[1]); lemma_wt_pos(b@[2]); lemma_wt_pos(b@[3]); } } }
pub broadcast proof fn lemma_nwt_pos(s: Seq<Nd>) ensures #[trigger] nwt(s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_nwt_pos(s.skip(1)); lemma_wt_pos(s[0]); } }
// a row of cells
#[verifier::opaque]
pub open spec fn rowgood(s: Seq<Nd>) -> bool { forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn rowcells(c: Calc, s: Seq<Nd>) -> bool { forall|i: int| 0 <= i < s.len() ==> okb(c, (#[trigger] s[i]).bounds) && cells(c, s[i]) }
pub proof fn lemma_row(c: Calc, s: Seq<Nd>)
    ensures s.len() > 0 ==> nms(s) == s[0].ms().add(nms(s.skip(1))) && nwt(s) == wt(s[0]) + nwt(s.skip(1)),
        s.len() == 0 ==> nms(s) == Multiset::<D>::empty() && nwt(s) == 0,
        s.len() > 0 && rowgood(s) ==> good(s[0]) && rowgood(s.skip(1)),
        s.len() > 0 && rowcells(c, s) ==> okb(c, s[0].bounds) && cells(c, s[0]) && rowcells(c, s.skip(1)),
{ reveal(rowgood); reveal(rowcells); }
// what is known of a cell that is about to be expanded
pub open spec fn facts(c: Calc, n: Nd) -> bool {
    &&& n.ms() == kms(n).add(n.own().to_multiset()) && wt(n) == 1 + n.own().len() + kwt(n) && kwt(n) >= 0
    &&& n.nodes is None ==> kms(n) == Multiset::<D>::empty() && kwt(n) == 0
    &&& n.nodes is Some ==> rowgood(n.nodes->0@) && nms(n.nodes->0@) == kms(n) && nwt(n.nodes->0@) == kwt(n) && (cells(c, n) ==> rowcells(c, n.nodes->0@))
    // and the same the other way round
    &&& n.nodes is Some ==> rowgood(n.nodes->0@.reverse()) && nms(n.nodes->0@.reverse()) == kms(n) && nwt(n.nodes->0@.reverse()) == kwt(n) && (cells(c, n) ==> rowcells(c, n.nodes->0@.reverse()))
}
pub proof fn lemma_facts(c: Calc, n: Nd)
    requires good(n)
    ensures facts(c, n)
{
    reveal(rowgood); reveal(rowcells);
    lemma_ms(n);
    assert(n.ms() =~= kms(n).add(n.own().to_multiset()));
    if n.nodes is Some {
        lemma_good(n); lemma_row4(n.nodes->0@); lemma_nwt_pos(n.nodes->0@);
        let b = n.nodes->0@;
        assert forall|i: int| 0 <= i < 4 implies good(#[trigger] b[i]) && (cells(c, n) ==> okb(c, b[i].bounds) && cells(c, b[i])) by { assert(i == 0 || i == 1 || i == 2 || i == 3); }
        assert(nms(b) =~= kms(n));
        let e = b.reverse();
        lemma_row4(e);
        assert(e[0] == b[3] && e[1] == b[2] && e[2] == b[1] && e[3] == b[0]);
        assert forall|i: int| 0 <= i < 4 implies good(#[trigger] e[i]) && (cells(c, n) ==> okb(c, e[i].bounds) && cells(c, e[i])) by { assert(i == 0 || i == 1 || i == 2 || i == 3); }
        assert(nms(e) =~= kms(n));
    }
}
//#}
//#C07 C10{
// ---------------------------------------------------------------- find: a stack of cells
pub open spec fn sms(s: Seq<&Nd>) -> Multiset<D> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { sms(s.drop_last()).add(s.last().ms()) } }
pub open spec fn swt(s: Seq<&Nd>) -> int decreases s.len() { if s.len() == 0 { 0 } else { swt(s.drop_last()) + wt(*s.last()) } }
pub broadcast proof fn lemma_sms_push(s: Seq<&Nd>, n: &Nd)
    ensures #[trigger] sms(s.push(n)) == sms(s).add(n.ms()), swt(s.push(n)) == swt(s) + wt(*n)
{ assert(s.push(n).drop_last() =~= s); }
pub broadcast proof fn lemma_swt_pos(s: Seq<&Nd>) ensures #[trigger] swt(s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_swt_pos(s.drop_last()); lemma_wt_pos(*s.last()); } }
#[verifier::opaque]
pub open spec fn sgood(s: Seq<&Nd>) -> bool { forall|i: int| 0 <= i < s.len() ==> good(*#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn scells(c: Calc, s: Seq<&Nd>) -> bool { forall|i: int| 0 <= i < s.len() ==> okb0(c, (#[trigger] s[i]).bounds) && cells(c, *s[i]) }
pub broadcast proof fn lemma_sgood_push(s: Seq<&Nd>, n: &Nd)
    requires s.len() == 0 || sgood(s), good(*n)
    ensures #[trigger] sgood(s.push(n))
{ reveal(sgood); }
pub broadcast proof fn lemma_scells_push(c: Calc, s: Seq<&Nd>, n: &Nd)
    requires s.len() == 0 || scells(c, s), okb0(c, n.bounds), cells(c, *n)
    ensures #[trigger] scells(c, s.push(n))
{ reveal(scells); }
pub proof fn lemma_s_pop(c: Calc, s: Seq<&Nd>)
    requires s.len() > 0
    ensures sms(s) == sms(s.drop_last()).add(s.last().ms()), swt(s) == swt(s.drop_last()) + wt(*s.last()),
        sgood(s) ==> sgood(s.drop_last()) && good(*s.last()),
        scells(c, s) ==> scells(c, s.drop_last()) && okb0(c, s.last().bounds) && cells(c, *s.last()),
{ reveal(sgood); reveal(scells); }
// every datum of the tree is still to be looked at, or it cannot improve on what was found
#[verifier::opaque]
pub open spec fn settled(c: Calc, all: Multiset<D>, todo: Multiset<D>, found: bool, x: T) -> bool {
    forall|d: D| #[trigger] all.count(d) > 0 ==> todo.count(d) > 0 || (if found { le(x, gv(c, d)) } else { lt(x, gv(c, d)) })
}
// what was found, and the radius that is left
pub open spec fn held<X: Found>(c: Calc, all: Multiset<D>, it: X, x: T, r: T) -> bool {
    if found(it) { all.count(it.itm()) > 0 && gd(c, it.itm()) == Ok::<T, Error>(x) && le(x, r) } else { x == r && unfound(it) }
}
// a nearest datum so far: a `Result`, or an `Option`
pub trait Found: Sized {
    spec fn fnd(self) -> bool;
    spec fn itm(self) -> D;
    spec fn unf(self) -> bool;
}
impl<'a> Found for Result<&'a D, Error> {
    open spec fn fnd(self) -> bool { self is Ok }
    open spec fn itm(self) -> D { *self->Ok_0 }
    open spec fn unf(self) -> bool { self->Err_0 is NoneInRadius }
}
impl<'a> Found for Option<&'a D> {
    open spec fn fnd(self) -> bool { self is Some }
    open spec fn itm(self) -> D { *self->0 }
    open spec fn unf(self) -> bool { true }
}
pub open spec fn found<X: Found>(it: X) -> bool { it.fnd() }
pub open spec fn unfound<X: Found>(it: X) -> bool { !it.fnd() ==> it.unf() }
//#C07{
pub proof fn lemma_settle_cell(c: Calc, all: Multiset<D>, rest: Multiset<D>, n: Nd, f: bool, x: T)
    requires good(n), prunes(c), data(c, all), subms(n.ms(), all), bd(c, n.bounds) is Ok, lt(x, bv(c, n.bounds)), settled(c, all, rest.add(n.ms()), f, x)
    ensures settled(c, all, rest, f, x)
{
    reveal(data); reveal(settled); reveal(beyond);
    assert(data(c, n.ms()));
    lemma_cell_far(c, n, x);
    assert forall|d: D| #[trigger] all.count(d) > 0 implies rest.count(d) > 0 || (if f { le(x, gv(c, d)) } else { lt(x, gv(c, d)) }) by {
        if rest.count(d) == 0 && n.ms().count(d) > 0 { }
    }
}
//#}
pub broadcast proof fn lemma_settled_0(c: Calc, all: Multiset<D>, f: bool, x: T) ensures #[trigger] settled(c, all, all, f, x) { reveal(settled); }
// looking at one datum
pub proof fn lemma_settle_datum(c: Calc, all: Multiset<D>, base: Multiset<D>, s: Seq<D>, f: bool, x: T)
    requires s.len() > 0, settled(c, all, base.add(s.to_multiset()), f, x)
    ensures
        okd(c, s[0]) && le(gv(c, s[0]), x) ==> settled(c, all, base.add(s.skip(1).to_multiset()), true, gv(c, s[0])),
        lt(x, gv(c, s[0])) ==> settled(c, all, base.add(s.skip(1).to_multiset()), f, x),
{
    reveal(settled);
    lemma_skip1(s);
    let t = s.skip(1).to_multiset(); let m = s.to_multiset();
    assert forall|d: D| #[trigger] all.count(d) > 0 implies base.add(t).count(d) > 0 || d == s[0] || (if f { le(x, gv(c, d)) } else { lt(x, gv(c, d)) }) by {
        assert(base.add(m).count(d) > 0 || (if f { le(x, gv(c, d)) } else { lt(x, gv(c, d)) }));
    }
}
pub proof fn lemma_settled_end<X: Found>(c: Calc, all: Multiset<D>, it: X, x: T, r: T)
    requires settled(c, all, Multiset::empty(), found(it), x), held(c, all, it, x, r)
    ensures found(it) ==> atleast(c, all, x), !found(it) ==> beyond(c, all, r)
{ reveal(settled); reveal(atleast); reveal(beyond); }
pub proof fn lemma_data_at(c: Calc, all: Multiset<D>, m: Multiset<D>, d: D)
    requires data(c, all), subms(m, all), m.count(d) > 0
    ensures okd(c, d), all.count(d) > 0
{ reveal(data); assert(m.count(d) <= all.count(d)); }
// contents of the first j quadrants
pub open spec fn kpart(n: Nd, j: int) -> Multiset<D> {
    let e = Multiset::<D>::empty();
    let b = n.nodes->0@;
    let a1 = if j > 0 { b[0].ms() } else { e };
    let a2 = if j > 1 { a1.add(b[1].ms()) } else { a1 };
    let a3 = if j > 2 { a2.add(b[2].ms()) } else { a2 };
    if j > 3 { a3.add(b[3].ms()) } else { a3 }
}
pub open spec fn kpwt(n: Nd, j: int) -> int {
    let b = n.nodes->0@;
    (if j > 0 { wt(b[0]) } else { 0 }) + (if j > 1 { wt(b[1]) } else { 0 }) + (if j > 2 { wt(b[2]) } else { 0 }) + (if j > 3 { wt(b[3]) } else { 0 })
}
pub proof fn lemma_subms_parts(m: Multiset<D>, a: Multiset<D>, b: Multiset<D>, all: Multiset<D>)
    requires m == a.add(b), subms(m, all)
    ensures subms(a, all), subms(b, all)
{ assert forall|d: D| #[trigger] a.count(d) <= all.count(d) by { assert(m.count(d) <= all.count(d)); }
  assert forall|d: D| #[trigger] b.count(d) <= all.count(d) by { assert(m.count(d) <= all.count(d)); } }
pub proof fn lemma_subms_skip(base: Multiset<D>, s: Seq<D>, all: Multiset<D>)
    requires s.len() > 0, subms(base.add(s.to_multiset()), all)
    ensures subms(base.add(s.skip(1).to_multiset()), all)
{ lemma_skip1(s);
  assert forall|d: D| #[trigger] base.add(s.skip(1).to_multiset()).count(d) <= all.count(d) by { assert(base.add(s.to_multiset()).count(d) <= all.count(d)); } }
// the errors that come before any search
pub open spec fn find_pre(c: Calc, t: Tree, ret: Result<(&D, T), Error>) -> bool {
    &&& c.1 is None ==> ret is Err && ret->Err_0 is CalcMethodNotSet
    &&& bd(c, t.root.bounds) is Err ==> ret == Err::<(&D, T), Error>(bd(c, t.root.bounds)->Err_0)
    &&& bd(c, t.root.bounds) is Ok && !eqv(bv(c, t.root.bounds), zero()) ==> ret is Err && ret->Err_0 is OutOfBounds
    &&& bd(c, t.root.bounds) is Ok && eqv(bv(c, t.root.bounds), zero()) && t.root.ms().len() == 0 ==> ret is Err && ret->Err_0 is Empty
}
// the comparator is in bounds, the tree is not empty
pub open spec fn find_ok(c: Calc, t: Tree) -> bool { bd(c, t.root.bounds) is Ok && eqv(bv(c, t.root.bounds), zero()) && t.root.ms().len() > 0 }
// what find_r promises
pub open spec fn find_post(c: Calc, all: Multiset<D>, r: T, ret: Result<(&D, T), Error>) -> bool {
    match ret {
        Ok(p) => all.count(*p.0) > 0 && gd(c, *p.0) == Ok::<T, Error>(p.1) && le(p.1, r) && atleast(c, all, p.1),
        Err(e) => e is NoneInRadius && beyond(c, all, r),
    }
}
//#}
//#C08 C09 C10{
// ---------------------------------------------------------------- knn, sorted: a stack of cells and data with their distances
//@@type node.rs|NodeType
pub type Ent<'a> = (NodeType<'a>, T);
pub open spec fn ems(e: Ent) -> Multiset<D> { match e.0 { NodeType::Node(n) => n.ms(), NodeType::Child(d) => Multiset::singleton(*d), _ => Multiset::empty() } }
pub open spec fn ewt(e: Ent) -> int { match e.0 { NodeType::Node(n) => wt(*n), _ => 1 } }
pub open spec fn cms(s: Seq<Ent>) -> Multiset<D> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { cms(s.drop_last()).add(ems(s.last())) } }
pub open spec fn cwt(s: Seq<Ent>) -> int decreases s.len() { if s.len() == 0 { 0 } else { cwt(s.drop_last()) + ewt(s.last()) } }
pub open spec fn egood(c: Calc, e: Ent) -> bool {
    match e.0 {
        NodeType::Node(n) => good(*n) && bd(c, n.bounds) == Ok::<T, Error>(e.1) && !nan(e.1),
        NodeType::Child(d) => gd(c, *d) == Ok::<T, Error>(e.1) && fin(e.1),
        _ => false,
    }
}
pub open spec fn ecells(c: Calc, e: Ent) -> bool { match e.0 { NodeType::Node(n) => cells(c, *n), _ => true } }
#[verifier::opaque]
pub open spec fn cgood(c: Calc, s: Seq<Ent>) -> bool { forall|i: int| 0 <= i < s.len() ==> egood(c, #[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn ccells(c: Calc, s: Seq<Ent>) -> bool { forall|i: int| 0 <= i < s.len() ==> ecells(c, #[trigger] s[i]) }
// farthest first
pub open spec fn desc(s: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le((#[trigger] s[j]).1, (#[trigger] s[i]).1) }
pub broadcast proof fn lemma_c_push(s: Seq<Ent>, e: Ent)
    ensures #[trigger] cms(s.push(e)) == cms(s).add(ems(e)), cwt(s.push(e)) == cwt(s) + ewt(e)
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_cwt_push(s: Seq<Ent>, e: Ent)
    ensures #[trigger] cwt(s.push(e)) == cwt(s) + ewt(e)
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_cwt_pos(s: Seq<Ent>) ensures #[trigger] cwt(s) >= 0, s.len() > 0 ==> cwt(s) > 0, s.len() == 0 ==> cwt(s) == 0 decreases s.len()
{ if s.len() > 0 { lemma_cwt_pos(s.drop_last()); if let NodeType::Node(n) = s.last().0 { lemma_wt_pos(*n); } } }
pub broadcast proof fn lemma_cgood_push(c: Calc, s: Seq<Ent>, e: Ent)
    requires s.len() == 0 || cgood(c, s), egood(c, e)
    ensures #[trigger] cgood(c, s.push(e))
{ reveal(cgood); }
pub broadcast proof fn lemma_ccells_push(c: Calc, s: Seq<Ent>, e: Ent)
    requires s.len() == 0 || ccells(c, s), ecells(c, e)
    ensures #[trigger] ccells(c, s.push(e))
{ reveal(ccells); }
pub proof fn lemma_c_remove(s: Seq<Ent>, i: int)
    requires 0 <= i < s.len()
    ensures cms(s) =~= cms(s.remove(i)).add(ems(s[i])), cwt(s) == cwt(s.remove(i)) + ewt(s[i])
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else {
        lemma_c_remove(s.drop_last(), i);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
// the order of a stack does not matter for what it holds
pub proof fn lemma_perm(s: Seq<Ent>, t: Seq<Ent>)
    requires s.to_multiset() == t.to_multiset()
    ensures cms(s) =~= cms(t), cwt(s) == cwt(t), s.len() == t.len()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.to_multiset().contains(x)) by { assert(s.contains(x)); }
        assert(t.contains(x));
        let i = t.index_of(x);
        lemma_c_remove(t, i);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        lemma_perm(s.drop_last(), t.remove(i));
    }
}
pub proof fn lemma_perm_good(c: Calc, s: Seq<Ent>, t: Seq<Ent>)
    requires s.to_multiset() == t.to_multiset()
    ensures cgood(c, s) ==> cgood(c, t), ccells(c, s) ==> ccells(c, t)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(cgood); reveal(ccells);
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.to_multiset().contains(t[i])); assert(s.to_multiset().contains(t[i])); }
}
pub proof fn lemma_c_pop(c: Calc, s: Seq<Ent>)
    requires s.len() > 0
    ensures cms(s) == cms(s.drop_last()).add(ems(s.last())), cwt(s) == cwt(s.drop_last()) + ewt(s.last()),
        cgood(c, s) ==> cgood(c, s.drop_last()) && egood(c, s.last()),
        ccells(c, s) ==> ccells(c, s.drop_last()) && ecells(c, s.last()),
        desc(s) ==> desc(s.drop_last()),
{ reveal(cgood); reveal(ccells); }
#[verifier::opaque]
pub open spec fn sorted_of(s: Seq<Ent>, t: Seq<Ent>) -> bool { s.to_multiset() == t.to_multiset() }
pub broadcast proof fn lemma_sorted_of(s: Seq<Ent>, t: Seq<Ent>)
    requires #[trigger] sorted_of(s, t)
    ensures cwt(t) == cwt(s), t.len() == s.len()
{ reveal(sorted_of); lemma_perm(s, t); }
//#}
//#C08 C09{
// the data on a sorted stack are not nearer than its top
pub proof fn lemma_top(c: Calc, s: Seq<Ent>, x: T)
    requires cgood(c, s), prunes(c), data(c, cms(s)), forall|i: int| 0 <= i < s.len() ==> le(x, (#[trigger] s[i]).1)
    ensures atleast(c, cms(s), x)
    decreases s.len()
{
    reveal(atleast); reveal(data);
    if s.len() > 0 {
        lemma_c_pop(c, s);
        let m = cms(s.drop_last());
        assert forall|d: D| #[trigger] m.count(d) > 0 implies okd(c, d) by { assert(cms(s).count(d) > 0); }
        lemma_top(c, s.drop_last(), x);
        assert(le(x, s[s.len() - 1].1));
        if let NodeType::Node(n) = s.last().0 {
            assert forall|d: D| #[trigger] n.ms().count(d) > 0 implies okd(c, d) by { assert(cms(s).count(d) > 0); }
            lemma_cell_far(c, *n, x);
        }
        assert forall|d: D| #[trigger] cms(s).count(d) > 0 implies le(x, gv(c, d)) by {
            if m.count(d) == 0 { assert(ems(s.last()).count(d) > 0); }
        }
    }
}
pub proof fn lemma_beyond(c: Calc, m: Multiset<D>, x: T, r: T)
    requires atleast(c, m, x), lt(r, x)
    ensures beyond(c, m, r)
{ reveal(atleast); reveal(beyond); }
//#}
//#C08 C10{
// ---------------------------------------------------------------- results of knn
pub type Res<'a> = (&'a D, T);
pub open spec fn rms(s: Seq<Res>) -> Multiset<D> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { rms(s.drop_last()).insert(*s.last().0) } }
// each result comes with its distance, at most r
#[verifier::opaque]
pub open spec fn rgood(c: Calc, all: Multiset<D>, r: T, s: Seq<Res>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> {
        &&& all.count(*(#[trigger] s[i]).0) > 0
        &&& gd(c, *s[i].0) == Ok::<T, Error>(s[i].1)      //#C08
        &&& fin(s[i].1)
        &&& !nan(r) ==> le(s[i].1, r)                     //#C08
    }
}
pub open spec fn asc(s: Seq<Res>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le((#[trigger] s[i]).1, (#[trigger] s[j]).1) }
// no datum of m is nearer than a result
#[verifier::opaque]
pub open spec fn floor(c: Calc, s: Seq<Res>, m: Multiset<D>) -> bool { forall|i: int, d: D| 0 <= i < s.len() && #[trigger] m.count(d) > 0 ==> le((#[trigger] s[i]).1, gv(c, d)) }
// what knn_r promises
pub open spec fn knn_post(c: Calc, all: Multiset<D>, k: int, r: T, s: Seq<Res>) -> bool {
    &&& subms(rms(s), all) && s.len() <= k && rgood(c, all, r, s) && asc(s)
    &&& if s.len() == k { floor(c, s, all.sub(rms(s))) } else { beyond(c, all.sub(rms(s)), r) }
}
pub open spec fn allfin(s: Seq<Res>) -> bool { forall|i: int| 0 <= i < s.len() ==> fin((#[trigger] s[i]).1) }
// a short list under a radius that excludes nothing leaves no datum out
pub open spec fn knn_all(all: Multiset<D>, k: int, r: T, ret: Result<Vec<Res>, Error>) -> bool {
    ret is Ok && ret->Ok_0@.len() < k && (forall|x: T| !#[trigger] lt(r, x)) ==> rms(ret->Ok_0@) == all
}
pub broadcast proof fn lemma_allfin(c: Calc, all: Multiset<D>, r: T, s: Seq<Res>)
    requires #[trigger] rgood(c, all, r, s)
    ensures allfin(s)
{ reveal(rgood); }
pub open spec fn knn_pre(c: Calc, b: Rect, all: Multiset<D>, ret: Result<Vec<Res>, Error>) -> bool {
    &&& c.1 is None ==> ret is Err && ret->Err_0 is CalcMethodNotSet
    &&& bd(c, b) is Err ==> ret is Err && ret->Err_0 == bd(c, b)->Err_0
    &&& bd(c, b) is Ok && !eqv(bv(c, b), zero()) ==> ret is Err && ret->Err_0 is OutOfBounds
    &&& bd(c, b) is Ok && eqv(bv(c, b), zero()) && all.len() == 0 ==> ret is Ok && ret->Ok_0@.len() == 0
    &&& ret is Ok ==> allfin(ret->Ok_0@)
}
pub proof fn lemma_rest(all: Multiset<D>, a: Multiset<D>, b: Multiset<D>)
    requires all == a.add(b)
    ensures all.sub(a) == b, subms(a, all), subms(b, all)
{
    assert(all.sub(a) =~= b);
}
pub proof fn lemma_knn_0(c: Calc, all: Multiset<D>, r: T)
    ensures rgood(c, all, r, Seq::<Res>::empty()),
       forall|m: Multiset<D>| floor(c, Seq::<Res>::empty(), m)
{ reveal(rgood); reveal(floor); }
pub proof fn lemma_empty(c: Calc, n: Nd, all: Multiset<D>, r: T)
    requires n.ms().len() == 0, n.full(), all == n.ms()
    ensures exist(c, n), forall|s: Seq<Res>| #[trigger] rgood(c, all, r, s) ==> s.len() == 0
{
    reveal(data); reveal(rgood);
    assert forall|d: D| n.ms().count(d) == 0 by { if n.ms().count(d) > 0 { assert(n.ms().len() == n.ms().remove(d).len() + 1); } }
    assert forall|s: Seq<Res>| #[trigger] rgood(c, all, r, s) implies s.len() == 0 by { if s.len() > 0 { let z = s[0]; assert(all.count(*z.0) > 0); } }
}
pub proof fn lemma_rms_push(s: Seq<Res>, x: Res) ensures rms(s.push(x)) == rms(s).insert(*x.0)
{ assert(s.push(x).drop_last() =~= s); }
// the state of a search: what is on the stack, what was found, and what is about to be pushed make up the tree
#[verifier::opaque]
pub open spec fn kst(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent>, res: Seq<Res>, extra: Multiset<D>) -> bool {
    &&& cgood(c, s) && (ex ==> ccells(c, s))
    &&& all == rms(res).add(cms(s)).add(extra)
    &&& rgood(c, all, r, res) && res.len() < k
    &&& dt ==> asc(res) && floor(c, res, all.sub(rms(res)))      //#C08
}
pub proof fn lemma_kst_0<'a>(c: Calc, k: int, r: T, ex: bool, dt: bool, n: &'a Nd)
    requires good(*n), bd(c, n.bounds) is Ok, !nan(bv(c, n.bounds)), ex ==> cells(c, *n), k > 0
    ensures kst(c, n.ms(), k, r, ex, dt, Seq::<Ent<'a>>::empty().push((NodeType::Node(n), bv(c, n.bounds))), Seq::<Res<'a>>::empty(), Multiset::empty())
{
    reveal(kst); reveal(cgood); reveal(ccells);
    lemma_knn_0(c, n.ms(), r);
    let s = Seq::<Ent<'a>>::empty().push((NodeType::Node(n), bv(c, n.bounds)));
    lemma_c_push(Seq::<Ent<'a>>::empty(), s.last());
    assert(n.ms() =~= rms(Seq::<Res<'a>>::empty()).add(cms(s)).add(Multiset::empty()));
}
pub proof fn lemma_kst_num(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent>, res: Seq<Res>, extra: Multiset<D>)
    requires kst(c, all, k, r, ex, dt, s, res, extra)
    ensures res.len() < k, forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).1)
{ reveal(kst); reveal(cgood); assert forall|i: int| 0 <= i < s.len() implies !nan((#[trigger] s[i]).1) by { assert(egood(c, s[i])); } }
pub broadcast proof fn lemma_kst_sort(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent>, t: Seq<Ent>, res: Seq<Res>, extra: Multiset<D>)
    requires kst(c, all, k, r, ex, dt, s, res, extra), #[trigger] sorted_of(s, t)
    ensures #[trigger] kst(c, all, k, r, ex, dt, t, res, extra)
{ reveal(kst); reveal(sorted_of); lemma_perm(s, t); lemma_perm_good(c, s, t); }
// the next datum of a cell
pub proof fn lemma_kst_child<'a>(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent<'a>>, res: Seq<Res<'a>>, base: Multiset<D>, q: Seq<D>)
    requires kst(c, all, k, r, ex, dt, s, res, base.add(q.to_multiset())), ex ==> data(c, all)
    ensures
        q.len() == 0 ==> kst(c, all, k, r, ex, dt, s, res, base),
        q.len() > 0 ==> {
            &&& ex ==> okd(c, q[0])
            &&& okd(c, q[0]) ==> kst(c, all, k, r, ex, dt, s.push((NodeType::Child(&q[0]), gv(c, q[0]))), res, base.add(q.skip(1).to_multiset()))
            &&& cwt(s.push((NodeType::Child(&q[0]), gv(c, q[0])))) == cwt(s) + 1
        },
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(kst);
    if q.len() == 0 { assert(base.add(q.to_multiset()) =~= base); }
    else {
        let e: Ent<'a> = (NodeType::Child(&q[0]), gv(c, q[0]));
        lemma_skip1(q);
        lemma_c_push(s, e);
        assert(all =~= rms(res).add(cms(s.push(e))).add(base.add(q.skip(1).to_multiset())));
        assert(all.count(q[0]) > 0);
        if ex { lemma_data_1(c, all, q[0]); }
        if okd(c, q[0]) { lemma_cgood_push(c, s, e); if ex { lemma_ccells_push(c, s, e); } }
    }
}
// the next quadrant of a cell
pub proof fn lemma_kst_cell<'a>(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent<'a>>, res: Seq<Res<'a>>, q: Seq<Nd>)
    requires kst(c, all, k, r, ex, dt, s, res, nms(q)), rowgood(q), ex ==> rowcells(c, q)
    ensures
        q.len() == 0 ==> kst(c, all, k, r, ex, dt, s, res, Multiset::empty()) && nwt(q) == 0,
        q.len() > 0 ==> {
            let e: Ent<'a> = (NodeType::Node(&q[0]), bv(c, q[0].bounds));
            &&& ex ==> okb(c, q[0].bounds)
            &&& okb(c, q[0].bounds) ==> kst(c, all, k, r, ex, dt, s.push(e), res, nms(q.skip(1)))
            &&& rowgood(q.skip(1)) && (ex ==> rowcells(c, q.skip(1)))
            &&& cwt(s.push(e)) + nwt(q.skip(1)) == cwt(s) + nwt(q)
        },
{
    reveal(kst);
    lemma_row(c, q);
    if q.len() > 0 {
        let e: Ent<'a> = (NodeType::Node(&q[0]), bv(c, q[0].bounds));
        lemma_c_push(s, e);
        assert(all =~= rms(res).add(cms(s.push(e))).add(nms(q.skip(1))));
        if okb(c, q[0].bounds) { lemma_cgood_push(c, s, e); if ex { lemma_ccells_push(c, s, e); } }
    }
}
// the top of the stack is a cell that is about to be expanded
pub open spec fn at_node(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent>, res: Seq<Res>) -> bool {
    s.len() > 0 ==> match s.last().0 {
        NodeType::Node(n) => {
            &&& facts(c, *n) && (ex ==> cells(c, *n))
            &&& kst(c, all, k, r, ex, dt, s.drop_last(), res, kms(*n).add(n.own().to_multiset()))
            &&& cwt(s) == cwt(s.drop_last()) + 1 + n.own().len() + kwt(*n)
        },
        _ => false,
    }
}
// a search with nothing left on its stack
pub broadcast proof fn lemma_kst_done(c: Calc, all: Multiset<D>, k: int, r: T, ex: bool, dt: bool, s: Seq<Ent>, res: Seq<Res>)
    requires #[trigger] kst(c, all, k, r, ex, dt, s, res, Multiset::empty()), s.len() == 0
    ensures rgood(c, all, r, res), rms(res) == all,
        dt ==> knn_post(c, all, k, r, res),     //#C08
{
    reveal(kst); reveal(beyond);
    assert(rms(res).add(cms(s)).add(Multiset::empty()) =~= rms(res).add(cms(s)));
    lemma_rest(all, rms(res), cms(s));
    assert(rms(res) =~= all);
}
// one step of the inner loop of knn: what holds if the top of the stack is taken or left
pub proof fn lemma_knn_step<'a>(c: Calc, all: Multiset<D>, k: int, r: T, s: Seq<Ent<'a>>, res: Seq<Res<'a>>, ex: bool, dt: bool)
    requires kst(c, all, k, r, ex, dt, s, res, Multiset::empty()), desc(s),
       dt ==> data(c, all) && prunes(c),
    ensures
        rgood(c, all, r, res), s.len() == 0 ==> rms(res) == all,
        s.len() > 0 ==> match s.last().0 {
            NodeType::Child(d) => {
                let t = res.push((d, s.last().1));
                &&& cwt(s) == cwt(s.drop_last()) + 1 && desc(s.drop_last())
                &&& !lt(r, s.last().1) ==> rgood(c, all, r, t)
                &&& !lt(r, s.last().1) && t.len() < k ==> kst(c, all, k, r, ex, dt, s.drop_last(), t, Multiset::empty())
                &&& dt && !lt(r, s.last().1) && t.len() >= k ==> knn_post(c, all, k, r, t)     //#C08
            },
            NodeType::Node(n) => at_node(c, all, k, r, ex, dt, s, res),
            _ => false,
        },
        dt && (s.len() == 0 || lt(r, s.last().1)) ==> knn_post(c, all, k, r, res),     //#C08
{
    reveal(kst);
    assert(rms(res).add(cms(s)).add(Multiset::empty()) =~= rms(res).add(cms(s)));
    lemma_rest(all, rms(res), cms(s));
    if s.len() == 0 { assert(rms(res) =~= all); }
    //#C08{
    if dt {
        reveal(data);
        assert forall|d: D| #[trigger] cms(s).count(d) > 0 implies okd(c, d) by { assert(all.count(d) > 0); }
        if s.len() > 0 { reveal(cgood); assert(egood(c, s[s.len() - 1])); lemma_top(c, s, s.last().1); if lt(r, s.last().1) { lemma_beyond(c, cms(s), s.last().1, r); } }
        else { reveal(beyond); }
    }
    //#}
    if s.len() > 0 {
        lemma_c_pop(c, s);
        match s.last().0 {
            NodeType::Child(d) => {
                let t = res.push((d, s.last().1));
                lemma_rms_push(res, (d, s.last().1));
                assert(all =~= rms(t).add(cms(s.drop_last())));
                assert(all =~= rms(t).add(cms(s.drop_last())).add(Multiset::empty()));
                assert(cms(s).count(*d) > 0);
                assert(all.count(*d) > 0);
                if !lt(r, s.last().1) { reveal(rgood); }
                lemma_rest(all, rms(t), cms(s.drop_last()));
                //#C08{
                if dt {
                    reveal(floor); reveal(atleast);
                    assert forall|i: int, e: D| 0 <= i < t.len() && #[trigger] cms(s.drop_last()).count(e) > 0 implies le((#[trigger] t[i]).1, gv(c, e)) by {
                        assert(cms(s).count(e) > 0);
                        if i < res.len() { assert(t[i] == res[i]); }
                    }
                    assert forall|i: int, j: int| 0 <= i < j < t.len() implies le((#[trigger] t[i]).1, (#[trigger] t[j]).1) by {
                        assert(t[i] == res[i]);
                        if j < res.len() { assert(t[j] == res[j]); } else { assert(cms(s).count(*d) > 0); assert(le(res[i].1, gv(c, *d))); }
                    }
                }
                //#}
            },
            NodeType::Node(n) => {
                lemma_facts(c, *n);
                assert(all =~= rms(res).add(cms(s.drop_last())).add(kms(*n).add(n.own().to_multiset())));
            },
            _ => {},
        }
    }
}
//#}
//#C09 C10{
// ---------------------------------------------------------------- sorted: what is still to come
//@@type quadtrees/sorted.rs|SortIter
pub open spec fn okdf(c: Calc) -> spec_fn(D) -> bool { |d: D| okd(c, d) }
// the data that have a distance
pub open spec fn fok(c: Calc, m: Multiset<D>) -> Multiset<D> { m.filter(okdf(c)) }
#[verifier::opaque]
pub open spec fn sst(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent>, extra: Multiset<D>) -> bool {
    &&& cgood(c, s)
    &&& ex ==> ccells(c, s)
    &&& ex ==> todo == fok(c, cms(s).add(extra))           //#C09
}
pub open spec fn todo(i: SortIter) -> Multiset<D> { fok(gc(i.cmp), cms(i.stack@)) }
// the distances to all the cells that are left exist
pub open spec fn clear(i: SortIter) -> bool { ccells(gc(i.cmp), i.stack@) }
pub open spec fn sok(i: SortIter) -> bool { cgood(gc(i.cmp), i.stack@) && (i.is_sorted ==> desc(i.stack@)) }
pub proof fn lemma_sst_num(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent>, extra: Multiset<D>)
    requires sst(c, todo, ex, s, extra)
    ensures forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).1)
{ reveal(sst); reveal(cgood); assert forall|i: int| 0 <= i < s.len() implies !nan((#[trigger] s[i]).1) by { assert(egood(c, s[i])); } }
pub proof fn lemma_sst_0(c: Calc, s: Seq<Ent>)
    requires cgood(c, s)
    ensures sst(c, fok(c, cms(s)), ccells(c, s), s, Multiset::empty())
{ reveal(sst); assert(cms(s).add(Multiset::empty()) =~= cms(s)); }
pub broadcast proof fn lemma_sst_sort(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent>, t: Seq<Ent>, extra: Multiset<D>)
    requires #[trigger] sst(c, todo, ex, s, extra), #[trigger] sorted_of(s, t)
    ensures sst(c, todo, ex, t, extra)
{ reveal(sst); reveal(sorted_of); lemma_perm(s, t); lemma_perm_good(c, s, t); }
pub broadcast proof fn lemma_sst_end(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent>, e: Multiset<D>)
    requires #[trigger] sst(c, todo, ex, s, e), e == Multiset::<D>::empty()
    ensures cgood(c, s), 
        ex ==> ccells(c, s) && todo == fok(c, cms(s)),         //#C09
{ reveal(sst); assert(cms(s).add(Multiset::empty()) =~= cms(s)); }
// what sorted starts from
pub proof fn lemma_sorted_0<'a>(c: Calc, n: &'a Nd)
    requires good(*n)
    ensures
       cgood(c, Seq::<Ent<'a>>::empty()) && ccells(c, Seq::<Ent<'a>>::empty()) && desc(Seq::<Ent<'a>>::empty()),
       bd(c, n.bounds) is Ok && !nan(bv(c, n.bounds)) ==> {
          let s = Seq::<Ent<'a>>::empty().push((NodeType::Node(n), bv(c, n.bounds)));
          cgood(c, s) && cms(s) == n.ms() && (cells(c, *n) ==> ccells(c, s))
       }
{
    reveal(cgood); reveal(ccells);
    let e: Ent<'a> = (NodeType::Node(n), bv(c, n.bounds));
    lemma_c_push(Seq::<Ent<'a>>::empty(), e);
    assert(cms(Seq::<Ent<'a>>::empty().push(e)) =~= n.ms());
}
// the top of the stack
pub broadcast proof fn lemma_sorted_step<'a>(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent<'a>>)
    requires #[trigger] sst(c, todo, ex, s, Multiset::empty()), #[trigger] desc(s),
    ensures
        s.len() == 0 ==> (ex ==> todo == Multiset::<D>::empty()),     //#C09
        s.len() > 0 ==> match s.last().0 {
            NodeType::Child(d) => {
                &&& cgood(c, s.drop_last()) && desc(s.drop_last())
                &&& gd(c, *d) == Ok::<T, Error>(s.last().1) && fin(s.last().1)
                &&& ex ==> ccells(c, s.drop_last()) && todo == fok(c, cms(s.drop_last())).insert(*d)              //#C09
                &&& ex && prunes(c) ==> forall|e: D| #[trigger] todo.count(e) > 0 ==> le(s.last().1, gv(c, e))    //#C09
            },
            NodeType::Node(n) => {
                &&& facts(c, *n) && (ex ==> cells(c, *n))
                &&& sst(c, todo, ex, s.drop_last(), kms(*n).add(n.own().to_multiset()))
                &&& cwt(s) == cwt(s.drop_last()) + 1 + n.own().len() + kwt(*n)
            },
            _ => false,
        },
{
    reveal(sst);
    let f = okdf(c);
    assert(cms(s).add(Multiset::empty()) =~= cms(s));
    if s.len() == 0 { assert(fok(c, cms(s)) =~= Multiset::empty()); }
    else {
        assert(cgood(c, s));
        assert(egood(c, s.last())) by { reveal(cgood); assert(egood(c, s[s.len() - 1])); }
        assert(ex ==> ecells(c, s.last())) by { reveal(ccells); }
        lemma_c_pop(c, s);
        //#C09{
        if ex && prunes(c) {
            assert forall|e: D| #[trigger] todo.count(e) > 0 implies le(s.last().1, gv(c, e)) by { lemma_top2(c, s, s.last().1); reveal(atleast); assert(fok(c, cms(s)).count(e) > 0); }
        }
        //#}
        match s.last().0 {
            NodeType::Child(d) => {
                assert(fok(c, cms(s)) =~= fok(c, cms(s.drop_last())).insert(*d));
            },
            NodeType::Node(n) => {
                lemma_facts(c, *n);
                assert(cms(s) =~= cms(s.drop_last()).add(kms(*n).add(n.own().to_multiset())));
            },
            _ => {},
        }
    }
}
//#C09{
// the data on a sorted stack that have a distance are not nearer than its top
pub proof fn lemma_top2(c: Calc, s: Seq<Ent>, x: T)
    requires cgood(c, s), prunes(c), forall|i: int| 0 <= i < s.len() ==> le(x, (#[trigger] s[i]).1)
    ensures atleast(c, fok(c, cms(s)), x)
    decreases s.len()
{
    reveal(atleast);
    if s.len() > 0 {
        lemma_c_pop(c, s);
        let m = cms(s.drop_last());
        lemma_top2(c, s.drop_last(), x);
        assert(le(x, s[s.len() - 1].1));
        assert forall|d: D| #[trigger] fok(c, cms(s)).count(d) > 0 implies le(x, gv(c, d)) by {
            if m.count(d) > 0 { assert(fok(c, m).count(d) > 0); }
            else {
                assert(ems(s.last()).count(d) > 0);
                if let NodeType::Node(n) = s.last().0 { assert(cont(d, n.bounds)) by { reveal(within); } axiom_prune(c, d, n.bounds); }
            }
        }
    }
}
//#}
pub proof fn lemma_sst_child<'a>(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent<'a>>, base: Multiset<D>, q: Seq<D>)
    requires sst(c, todo, ex, s, base.add(q.to_multiset()))
    ensures
        q.len() == 0 ==> sst(c, todo, ex, s, base),
        q.len() > 0 ==> {
            let e: Ent<'a> = (NodeType::Child(&q[0]), gv(c, q[0]));
            &&& okd(c, q[0]) ==> sst(c, todo, ex, s.push(e), base.add(q.skip(1).to_multiset()))
            &&& !okd(c, q[0]) ==> sst(c, todo, ex, s, base.add(q.skip(1).to_multiset()))
            &&& cwt(s.push(e)) == cwt(s) + 1
        },
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(sst);
    if q.len() == 0 { assert(base.add(q.to_multiset()) =~= base); }
    else {
        let e: Ent<'a> = (NodeType::Child(&q[0]), gv(c, q[0]));
        lemma_skip1(q);
        lemma_c_push(s, e);
        let m0 = cms(s).add(base.add(q.to_multiset()));
        let m1 = cms(s).add(base.add(q.skip(1).to_multiset()));
        assert(m0 =~= m1.insert(q[0]));
        if okd(c, q[0]) {
            assert(m0 =~= cms(s.push(e)).add(base.add(q.skip(1).to_multiset())));
            lemma_cgood_push(c, s, e);
            if ex { lemma_ccells_push(c, s, e); }
        } else {
            assert(fok(c, m0) =~= fok(c, m1)) by {
                assert forall|d: D| fok(c, m0).count(d) == fok(c, m1).count(d) by { if d == q[0] { assert(!okdf(c)(d)); } }
            }
        }
    }
}
pub proof fn lemma_sst_cell<'a>(c: Calc, todo: Multiset<D>, ex: bool, s: Seq<Ent<'a>>, q: Seq<Nd>)
    requires sst(c, todo, ex, s, nms(q)), rowgood(q), ex ==> rowcells(c, q)
    ensures
        q.len() == 0 ==> sst(c, todo, ex, s, Multiset::empty()) && nwt(q) == 0,
        q.len() > 0 ==> {
            let e: Ent<'a> = (NodeType::Node(&q[0]), bv(c, q[0].bounds));
            &&& okb(c, q[0].bounds) ==> sst(c, todo, ex, s.push(e), nms(q.skip(1)))
            &&& !okb(c, q[0].bounds) ==> sst(c, todo, ex, s, nms(q.skip(1)))
            &&& rowgood(q.skip(1)) && (ex ==> rowcells(c, q.skip(1)))
            &&& cwt(s.push(e)) + nwt(q.skip(1)) == cwt(s) + nwt(q) && nwt(q.skip(1)) <= nwt(q)
        },
{
    reveal(sst);
    lemma_row(c, q);
    if q.len() > 0 {
        let e: Ent<'a> = (NodeType::Node(&q[0]), bv(c, q[0].bounds));
        lemma_c_push(s, e);
        lemma_wt_pos(q[0]);
        assert(cms(s).add(nms(q)) =~= cms(s.push(e)).add(nms(q.skip(1))));
        if okb(c, q[0].bounds) { lemma_cgood_push(c, s, e); if ex { lemma_ccells_push(c, s, e); } }
    }
}
//#}
//#C09{
// what the contract of next() means for a whole run: ys is what successive calls yield until the end
pub open spec fn yields(c: Calc, m: Multiset<D>, ys: Seq<(D, T)>) -> bool decreases ys.len() {
    if ys.len() == 0 { m == Multiset::<D>::empty() }
    else {
        &&& m == m.remove(ys[0].0).insert(ys[0].0) && gd(c, ys[0].0) == Ok::<T, Error>(ys[0].1)
        &&& forall|d: D| #[trigger] m.count(d) > 0 ==> le(ys[0].1, gv(c, d))
        &&& yields(c, m.remove(ys[0].0), ys.skip(1))
    }
}
pub open spec fn firsts(ys: Seq<(D, T)>) -> Multiset<D> decreases ys.len() { if ys.len() == 0 { Multiset::empty() } else { firsts(ys.skip(1)).insert(ys[0].0) } }
pub proof fn lemma_yields(c: Calc, m: Multiset<D>, ys: Seq<(D, T)>)
    requires yields(c, m, ys)
    ensures firsts(ys) == m, forall|i: int, j: int| 0 <= i < j < ys.len() ==> le((#[trigger] ys[i]).1, (#[trigger] ys[j]).1),
        forall|i: int| 0 <= i < ys.len() ==> m.count((#[trigger] ys[i]).0) > 0 && gd(c, ys[i].0) == Ok::<T, Error>(ys[i].1),
    decreases ys.len()
{
    if ys.len() > 0 {
        let t = ys.skip(1);
        lemma_yields(c, m.remove(ys[0].0), t);
        assert(m.count(ys[0].0) > 0) by { assert(m.remove(ys[0].0).insert(ys[0].0).count(ys[0].0) > 0); }
        assert forall|i: int| 0 <= i < ys.len() implies m.count((#[trigger] ys[i]).0) > 0 && gd(c, ys[i].0) == Ok::<T, Error>(ys[i].1) by {
            if i > 0 { assert(ys[i] == t[i - 1]); assert(m.remove(ys[0].0).count(t[i - 1].0) > 0); }
        }
        assert forall|i: int, j: int| 0 <= i < j < ys.len() implies le((#[trigger] ys[i]).1, (#[trigger] ys[j]).1) by {
            assert(ys[j] == t[j - 1]);
            if i > 0 { assert(ys[i] == t[i - 1]); } else { assert(m.count(ys[j].0) > 0); }
        }
    }
}
//#}
