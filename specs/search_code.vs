//#C07 C08 C09 C10{
#[verifier::external_body]
pub struct Cmp { p: PhantomData<()> }
// ASSUMPTION: a comparator's geometry is a function of the comparator
pub uninterp spec fn cshape(x: Cmp) -> Shape;
pub open spec fn calc(x: Cmp, m: CalcMethod) -> Calc { (cshape(x), m) }
impl Cmp {
    #[verifier::external_body]
    pub fn as_geom(&self) -> (r: GeometryRef<'_>) ensures gshape(r) == cshape(*self) { unimplemented!() }
//@@fn geom/mod.rs|trait|AsGeom|with_calc
ensures gc(ret) == calc(*self, $1),
//@end
}
impl<'a> GeometryRef<'a> {
    #[verifier::external_body]
    pub fn dist_euclidean(&self, g: &GeometryRef<'_>) -> (r: T) ensures r == de(gshape(*self), gshape(*g)) { unimplemented!() }
    #[verifier::external_body]
    pub fn dist_haversine(&self, g: &GeometryRef<'_>) -> (r: Result<T, Error>) ensures r == dh(gshape(*self), gshape(*g)) { unimplemented!() }
//@@fn geom/geometry.rs|GeometryRef<'a,T>||into_calc
ensures gc(ret) == (gshape(self), $1),
//@end
}
impl Rect {
    #[verifier::external_body]
    pub fn dist_euclidean(&self, g: &GeometryRef<'_>) -> (r: T) ensures r == deb(*self, gshape(*g)) { unimplemented!() }
    #[verifier::external_body]
    pub fn dist_haversine(&self, g: &GeometryRef<'_>) -> (r: Result<T, Error>) ensures r == dhb(*self, gshape(*g)) { unimplemented!() }
}
pub open spec fn gdg(c: Calc, s: Shape) -> Result<T, Error> {
    match c.1 { CalcMethod::None => Err(Error::CalcMethodNotSet), CalcMethod::Euclidean => Ok(de(c.0, s)), CalcMethod::Spherical => dh(c.0, s) }
}
impl<'x> GeomCalc<'x> {
//@@fn geom/mod.rs|GeomCalc<'_,T>||dist_geom
ensures ret == gdg(gc(*self), gshape(*$1)),
//@end
//@@fn geom/mod.rs|GeomCalc<'_,T>||dist_bbox
ensures ret == bd(gc(*self), *$1),
//@end
}
//#}
//#C08 C09 C10{
// ---------------------------------------------------------------- std: sorting, last
#[verifier::external_body]
pub fn qt_sort_raw<X, F: Fn(&X, &X) -> Ordering>(v: &mut Vec<X>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i], &old(v)@[j])),
        // the outcomes are those of a total order
        forall|i: int, j: int, o: Ordering, p: Ordering| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && #[trigger] f.ensures((&old(v)@[i], &old(v)@[j]), o) && #[trigger] f.ensures((&old(v)@[j], &old(v)@[i]), p)
            ==> (o is Greater <==> p is Less) && (o is Equal <==> p is Equal),
        forall|i: int, j: int, k: int, o: Ordering, p: Ordering, q: Ordering| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && 0 <= k < old(v)@.len()
            && #[trigger] f.ensures((&old(v)@[i], &old(v)@[j]), o) && #[trigger] f.ensures((&old(v)@[j], &old(v)@[k]), p) && #[trigger] f.ensures((&old(v)@[i], &old(v)@[k]), q)
            && !(o is Greater) && !(p is Greater) ==> !(q is Greater),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==> exists|o: Ordering| f.ensures((&final(v)@[i], &final(v)@[j]), o) && !(o is Greater),
{ unimplemented!() }
pub trait QtSort<'a>: Sized {
    spec fn ents(&self) -> Seq<Ent<'a>>;
    fn qt_sort_unstable_by<F: Fn(&Ent<'a>, &Ent<'a>) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).ents().len() && 0 <= j < old(self).ents().len() ==> #[trigger] f.requires((&old(self).ents()[i], &old(self).ents()[j])),
            forall|a: Ent<'a>, b: Ent<'a>, o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> Some(o) == ord(b.1, a.1),
        ensures desc(final(self).ents()), sorted_of(old(self).ents(), final(self).ents()),
    ;
}
impl<'a> QtSort<'a> for Vec<Ent<'a>> {
    open spec fn ents(&self) -> Seq<Ent<'a>> { self@ }
    fn qt_sort_unstable_by<F: Fn(&Ent<'a>, &Ent<'a>) -> Ordering>(&mut self, f: F) {
        let ghost s = self@;
        assert(self.ents() == self@);
        qt_sort_raw(self, f);
        proof { reveal(sorted_of); }
    }
}
pub trait QtLast<X> { spec fn its(&self) -> Seq<X>; fn qt_last(&self) -> (r: Option<&X>) ensures self.its().len() == 0 ==> r is None, self.its().len() > 0 ==> r is Some && *r->0 == self.its().last(); }
impl<X> QtLast<X> for Vec<X> {
    open spec fn its(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn qt_last(&self) -> (r: Option<&X>) { unimplemented!() }
}
//#}
//#C08 C10{
//@@fn quadtrees/knn.rs|||knn
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
requires good(*$1),
ensures
    $1.full() ==> knn_pre(gc($2), $1.bounds, $1.ms(), ret),                    //#C10
    knn_all($1.ms(), $3 as int, $4, ret),                    //#C10
    inside(gc($2), $1.bounds) && exist(gc($2), *$1) ==> ret is Ok,
    inside(gc($2), $1.bounds) && exist(gc($2), *$1) && prunes(gc($2)) && !nan($4) ==> knn_post(gc($2), $1.ms(), $3 as int, $4, ret->Ok_0@),     //#C08
//@ghost
let ghost __c = gc($2);
let ghost __all = $1.ms();
let ghost __ex = exist(__c, *$1);
let ghost __dt = data(__c, __all) && prunes(__c);
let ghost __n = $1;
let ghost __top = forall|x: T| !#[trigger] lt($4, x);       //#C10
broadcast use {lemma_sorted_of, lemma_kst_sort, lemma_kst_done, lemma_cwt_pos, lemma_allfin};
proof {
    lemma_knn_0(__c, __all, $4);
    if $1.ms().len() == 0 && $1.full() { lemma_empty(__c, *$1, __all, $4); }
    if inside(__c, $1.bounds) && $3 > 0 { lemma_kst_0(__c, $3 as int, $4, __ex, __dt, $1); }
}
//@closure 0
&Ent<'a> ; &Ent<'a> -> (o: Ordering)
requires !nan(__a0.1), !nan(__a1.1),
ensures Some(o) == ord(__a1.1, __a0.1),
//@loop 0
invariant
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, Multiset::empty()),
decreases cwt(work_stack@)
//@body 0
let ghost __w = cwt(work_stack@);
proof { lemma_kst_num(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, Multiset::empty()); }
//@loop 1
invariant_except_break
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, Multiset::empty()),
    desc(work_stack@),
invariant
    cwt(work_stack@) <= __w,
    results@.len() < $3,
ensures
    at_node(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@),
    work_stack@.len() == 0 ==> rms(results@) == __all,       //#C10
    __top && work_stack@.len() > 0 ==> !lt($4, work_stack@.last().1),       //#C10
    __dt && (work_stack@.len() == 0 || lt($4, work_stack@.last().1)) ==> knn_post(__c, __all, $3 as int, $4, results@),       //#C08
decreases cwt(work_stack@)
//@body 1
proof { lemma_knn_step(__c, __all, $3 as int, $4, work_stack@, results@, __ex, __dt); }
proof { assert(__top && work_stack@.len() > 0 ==> !lt($4, work_stack@.last().1)); }       //#C10
//@loop 2
invariant_except_break
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, kms(*node).add(rem_d(__it2).to_multiset())),
    cwt(work_stack@) + rem_d(__it2).len() + kwt(*node) < __w,
ensures
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, kms(*node)),
    cwt(work_stack@) + kwt(*node) < __w,
decreases rem_d(__it2).len()
//@body 2
proof { lemma_kst_child(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, kms(*node), rem_d(__it2)); }
//@loop 3
invariant_except_break
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, nms(__it3.rem())),
    rowgood(__it3.rem()), __ex ==> rowcells(__c, __it3.rem()),
    cwt(work_stack@) + nwt(__it3.rem()) < __w,
ensures
    kst(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, Multiset::empty()),
    cwt(work_stack@) < __w,
decreases __it3.rem().len()
//@body 3
proof { lemma_kst_cell(__c, __all, $3 as int, $4, __ex, __dt, work_stack@, results@, __it3.rem()); }
//@end
//#}
//#C09 C10{
pub assume_specification<X> [bool::then_some::<X>] (b: bool, x: X) -> (r: Option<X>) ensures r == (if b { Some(x) } else { None });
impl<'a> SortIter<'a> {
//@@fn quadtrees/sorted.rs|SortIter<'a,N,D,T>|Iterator|next
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret Option<(&'a D, T)>
requires sok(*old(self)),
ensures sok(*final(self)), final(self).cmp == old(self).cmp,
    old(self).stack@.len() == 0 ==> ret is None,
    ret is None ==> final(self).stack@.len() == 0,
    clear(*old(self)) ==> clear(*final(self)),           //#C09
    ret is Some ==> gd(gc(old(self).cmp), *(ret->0).0) == Ok::<T, Error>((ret->0).1) && fin((ret->0).1),                      //#C09
    ret is Some && clear(*old(self)) ==> todo(*old(self)) == todo(*final(self)).insert(*(ret->0).0),                      //#C09
    ret is Some && clear(*old(self)) && prunes(gc(old(self).cmp)) ==> forall|d: D| #[trigger] todo(*old(self)).count(d) > 0 ==> le((ret->0).1, gv(gc(old(self).cmp), d)),      //#C09
    ret is None && clear(*old(self)) ==> todo(*old(self)) == Multiset::<D>::empty(),                                    //#C09
decreases cwt(old(self).stack@)
//@ghost
let ghost __c = gc(old(self).cmp);
let ghost __t = todo(*old(self));
let ghost __ex = clear(*old(self));
let ghost __w = cwt(old(self).stack@);
broadcast use {lemma_sorted_of, lemma_sst_sort, lemma_sst_end, lemma_sorted_step, lemma_cwt_pos};
proof { lemma_sst_0(__c, self.stack@); lemma_sst_num(__c, __t, __ex, self.stack@, Multiset::empty()); }
//@closure 0
&Ent<'a> ; &Ent<'a> -> (o: Ordering)
requires !nan(__a0.1), !nan(__a1.1),
ensures Some(o) == ord(__a1.1, __a0.1),
//@loop 0
invariant_except_break
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, kms(*node).add(rem_d(__it0).to_multiset())),
    cwt(self.stack@) + rem_d(__it0).len() + kwt(*node) < __w,
ensures
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, kms(*node)),
    cwt(self.stack@) + kwt(*node) < __w,
decreases rem_d(__it0).len()
//@body 0
proof { lemma_sst_child(__c, __t, __ex, self.stack@, kms(*node), rem_d(__it0)); }
//@loop 1
invariant_except_break
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, nms(__it1.rem())),
    rowgood(__it1.rem()), __ex ==> rowcells(__c, __it1.rem()),
    cwt(self.stack@) + nwt(__it1.rem()) < __w,
ensures
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, Multiset::empty()),
    cwt(self.stack@) < __w,
decreases __it1.rem().len()
//@body 1
proof { lemma_sst_cell(__c, __t, __ex, self.stack@, __it1.rem()); }
//@alt loops=3
//@ghost
let ghost __c = gc(old(self).cmp);
let ghost __t = todo(*old(self));
let ghost __ex = clear(*old(self));
broadcast use {lemma_sorted_of, lemma_sst_sort, lemma_sst_end, lemma_sorted_step, lemma_cwt_pos};
proof { lemma_sst_0(__c, self.stack@); }
//@loop 0
invariant_except_break
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, Multiset::empty()),
    self.is_sorted ==> desc(self.stack@),
    old(self).stack@.len() == 0 ==> self.stack@.len() == 0,
decreases cwt(self.stack@)
//@body 0
let ghost __w = cwt(self.stack@);
proof { lemma_sst_num(__c, __t, __ex, self.stack@, Multiset::empty()); }
//@loop 1
invariant_except_break
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, kms(*node).add(rem_d(__it0).to_multiset())),
    cwt(self.stack@) + rem_d(__it0).len() + kwt(*node) < __w,
ensures
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, kms(*node)),
    cwt(self.stack@) + kwt(*node) < __w,
decreases rem_d(__it0).len()
//@body 1
proof { lemma_sst_child(__c, __t, __ex, self.stack@, kms(*node), rem_d(__it0)); }
//@loop 2
invariant_except_break
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, nms(__it1.rem())),
    rowgood(__it1.rem()), __ex ==> rowcells(__c, __it1.rem()),
    cwt(self.stack@) + nwt(__it1.rem()) < __w,
ensures
    self.cmp == old(self).cmp,
    sst(__c, __t, __ex, self.stack@, Multiset::empty()),
    cwt(self.stack@) < __w,
decreases __it1.rem().len()
//@body 2
proof { lemma_sst_cell(__c, __t, __ex, self.stack@, __it1.rem()); }
//@end
}
//@@fn quadtrees/sorted.rs|||sorted
requires good(*$1),
ensures sok(ret), gc(ret.cmp) == gc($2),
    !inside(gc($2), $1.bounds) ==> ret.stack@.len() == 0,
    inside(gc($2), $1.bounds) ==> cms(ret.stack@) == $1.ms() && (cells(gc($2), *$1) ==> clear(ret)),      //#C09
//@ghost
proof { lemma_sorted_0(gc($2), $1); }
//@end
//#}
