//@@config tree_bounds.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type node.rs|SubNode derive(Clone, Copy)
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_use.vs
//@@include num.vs
// ---------------------------------------------------------------- data: an arbitrary `AsGeom`
#[verifier::external_body]
pub struct D { p: PhantomData<()> }
#[verifier::external_body]
pub struct Shape { p: PhantomData<()> }
pub uninterp spec fn shape(d: D) -> Shape;
pub uninterp spec fn shape_bb(s: Shape) -> Option<Rect>;
#[verifier::external_body]
pub struct GeometryRef<'a> { p: PhantomData<&'a D> }
pub uninterp spec fn gshape(g: GeometryRef) -> Shape;
impl D {
    // ASSUMPTION: a datum's geometry is a function of the datum (it does not change between calls)
    #[verifier::external_body]
    pub fn as_geom(&self) -> (r: GeometryRef<'_>) ensures gshape(r) == shape(*self) { unimplemented!() }
}
impl<'a> GeometryRef<'a> {
    #[verifier::external_body]
    pub fn bounding_rect(&self) -> (r: Option<Rect>) ensures r == shape_bb(gshape(*self)) { unimplemented!() }
}
pub open spec fn bb(d: D) -> Option<Rect> { shape_bb(shape(d)) }
pub open spec fn ctr(r: Rect) -> Coord { Coord { x: midx(r), y: midy(r) } }
pub open spec fn at(d: D) -> Coord { ctr(bb(d)->0) }

//@@type quadtrees/bounds/node.rs|BoundsNode
//@@type quadtrees/bounds/mod.rs|BoundsQuadTree
pub type Tree = BoundsQuadTree;
pub type Nd = BoundsNode;
pub open spec fn fits(d: D, b: Rect, i: int) -> bool { bb(d) is Some && route(b, at(d)) == i && rin(quad(b, i), bb(d)->0) }
pub open spec fn isstuck(d: D, b: Rect) -> bool { bb(d) is Some && !rin(quad(b, route(b, at(d))), bb(d)->0) }
// all data below quadrant i belong there by their centre and fit into it
#[verifier::opaque]
pub open spec fn routed(m: Multiset<D>, b: Rect, i: int) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> fits(d, b, i) }
pub broadcast proof fn lemma_routed_ins(m: Multiset<D>, d: D, b: Rect, i: int)
    requires routed(m, b, i), fits(d, b, i)
    ensures #[trigger] routed(m.insert(d), b, i)
{ reveal(routed); }
pub broadcast proof fn lemma_routed_0(b: Rect, i: int)
    ensures #[trigger] routed(Multiset::empty(), b, i)
{ reveal(routed); }
pub open spec fn allbb(s: Seq<D>) -> bool { forall|i: int| 0 <= i < s.len() ==> bb(#[trigger] s[i]) is Some }
pub open spec fn allstuck(s: Seq<D>, b: Rect) -> bool { forall|i: int| 0 <= i < s.len() ==> isstuck(#[trigger] s[i], b) }
impl BoundsNode {
    // what the cell itself holds
    pub open spec fn own(self) -> Seq<D> { self.children@ + self.stuck_children@ }
    // the contents in preorder
    pub open spec fn pre(self) -> Seq<D> decreases self {
        match self.nodes {
            None => self.own(),
            Some(b) => self.own() + (b@[0].pre() + (b@[1].pre() + (b@[2].pre() + b@[3].pre()))),
        }
    }
    // the contents as a multiset
    pub open spec fn ms(self) -> Multiset<D> decreases self {
        match self.nodes {
            None => self.children@.to_multiset().add(self.stuck_children@.to_multiset()),
            Some(b) => self.children@.to_multiset().add(self.stuck_children@.to_multiset()).add(b@[0].ms()).add(b@[1].ms()).add(b@[2].ms()).add(b@[3].ms()),
        }
    }
    pub open spec fn kid_ok(self, k: BoundsNode, i: int) -> bool {
        &&& k.depth == self.depth + 1 && k.max_depth == self.max_depth && k.max_children == self.max_children
        &&& k.bounds == quad(self.bounds, i)      //#C04 C06 C18 C07 C08 C09
        &&& k.full()                              //#C04 C10
        &&& routed(k.ms(), self.bounds, i)        //#C04 C06 C07 C08 C09
    }
    // the representation invariant
    pub open spec fn inv(self) -> bool decreases self {
        match self.nodes {
            None => {
                &&& allbb(self.children@)
                &&& self.stuck_children@.len() == 0       //#C04
                &&& (self.children@.len() <= self.max_children || self.depth >= self.max_depth)   //#C04
            },
            Some(b) => {
                &&& self.depth < self.max_depth
                &&& self.children@.len() == 0   //#C04
                &&& allstuck(self.stuck_children@, self.bounds)   //#C04
                &&& b@[0].inv() && b@[1].inv() && b@[2].inv() && b@[3].inv()
                &&& self.kid_ok(b@[0], 0) && self.kid_ok(b@[1], 1) && self.kid_ok(b@[2], 2) && self.kid_ok(b@[3], 3)
            }
        }
    }
    // a divided cell holds more than max_children data
    pub open spec fn full(self) -> bool { self.nodes is Some ==> self.ms().len() > self.max_children }
    pub open spec fn same(self, o: BoundsNode) -> bool {
        self.bounds == o.bounds && self.depth == o.depth && self.max_depth == o.max_depth && self.max_children == o.max_children
    }
}
// iterating (preorder) yields exactly the contents
pub proof fn lemma_pre_ms(n: BoundsNode) ensures n.pre().to_multiset() =~= n.ms() decreases n
{
    vstd::seq_lib::lemma_multiset_commutative(n.children@, n.stuck_children@);
    match n.nodes {
        None => {},
        Some(b) => {
            lemma_pre_ms(b@[0]); lemma_pre_ms(b@[1]); lemma_pre_ms(b@[2]); lemma_pre_ms(b@[3]);
            let s3 = b@[2].pre() + b@[3].pre(); let s2 = b@[1].pre() + s3; let s1 = b@[0].pre() + s2;
            vstd::seq_lib::lemma_multiset_commutative(b@[2].pre(), b@[3].pre());
            vstd::seq_lib::lemma_multiset_commutative(b@[1].pre(), s3);
            vstd::seq_lib::lemma_multiset_commutative(b@[0].pre(), s2);
            vstd::seq_lib::lemma_multiset_commutative(n.own(), s1);
        }
    }
}
//@@include iter.vs
//#C20{
//@@include fmt.vs
//@@include fmt_tree.vs
//#}
impl BoundsQuadTree {
    pub open spec fn wf(self) -> bool {
        &&& self.root.inv()
        &&& self.root.depth == 0 && self.root.full()      //#C04 C10
        &&& self.size as nat == self.root.ms().len()      //#C02 C07 C10
        &&& within(self.root.ms(), self.root.bounds)      //#C07 C08 C09
    }
}
//#C06{
// on each axis the ranges share more than an end point, or are equal
pub open spec fn over1(a0: T, a1: T, b0: T, b1: T) -> bool { (lt(a0, b1) && lt(b0, a1)) || (eqv(a0, b0) && eqv(a1, b1)) }
pub open spec fn over(a: Rect, b: Rect) -> bool { over1(a.mn.x, a.mx.x, b.mn.x, b.mx.x) && over1(a.mn.y, a.mx.y, b.mn.y, b.mx.y) }
pub open spec fn dover(d: D, q: Rect) -> bool { bb(d) is Some && over(bb(d)->0, q) }
// nothing but m's data, none more often than in m
pub open spec fn subm(r: Multiset<D>, m: Multiset<D>) -> bool { forall|d: D| #[trigger] r.count(d) <= m.count(d) }
// every datum of m that overlaps q, as often as it is in m
pub open spec fn covers(r: Multiset<D>, m: Multiset<D>, q: Rect) -> bool { forall|d: D| dover(d, q) ==> #[trigger] r.count(d) == m.count(d) }
pub open spec fn apart(m: Multiset<D>, q: Rect) -> bool { forall|d: D| dover(d, q) ==> #[trigger] m.count(d) == 0 }
pub open spec fn part(n: BoundsNode, j: int, d: D) -> int {
    (if j > 0 { n.nodes->0@[0].ms().count(d) as int } else { 0 }) + (if j > 1 { n.nodes->0@[1].ms().count(d) as int } else { 0 })
    + (if j > 2 { n.nodes->0@[2].ms().count(d) as int } else { 0 }) + (if j > 3 { n.nodes->0@[3].ms().count(d) as int } else { 0 })
}
pub open spec fn upto(r: Multiset<D>, n: BoundsNode, j: int, q: Rect) -> bool {
    forall|d: D| #[trigger] r.count(d) <= part(n, j, d) && (dover(d, q) ==> r.count(d) == part(n, j, d))
}
pub proof fn lemma_mid_eq(a0: T, a1: T, b0: T, b1: T, lo: T, hi: T)
    requires oki(lo, hi), le(lo, a0), le(a0, a1), le(a1, mid(lo, hi)), le(mid(lo, hi), b0), le(b0, b1), le(b1, hi),
        over1(b0, b1, a0, a1)
    ensures eqv(mid(b0, b1), mid(lo, hi)), eqv(mid(a0, a1), mid(lo, hi))
{
    axiom_mid(lo, hi);
    axiom_okw(lo, hi, a0, a1); axiom_okw(lo, hi, b0, b1);
    axiom_mid(a0, a1); axiom_mid(b0, b1);
}
// q and d sit in different quadrants, each where its centre says: they do not overlap
pub proof fn lemma_two(b: Rect, q: Rect, i: int, d: D, j: int)
    requires okr(b), i != j, 0 <= i < 4, 0 <= j < 4, route(b, ctr(q)) == i, rin(quad(b, i), q), fits(d, b, j), okq(q), okq(bb(d)->0)
    ensures !dover(d, q)
{
    axiom_mid(b.mn.x, b.mx.x); axiom_mid(b.mn.y, b.mx.y);
    let r = bb(d)->0;
    if dover(d, q) {
        let hx = |k: int| k == 1 || k == 2;
        let hy = |k: int| k == 2 || k == 3;
        if hx(i) && !hx(j) { lemma_mid_eq(r.mn.x, r.mx.x, q.mn.x, q.mx.x, b.mn.x, b.mx.x); }
        if !hx(i) && hx(j) { lemma_mid_eq(q.mn.x, q.mx.x, r.mn.x, r.mx.x, b.mn.x, b.mx.x); }
        if hy(i) && !hy(j) { lemma_mid_eq(r.mn.y, r.mx.y, q.mn.y, q.mx.y, b.mn.y, b.mx.y); }
        if !hy(i) && hy(j) { lemma_mid_eq(q.mn.y, q.mx.y, r.mn.y, r.mx.y, b.mn.y, b.mx.y); }
    }
}
//#}
//#C06 C07 C08 C09 C10{
// ASSUMPTION bbox: geo's bounding rectangles have their corners in order (Rect's own invariant)
#[verifier::external_body]
pub proof fn axiom_bb(d: D) requires bb(d) is Some ensures !nan(bb(d)->0.mn.x) && !nan(bb(d)->0.mx.x) && !nan(bb(d)->0.mn.y) && !nan(bb(d)->0.mx.y) ==> okq(bb(d)->0) {}
//#}
//#C06{
pub proof fn lemma_apart1(n: BoundsNode, q: D, i: int, j: int)
    requires n.inv(), okr(n.bounds), n.nodes is Some, bb(q) is Some, 0 <= j < 4, rin(n.bounds, bb(q)->0), i == route(n.bounds, at(q))
    ensures
        !rmeet(quad(n.bounds, j), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0),
        i != j && rin(quad(n.bounds, i), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0),
{
    reveal(routed);
    let m = n.nodes->0@[j].ms();
    assert(j == 0 || j == 1 || j == 2 || j == 3);
    assert(n.kid_ok(n.nodes->0@[j], j));
    axiom_bb(q);
    assert forall|d: D| dover(d, bb(q)->0) && (!rmeet(quad(n.bounds, j), bb(q)->0) || (i != j && rin(quad(n.bounds, i), bb(q)->0))) implies #[trigger] m.count(d) == 0 by {
        if m.count(d) > 0 {
            assert(fits(d, n.bounds, j));
            axiom_bb(d);
            if i != j && rin(quad(n.bounds, i), bb(q)->0) { lemma_two(n.bounds, bb(q)->0, i, d, j); }
        }
    }
}
pub proof fn lemma_apart(n: BoundsNode, q: D)
    requires n.inv(), okr(n.bounds)
    ensures bb(q) is Some && n.nodes is Some && rin(n.bounds, bb(q)->0) ==> forall|j: int| 0 <= j < 4 ==>
        (!rmeet(#[trigger] quad(n.bounds, j), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0))
        && (route(n.bounds, at(q)) != j && rin(quad(n.bounds, route(n.bounds, at(q))), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0)),
{
    if bb(q) is Some && n.nodes is Some && rin(n.bounds, bb(q)->0) {
        assert forall|j: int| 0 <= j < 4 implies
        (!rmeet(#[trigger] quad(n.bounds, j), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0))
        && (route(n.bounds, at(q)) != j && rin(quad(n.bounds, route(n.bounds, at(q))), bb(q)->0) ==> apart(n.nodes->0@[j].ms(), bb(q)->0)) by {
            lemma_apart1(n, q, route(n.bounds, at(q)), j);
        }
    }
}
pub proof fn lemma_kids(n: BoundsNode)
    requires n.inv()
    ensures n.nodes is Some ==> forall|j: int| 0 <= j < 4 ==> (#[trigger] n.nodes->0@[j]).bounds == quad(n.bounds, j) && n.nodes->0@[j].inv() && n.nodes->0@[j].pre().to_multiset() == n.nodes->0@[j].ms(),
        n.nodes is Some ==> forall|j: int, d: D| 0 <= j < 4 ==> part(n, j + 1, d) == part(n, j, d) + #[trigger] n.nodes->0@[j].ms().count(d),
{
    if n.nodes is Some {
        let b = n.nodes->0@;
        lemma_pre_ms(b[0]); lemma_pre_ms(b[1]); lemma_pre_ms(b[2]); lemma_pre_ms(b[3]);
        assert forall|j: int| 0 <= j < 4 implies (#[trigger] b[j]).bounds == quad(n.bounds, j) && b[j].inv() && b[j].pre().to_multiset() == b[j].ms() by {
            assert(j == 0 || j == 1 || j == 2 || j == 3);
        }
        assert forall|j: int, d: D| 0 <= j < 4 implies part(n, j + 1, d) == part(n, j, d) + #[trigger] b[j].ms().count(d) by {
            assert(j == 0 || j == 1 || j == 2 || j == 3);
        }
    }
}
pub broadcast proof fn lemma_ms_cat(a: Seq<D>, b: Seq<D>)
    ensures #[trigger] (a + b).to_multiset() == a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
//#}
//#C06 C18 C07 C08 C09{
// the quadrants tile the cell, and the quadrant chosen for a position contains it
pub proof fn lemma_tile(b: Rect, c: Coord)
    requires okr(b)
    ensures inr(b, c) <==> (inr(quad(b, 0), c) || inr(quad(b, 1), c) || inr(quad(b, 2), c) || inr(quad(b, 3), c)),
        inr(b, c) ==> inr(quad(b, route(b, c)), c),
        okr(quad(b, 0)), okr(quad(b, 1)), okr(quad(b, 2)), okr(quad(b, 3)),
        rin(b, quad(b, 0)), rin(b, quad(b, 1)), rin(b, quad(b, 2)), rin(b, quad(b, 3)),
{
    axiom_mid(b.mn.x, b.mx.x);
    axiom_mid(b.mn.y, b.mx.y);
}
// all cells of a tree over a usable rectangle are usable, and lie in their cell
pub open spec fn tiled(n: BoundsNode) -> bool decreases n {
    okr(n.bounds) && match n.nodes { None => true, Some(b) =>
       b@[0].bounds == quad(n.bounds, 0) && b@[1].bounds == quad(n.bounds, 1) && b@[2].bounds == quad(n.bounds, 2) && b@[3].bounds == quad(n.bounds, 3)
       && tiled(b@[0]) && tiled(b@[1]) && tiled(b@[2]) && tiled(b@[3]) }
}
pub proof fn lemma_tiled(n: BoundsNode) requires n.inv(), okr(n.bounds) ensures tiled(n) decreases n
{
    match n.nodes { None => {}, Some(b) => {
        lemma_tile(n.bounds, n.bounds.mn);
        lemma_tiled(b@[0]); lemma_tiled(b@[1]); lemma_tiled(b@[2]); lemma_tiled(b@[3]);
    } }
}
//#}
//#C07 C08 C09 C10{
pub open spec fn cont(d: D, b: Rect) -> bool { bb(d) is Some && rin(b, bb(d)->0) }
// all data have a bounding box at a known distance
#[verifier::opaque]
pub open spec fn boxes(c: Calc, m: Multiset<D>) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> bb(d) is Some && okb0(c, bb(d)->0) }
pub proof fn lemma_box(c: Calc, m: Multiset<D>, d: D)
    requires boxes(c, m), m.count(d) > 0
    ensures bb(d) is Some, okb0(c, bb(d)->0),
{ reveal(boxes); }
pub proof fn lemma_box2(c: Calc, m: Multiset<D>, d: D, b: Rect)
    requires boxes(c, m), m.count(d) > 0, within(m, b), prunes(c), span(b), okd(c, d)
    ensures le(bv(c, bb(d)->0), gv(c, d)),
{ reveal(boxes); reveal(within); assert(cont(d, b)); axiom_bb(d); axiom_prune(c, d, bb(d)->0); }
pub proof fn lemma_ms(n: Nd) ensures n.ms() =~= n.own().to_multiset().add(kms(n))
{ vstd::seq_lib::lemma_multiset_commutative(n.children@, n.stuck_children@); }
//#}
//@@include search.vs
}
mod code {
use super::sp::*;
//@@include prelude_use.vs
broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_skip1, lemma_routed_ins, lemma_routed_0};   //#!C07 !C08 !C09 !C10
broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_skip1, lemma_routed_ins, lemma_routed_0, lemma_within_ins, lemma_within_0};   //#C07 C08 C09 C10
//@@const quadtrees/mod.rs|DEFAULT_MAX_CHILDREN
//@@const quadtrees/mod.rs|DEFAULT_MAX_DEPTH
//@@fn geom/math.rs|||rect_in_rect
ensures
    ret == rin(*$1, *$2),    //#+C01
    okq(*$1) && okq(*$2) ==> ret == rin(*$1, *$2),    //#+C06
//@end
impl BoundsNode {
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|new
ensures ret.bounds == $1, ret.depth == $2, ret.max_depth == $3, ret.max_children == $4,
    ret.children@ == Seq::<D>::empty(), ret.stuck_children@ == Seq::<D>::empty(), ret.nodes is None, ret.inv(), ret.ms() == Multiset::<D>::empty(),
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|datum_position
ensures ret is Some <==> bb(*$1) is Some, ret is Some ==> ret->0 == at(*$1),
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|bounds
ensures *ret == self.bounds,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|depth
ensures ret == self.depth,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|max_depth
ensures ret == self.max_depth,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|max_children
ensures ret == self.max_children,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|nodes
ensures *ret == self.nodes,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|children
//@ret DatumIter<'_>
ensures rem_d(ret) == self.own(), w_d(ret) == 1,
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|set_nodes
ensures final(self).same(*old(self)), final(self).nodes == $1, final(self).children == old(self).children, final(self).stuck_children == old(self).stuck_children,
//@end
//@@fn node.rs|trait|Node|find_sub_node
ensures ret is Some <==> bb(*$1) is Some,
    ret is Some ==> ret->0 as int == route(self.bounds, at(*$1)),   //#C04 C06 C18 C07 C08 C09
//@end
//@@fn node.rs|trait|Node|descendants
ensures rem_d(ret) == self.pre(), w_d(ret) <= dw(*self),
decreases ht(*self), 0int
//@pre
broadcast use {lemma_flat4};
//@end
//@@fn node.rs|trait|Node|subdivide
requires old(self).depth < 255,
ensures final(self).same(*old(self)), final(self).children == old(self).children, final(self).stuck_children == old(self).stuck_children, final(self).nodes is Some,
    final(self).children@.len() == 0 && final(self).stuck_children@.len() == 0 && old(self).depth < old(self).max_depth ==> final(self).inv(),
    final(self).ms() =~= old(self).children@.to_multiset().add(old(self).stuck_children@.to_multiset()),
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).inv() && final(self).nodes->0@[i].nodes is None && final(self).nodes->0@[i].ms() == Multiset::<D>::empty(),
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).depth == old(self).depth + 1 && final(self).nodes->0@[i].max_depth == old(self).max_depth && final(self).nodes->0@[i].max_children == old(self).max_children,    //#+C04 C18
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).bounds == quad(old(self).bounds, i),    //#C04 C06 C18 C07 C08 C09
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|insert
requires old(self).inv(), bb($1) is Some,
ensures
    ret is Ok,
    final(self).inv(),                                      //#+C04 C18 C06 C07 C08 C09
    final(self).same(*old(self)),
    old(self).full() ==> final(self).full(),                //#C04 C10
    old(self).nodes is Some ==> final(self).nodes is Some,
    final(self).ms() =~= old(self).ms().insert($1),         //#C02 C04 C06 C07 C08 C09 C10
    final(self).nodes is Some <==> (old(self).nodes is Some || (old(self).children@.len() >= old(self).max_children && old(self).depth < old(self).max_depth)),   //#C04
decreases (if old(self).max_depth >= old(self).depth { old(self).max_depth - old(self).depth } else { 0 }), (if old(self).nodes is None { 1int } else { 0 })
//@before 0
let ghost __m0 = self.ms().add(__it0.rem().to_multiset());    //#C02 C04 C06 C07 C08 C09 C10
//@loop 0
invariant_except_break
    self.inv(), self.same(*old(self)), self.nodes is Some, allbb(__it0.rem()),
    self.ms().add(__it0.rem().to_multiset()) =~= __m0,    //#C02 C04 C06 C07 C08 C09 C10
    old(self).depth < old(self).max_depth, old(self).nodes is None,
ensures self.inv(), self.same(*old(self)), self.nodes is Some,
    self.ms() =~= __m0,                                   //#C02 C04 C06 C07 C08 C09 C10
decreases __it0.rem().len()
//@end
//#C06{
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Node<D,T>|retrieve
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
requires self.inv(), okr(self.bounds), bb(*$1) is Some, rin(self.bounds, bb(*$1)->0),
ensures
    subm(rem_d(ret).to_multiset(), self.ms()),
    covers(rem_d(ret).to_multiset(), self.ms(), bb(*$1)->0),
decreases self
//@pre
broadcast use lemma_ms_cat;
lemma_apart(*self, *$1);
lemma_tile(self.bounds, self.bounds.mn);
lemma_kids(*self);
//@loop 0
invariant
    upto(rem_d(inner).to_multiset(), *self, i as int, bb(*$1)->0),
//@loop 0 each
invariant_except_break
    __it0.rem().len() <= 4,
    __it0.rem() == self.nodes->0@.skip(4 - __it0.rem().len()),
    upto(rem_d(inner).to_multiset(), *self, 4 - __it0.rem().len(), bb(*$1)->0),
ensures upto(rem_d(inner).to_multiset(), *self, 4, bb(*$1)->0),
decreases __it0.rem().len()
//@end
//#}
}
//@@include iter_code.vs
impl BoundsQuadTree {
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>||private_new
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == (if $3 is Some { $3->0 } else { 4 }), ret.root.max_children == (if $4 is Some { $4->0 } else { 4 }),   //#C04
//@end
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>||new
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == $3, ret.root.max_children == $4,   //#C04
//@end
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>||from_bounds
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == 4, ret.root.max_children == 4,   //#C04
//@end
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTree<D,T>|size
ensures
    ret == self.size,    //#C02
//@end
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTree<D,T>|insert
requires old(self).wf(), old(self).size < usize::MAX,
ensures
    ret is Ok <==> (bb($1) is Some && rin(old(self).root.bounds, bb($1)->0)),              //#C01 C02 C07 C08 C09
    bb($1) is None ==> ret is Err && ret->Err_0 is CannotMakeBbox,                          //#C01
    bb($1) is Some && ret is Err ==> ret->Err_0 is OutOfBounds,                             //#C01
    final(self).wf(),
    final(self).root.bounds == old(self).root.bounds,
    final(self).root.same(old(self).root),                         //#C04
    ret is Ok ==> final(self).root.ms() =~= old(self).root.ms().insert($1) && final(self).size == old(self).size + 1,    //#C02 C07 C08 C09 C10
    ret is Err ==> final(self).root == old(self).root && final(self).size == old(self).size,    //#C02 C07 C08 C09 C10
//@end
//#C06{
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTree<D,T>|retrieve
requires self.wf(), okr(self.root.bounds),
ensures
    bb(*$1) is None || !rin(self.root.bounds, bb(*$1)->0) ==> rem_d(ret).len() == 0,
    subm(rem_d(ret).to_multiset(), self.root.ms()),
    bb(*$1) is Some && rin(self.root.bounds, bb(*$1)->0) ==> covers(rem_d(ret).to_multiset(), self.root.ms(), bb(*$1)->0),
//@end
//#}
//@@fn quadtrees/bounds/mod.rs|&'aBoundsQuadTree<D,T>|IntoIterator|into_iter as into_iter_ref
//@recv &self
//@ret DatumIter<'_>
ensures
    rem_d(ret) == self.root.pre(),     //#C02 C03
//@end
}
//@@include search_code.vs
impl BoundsQuadTree {
//#C07 C08 C09 C10{
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTreeSearch<D,T>|calc_method
ensures ret == self.calc_method,
//@end
//#}
//#C07 C10{
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTreeSearch<D,T>|find_r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C07
ensures
    find_pre(calc(*$1, self.calc_method), *self, ret),                        //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && ret is Err ==> ret->Err_0 is NoneInRadius,    //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) && !nan($2) ==> find_post(calc(*$1, self.calc_method), self.root.ms(), $2, ret),   //#C07
//@ghost
let ghost __c = calc(*$1, self.calc_method);
let ghost __all = self.root.ms();
let ghost __ex = exist2(__c, self.root);
let ghost __pr = prunes(__c) && !nan($2);
proof { lemma_settled_0(__c, __all, false, $2); }
broadcast use {lemma_sms_push, lemma_swt_pos, lemma_sgood_push, lemma_scells_push, lemma_add_empty, lemma_empty_add, lemma_wt_pos};
//@loop 0
invariant_except_break
    gc(cmp) == __c,
    sgood(stack@), subms(sms(stack@), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@), found(min_item), min_dist),     //#C07
    unfound(min_item),
ensures
    unfound(min_item),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && (found(min_item) ==> atleast(__c, __all, min_dist)) && (!found(min_item) ==> beyond(__c, __all, $2)),     //#C07
decreases swt(stack@)
//@body 0
let ghost __w = swt(stack@);
proof {
    if stack@.len() > 0 {
        lemma_s_pop(__c, stack@);
        let n = *stack@.last();
        let rest = sms(stack@.drop_last());
        lemma_ms(n);
        lemma_subms_parts(sms(stack@), rest, n.ms(), __all);
        lemma_facts(__c, n);
        if n.nodes is Some { lemma_good(n); assert(kpart(n, 4) =~= kms(n)); }
        //#C07{
        if __ex && __pr && lt(min_dist, bv(__c, n.bounds)) { lemma_settle_cell(__c, __all, rest, n, found(min_item), min_dist); }
        //#}
        assert(n.ms() =~= kms(n).add(n.own().to_multiset()));
        assert(rest.add(n.ms()) =~= rest.add(kms(n)).add(n.own().to_multiset()));
    }
    //#C07{
    else if __ex && __pr { lemma_settled_end(__c, __all, min_item, min_dist, $2); }
    //#}
}
//@loop 1
invariant_except_break
    subms(sms(stack@).add(kms(*node)).add(rem_d(__it1).to_multiset()), __all),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kms(*node)).add(rem_d(__it1).to_multiset()), found(min_item), min_dist),     //#C07
    unfound(min_item),
ensures
    unfound(min_item),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kms(*node)), found(min_item), min_dist),     //#C07
decreases rem_d(__it1).len()
//@body 1
proof {
    let s = rem_d(__it1);
    let base = sms(stack@).add(kms(*node));
    if s.len() > 0 {
        lemma_skip1(s);
        lemma_subms_skip(base, s, __all);
        if __ex { lemma_data_at(__c, __all, base.add(s.to_multiset()), s[0]); lemma_box(__c, __all, s[0]); }
        //#C07{
        if __ex && __pr { lemma_box2(__c, __all, s[0], self.root.bounds); lemma_settle_datum(__c, __all, base, s, found(min_item), min_dist); }
        //#}
    } else { assert(base.add(s.to_multiset()) =~= base); }
}
//@loop 2
invariant
    sgood(stack@), subms(sms(stack@).add(kpart(*node, 4 - i)), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kpart(*node, 4 - i)), found(min_item), min_dist),     //#C07
    unfound(min_item),
    swt(stack@) + kpwt(*node, 4 - i) < __w,
//@body 2
proof {
    let b = node.nodes->0@;
    assert(sms(stack@).add(kpart(*node, 4 - i)) =~= sms(stack@).add(b[3 - i].ms()).add(kpart(*node, 3 - i)));
}
//@loop 2 each
invariant_except_break
    unfound(min_item),
    rowgood(__it2.rem()), __ex ==> rowcells(__c, __it2.rem()),
    sgood(stack@), subms(sms(stack@).add(nms(__it2.rem())), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(nms(__it2.rem())), found(min_item), min_dist),     //#C07
    swt(stack@) + nwt(__it2.rem()) < __w,
ensures
    unfound(min_item),
    sgood(stack@), subms(sms(stack@), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@), found(min_item), min_dist),     //#C07
    swt(stack@) < __w,
decreases __it2.rem().len()
//@body 2 each
proof {
    let q = __it2.rem();
    lemma_row(__c, q);
    if q.len() > 0 { assert(sms(stack@).add(nms(q)) =~= sms(stack@).add(q[0].ms()).add(nms(q.skip(1)))); }
}
//@end
//@@fn quadtrees/mod.rs|trait|QuadTreeSearch|find
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C07
ensures
    find_pre(calc(*$1, self.calc_method), *self, ret),                        //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && ret is Err ==> ret->Err_0 is NoneInRadius,    //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) ==> find_post(calc(*$1, self.calc_method), self.root.ms(), inf(), ret),   //#C07
//@ghost
broadcast use axiom_inf_nan;
//@end
//#}
//#C08 C10{
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTreeSearch<D,T>|knn_r
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C08
ensures
    knn_pre(calc(*$1, self.calc_method), self.root.bounds, self.root.ms(), ret),                    //#C10
    knn_all(self.root.ms(), $2 as int, $3, ret),                    //#C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) ==> ret is Ok,   //#C08 C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) && !nan($3) ==> knn_post(calc(*$1, self.calc_method), self.root.ms(), $2 as int, $3, ret->Ok_0@),     //#C08
//@end
//@@fn quadtrees/mod.rs|trait|QuadTreeSearch|knn
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C08
ensures
    knn_pre(calc(*$1, self.calc_method), self.root.bounds, self.root.ms(), ret),                    //#C10
    knn_all(self.root.ms(), $2 as int, inf(), ret),                    //#C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) ==> ret is Ok,   //#C08 C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) ==> knn_post(calc(*$1, self.calc_method), self.root.ms(), $2 as int, inf(), ret->Ok_0@),     //#C08
//@ghost
broadcast use {axiom_inf_nan, axiom_inf};
//@end
//#}
//#C09 C10{
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|QuadTreeSearch<D,T>|sorted
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C09
ensures sok(ret), gc(ret.cmp) == calc(*$1, self.calc_method),
    !inside(calc(*$1, self.calc_method), self.root.bounds) ==> ret.stack@.len() == 0,
    inside(calc(*$1, self.calc_method), self.root.bounds) && cells(calc(*$1, self.calc_method), self.root) ==> clear(ret) && todo(ret) == fok(calc(*$1, self.calc_method), self.root.ms()),      //#C09
//@end
//#}
}
//#C20{
impl Nd {
//@@fn node.rs|trait|Node|display
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@strings "" " " "(" ", " "):" " 1 child" " children" "\n"
ensures wrote(*old($1), *final($1), ret, printed(out(*old($1)), *self)),
decreases self
//@ghost
broadcast use {lemma_rows4, lemma_rows_at, lemma_times, lemma_padded, axiom_dec, lemma_put_cat, lemma_put_put, lemma_put_nil};
//@loop 0
invariant
    fallible(*$1) == fallible(*old($1)),
    self.nodes is Some, forall|k: int| 0 <= k < 4 ==> decreases_to!(*self => #[trigger] self.nodes->0@[k]),
    rows(out(*$1), self.nodes->0@.skip(i as int)) == printed(out(*old($1)), *self),
//@loop 0 each
invariant_except_break
    fallible(*$1) == fallible(*old($1)),
    rows(out(*$1), __it0.rem()) == printed(out(*old($1)), *self),
    self.nodes is Some, forall|i: int| 0 <= i < __it0.rem().len() ==> decreases_to!(*self => #[trigger] __it0.rem()[i]),
ensures fallible(*$1) == fallible(*old($1)), out(*$1) == printed(out(*old($1)), *self),
decreases __it0.rem().len()
//@end
//@@fn quadtrees/bounds/node.rs|BoundsNode<D,T>|Display|fmt
ensures wrote(*old($1), *final($1), ret, printed(out(*old($1)), *self)),
//@ghost
broadcast use {lemma_put_nil};
//@end
}
impl BoundsQuadTree {
//@@fn quadtrees/bounds/mod.rs|BoundsQuadTree<D,T>|std::fmt::Display|fmt
//@strings "" "Bounds Quadtree Root:\n"
ensures wrote(*old($1), *final($1), ret, printed(put(out(*old($1)), "Bounds Quadtree Root:\n"@), self.root)),
//@ghost
broadcast use {lemma_put_cat, lemma_put_put, lemma_put_nil};
//@end
}
//#}
}
