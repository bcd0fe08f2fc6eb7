//@@config tree_point.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type node.rs|SubNode derive(Clone, Copy)
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_use.vs
//@@include num.vs
// ---------------------------------------------------------------- data: an arbitrary `AsPoint`
#[verifier::external_body]
pub struct D { p: PhantomData<()> }
pub uninterp spec fn pos(d: D) -> Point;
impl D {
    // ASSUMPTION: a datum's position is a function of the datum (it does not change between calls)
    #[verifier::external_body]
    pub fn as_point(&self) -> (r: Point) ensures r == pos(*self) { unimplemented!() }
}
pub open spec fn at(d: D) -> Coord { pos(d).0 }

//@@type quadtrees/point/node.rs|PointNode
//@@type quadtrees/point/mod.rs|PointQuadTree
pub type Tree = PointQuadTree;
pub type Nd = PointNode;
#[verifier::opaque]
pub open spec fn routed(m: Multiset<D>, b: Rect, i: int) -> bool { forall|d: D| #[trigger] m.count(d) > 0 ==> route(b, at(d)) == i }
pub broadcast proof fn lemma_routed_ins(m: Multiset<D>, d: D, b: Rect, i: int)
    requires routed(m, b, i), route(b, at(d)) == i
    ensures #[trigger] routed(m.insert(d), b, i)
{ reveal(routed); }
pub broadcast proof fn lemma_routed_0(b: Rect, i: int)
    ensures #[trigger] routed(Multiset::empty(), b, i)
{ reveal(routed); }
impl PointNode {
    // what the cell itself holds
    pub open spec fn own(self) -> Seq<D> { self.children@ }
    // the contents in preorder
    pub open spec fn pre(self) -> Seq<D> decreases self {
        match self.nodes {
            None => self.children@,
            Some(b) => self.children@ + (b@[0].pre() + (b@[1].pre() + (b@[2].pre() + b@[3].pre()))),
        }
    }
    // the contents as a multiset
    pub open spec fn ms(self) -> Multiset<D> decreases self {
        match self.nodes {
            None => self.children@.to_multiset(),
            Some(b) => self.children@.to_multiset().add(b@[0].ms()).add(b@[1].ms()).add(b@[2].ms()).add(b@[3].ms()),
        }
    }
    pub open spec fn kid_ok(self, k: PointNode, i: int) -> bool {
        &&& k.depth == self.depth + 1 && k.max_depth == self.max_depth && k.max_children == self.max_children
        &&& k.bounds == quad(self.bounds, i)      //#C05 C18 C07 C08 C09
        &&& k.full()                              //#C04 C10
        &&& routed(k.ms(), self.bounds, i)        //#C05 C07 C08 C09
    }
    // the representation invariant
    pub open spec fn inv(self) -> bool decreases self {
        match self.nodes {
            None => {
                &&& true
                &&& (self.children@.len() <= self.max_children || self.depth >= self.max_depth)   //#C04
            },
            Some(b) => {
                &&& self.depth < self.max_depth
                &&& self.children@.len() == 0   //#C04 C05
                &&& b@[0].inv() && b@[1].inv() && b@[2].inv() && b@[3].inv()
                &&& self.kid_ok(b@[0], 0) && self.kid_ok(b@[1], 1) && self.kid_ok(b@[2], 2) && self.kid_ok(b@[3], 3)
            }
        }
    }
    // a divided cell holds more than max_children data
    pub open spec fn full(self) -> bool { self.nodes is Some ==> self.ms().len() > self.max_children }
    pub open spec fn same(self, o: PointNode) -> bool {
        self.bounds == o.bounds && self.depth == o.depth && self.max_depth == o.max_depth && self.max_children == o.max_children
    }
    // the one undivided cell a position belongs to
    pub open spec fn leaf(self, c: Coord) -> Seq<D> decreases self {
        match self.nodes { None => self.children@, Some(b) => b@[route(self.bounds, c)].leaf(c) }
    }
}
// iterating (preorder) yields exactly the contents
pub proof fn lemma_pre_ms(n: PointNode) ensures n.pre().to_multiset() =~= n.ms() decreases n
{
    match n.nodes {
        None => {},
        Some(b) => {
            lemma_pre_ms(b@[0]); lemma_pre_ms(b@[1]); lemma_pre_ms(b@[2]); lemma_pre_ms(b@[3]);
            let s3 = b@[2].pre() + b@[3].pre(); let s2 = b@[1].pre() + s3; let s1 = b@[0].pre() + s2;
            vstd::seq_lib::lemma_multiset_commutative(b@[2].pre(), b@[3].pre());
            vstd::seq_lib::lemma_multiset_commutative(b@[1].pre(), s3);
            vstd::seq_lib::lemma_multiset_commutative(b@[0].pre(), s2);
            vstd::seq_lib::lemma_multiset_commutative(n.children@, s1);
        }
    }
}
//@@include iter.vs
//#C20{
//@@include fmt.vs
//@@include fmt_tree.vs
//#}
impl PointQuadTree {
    pub open spec fn wf(self) -> bool {
        &&& self.root.inv()
        &&& self.root.depth == 0 && self.root.full()      //#C04 C10
        &&& self.size as nat == self.root.ms().len()      //#C02 C07 C10
        &&& within(self.root.ms(), self.root.bounds)      //#C07 C08 C09
    }
}
//#C05{
// every datum at the position of a query is in the retrieved cell, as often as it is in the tree
pub proof fn lemma_leaf_all(n: PointNode, c: Coord, d: D)
    requires n.inv(), ceqv(at(d), c)
    ensures n.leaf(c).to_multiset().count(d) == n.ms().count(d)
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(routed);
    match n.nodes {
        None => {},
        Some(b) => {
            let i = route(n.bounds, c);
            assert(route(n.bounds, at(d)) == i);
            lemma_leaf_all(b@[i], c, d);
            assert(n.children@ =~= Seq::<D>::empty());
            assert(i == 0 || i == 1 || i == 2 || i == 3);
            assert(i != 0 ==> b@[0].ms().count(d) == 0);
            assert(i != 1 ==> b@[1].ms().count(d) == 0);
            assert(i != 2 ==> b@[2].ms().count(d) == 0);
            assert(i != 3 ==> b@[3].ms().count(d) == 0);
        }
    }
}
pub proof fn lemma_leaf_in(n: PointNode, c: Coord, d: D)
    requires n.inv(), n.leaf(c).to_multiset().count(d) > 0
    ensures n.ms().count(d) > 0
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    match n.nodes { None => {}, Some(b) => { let i = route(n.bounds, c); lemma_leaf_in(b@[i], c, d); } }
}
// a retrieved datum's own retrieve gives the same set
pub proof fn lemma_leaf_same(n: PointNode, c: Coord, d: D)
    requires n.inv(), n.leaf(c).to_multiset().count(d) > 0
    ensures n.leaf(at(d)) == n.leaf(c)
    decreases n
{
    reveal(routed);
    match n.nodes {
        None => {},
        Some(b) => {
            let i = route(n.bounds, c);
            lemma_leaf_in(b@[i], c, d);
            assert(route(n.bounds, at(d)) == i);
            lemma_leaf_same(b@[i], c, d);
        }
    }
}
//#}
//#C18 C07 C08 C09{
// the quadrants tile the cell, and the quadrant chosen for a position contains it
pub proof fn lemma_tile(b: Rect, c: Coord)
    requires okr(b)
    ensures inr(b, c) <==> (inr(quad(b, 0), c) || inr(quad(b, 1), c) || inr(quad(b, 2), c) || inr(quad(b, 3), c)),
        inr(b, c) ==> inr(quad(b, route(b, c)), c),
        okr(quad(b, 0)), okr(quad(b, 1)), okr(quad(b, 2)), okr(quad(b, 3)),
        rin(b, quad(b, 0)), rin(b, quad(b, 1)), rin(b, quad(b, 2)), rin(b, quad(b, 3)),
{
    axiom_mid(b.mn.x, b.mx.x);
    axiom_mid(b.mn.y, b.mx.y);
}
// all cells of a tree over a usable rectangle are usable, and lie in their cell
pub open spec fn tiled(n: PointNode) -> bool decreases n {
    okr(n.bounds) && match n.nodes { None => true, Some(b) =>
       b@[0].bounds == quad(n.bounds, 0) && b@[1].bounds == quad(n.bounds, 1) && b@[2].bounds == quad(n.bounds, 2) && b@[3].bounds == quad(n.bounds, 3)
       && tiled(b@[0]) && tiled(b@[1]) && tiled(b@[2]) && tiled(b@[3]) }
}
pub proof fn lemma_tiled(n: PointNode) requires n.inv(), okr(n.bounds) ensures tiled(n) decreases n
{
    match n.nodes { None => {}, Some(b) => {
        lemma_tile(n.bounds, n.bounds.mn);
        lemma_tiled(b@[0]); lemma_tiled(b@[1]); lemma_tiled(b@[2]); lemma_tiled(b@[3]);
    } }
}
//#}
//#C07 C08 C09 C10{
#[verifier::external_body]
pub struct Shape { p: PhantomData<()> }
// ASSUMPTION: a datum's geometry is a function of the datum, and is its position
pub uninterp spec fn shape(d: D) -> Shape;
pub open spec fn cont(d: D, b: Rect) -> bool { inr(b, at(d)) }
pub open spec fn boxes(c: Calc, m: Multiset<D>) -> bool { true }
pub proof fn lemma_box(c: Calc, m: Multiset<D>, d: D) {}
pub proof fn lemma_box2(c: Calc, m: Multiset<D>, d: D, b: Rect) {}
pub proof fn lemma_ms(n: Nd) ensures n.ms() =~= n.own().to_multiset().add(kms(n)) {}
#[verifier::external_body]
pub struct GeometryRef<'a> { p: PhantomData<&'a D> }
pub uninterp spec fn gshape(g: GeometryRef) -> Shape;
impl D {
    #[verifier::external_body]
    pub fn as_geom(&self) -> (r: GeometryRef<'_>) ensures gshape(r) == shape(*self) { unimplemented!() }
}
//#}
//@@include search.vs
}
mod code {
use super::sp::*;
//@@include prelude_use.vs
broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_skip1, lemma_routed_ins, lemma_routed_0};   //#!C07 !C08 !C09 !C10
broadcast use {vstd::seq_lib::group_to_multiset_ensures, lemma_skip1, lemma_routed_ins, lemma_routed_0, lemma_within_ins, lemma_within_0};   //#C07 C08 C09 C10
//@@const quadtrees/mod.rs|DEFAULT_MAX_CHILDREN
//@@const quadtrees/mod.rs|DEFAULT_MAX_DEPTH
//@@fn geom/math.rs|||pt_in_rect
ensures
    ret == inr(*$1, $2.0),    //#+C01
    !nan($2.0.x) && !nan($2.0.y) ==> ret == inr(*$1, $2.0),    //#+C05
//@end
impl PointNode {
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|new
ensures ret.bounds == $1, ret.depth == $2, ret.max_depth == $3, ret.max_children == $4,
    ret.children@ == Seq::<D>::empty(), ret.nodes is None, ret.inv(), ret.ms() == Multiset::<D>::empty(),
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|datum_position
ensures ret == Some(at(*$1)),
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|bounds
ensures *ret == self.bounds,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|depth
ensures ret == self.depth,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|max_depth
ensures ret == self.max_depth,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|max_children
ensures ret == self.max_children,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|nodes
ensures *ret == self.nodes,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|children
//@ret DatumIter<'_>
ensures rem_d(ret) == self.children@, w_d(ret) == 1,
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|set_nodes
ensures final(self).same(*old(self)), final(self).nodes == $1, final(self).children == old(self).children,
//@end
//@@fn node.rs|trait|Node|find_sub_node
ensures ret is Some,
    ret->0 as int == route(self.bounds, at(*$1)),   //#C05 C18 C07 C08 C09
//@end
//@@fn node.rs|trait|Node|descendants
ensures rem_d(ret) == self.pre(), w_d(ret) <= dw(*self),
decreases ht(*self), 0int
//@pre
broadcast use {lemma_flat4};
//@end
//@@fn node.rs|trait|Node|subdivide
requires old(self).depth < 255,
ensures final(self).same(*old(self)), final(self).children == old(self).children, final(self).nodes is Some,
    final(self).children@.len() == 0 && old(self).depth < old(self).max_depth ==> final(self).inv(),
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).inv() && final(self).nodes->0@[i].nodes is None && final(self).nodes->0@[i].ms() == Multiset::<D>::empty(),
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).depth == old(self).depth + 1 && final(self).nodes->0@[i].max_depth == old(self).max_depth && final(self).nodes->0@[i].max_children == old(self).max_children,    //#+C04 C18
    forall|i: int| 0 <= i < 4 ==> (#[trigger] final(self).nodes->0@[i]).bounds == quad(old(self).bounds, i),    //#C05 C18 C07 C08 C09
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|insert
requires old(self).inv(),
ensures
    ret is Ok,
    final(self).inv(),                                      //#+C04 C18 C05 C07 C08 C09
    final(self).same(*old(self)),
    old(self).full() ==> final(self).full(),                //#C04 C10
    old(self).nodes is Some ==> final(self).nodes is Some,
    final(self).ms() =~= old(self).ms().insert($1),         //#C02 C04 C05 C07 C08 C09 C10
    final(self).nodes is Some <==> (old(self).nodes is Some || (old(self).children@.len() >= old(self).max_children && old(self).depth < old(self).max_depth)),   //#C04
decreases (if old(self).max_depth >= old(self).depth { old(self).max_depth - old(self).depth } else { 0 }), (if old(self).nodes is None { 1int } else { 0 })
//@before 0
let ghost __m0 = self.ms().add(__it0.rem().to_multiset());    //#C02 C04 C05 C07 C08 C09 C10
//@loop 0
invariant_except_break
    self.inv(), self.same(*old(self)), self.nodes is Some,
    self.ms().add(__it0.rem().to_multiset()) =~= __m0,    //#C02 C04 C05 C07 C08 C09 C10
    old(self).depth < old(self).max_depth, old(self).nodes is None,
ensures self.inv(), self.same(*old(self)), self.nodes is Some,
    self.ms() =~= __m0,                                   //#C02 C04 C05 C07 C08 C09 C10
decreases __it0.rem().len()
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Node<D,T>|retrieve
ensures
    rem_d(ret) == self.leaf(at(*$1)),      //#C05
decreases self
//@end
}
//@@include iter_code.vs
impl PointQuadTree {
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>||private_new
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == (if $3 is Some { $3->0 } else { 4 }), ret.root.max_children == (if $4 is Some { $4->0 } else { 4 }),   //#C04
//@end
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>||new
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == $3, ret.root.max_children == $4,   //#C04
//@end
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>||from_bounds
ensures ret.wf(), ret.root.bounds == $1, ret.root.pre() == Seq::<D>::empty(),
    ret.root.max_depth == 4, ret.root.max_children == 4,   //#C04
//@end
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTree<D,T>|size
ensures
    ret == self.size,    //#C02
//@end
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTree<D,T>|insert
requires old(self).wf(), old(self).size < usize::MAX,
ensures
    ret is Ok <==> inr(old(self).root.bounds, at($1)),            //#C01 C02 C07 C08 C09
    ret is Err ==> ret->Err_0 is OutOfBounds,                     //#C01
    final(self).wf(),
    final(self).root.bounds == old(self).root.bounds,
    final(self).root.same(old(self).root),                         //#C04
    ret is Ok ==> final(self).root.ms() =~= old(self).root.ms().insert($1) && final(self).size == old(self).size + 1,    //#C02 C07 C08 C09 C10
    ret is Err ==> final(self).root == old(self).root && final(self).size == old(self).size,    //#C02 C07 C08 C09 C10
//@end
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTree<D,T>|retrieve
ensures
    rem_d(ret) == (if inr(self.root.bounds, at(*$1)) { self.root.leaf(at(*$1)) } else { Seq::empty() }),    //#C05
//@end
//@@fn quadtrees/point/mod.rs|&'aPointQuadTree<D,T>|IntoIterator|into_iter as into_iter_ref
//@recv &self
//@ret DatumIter<'_>
ensures
    rem_d(ret) == self.root.pre(),     //#C02 C03
//@end
}
//@@include search_code.vs
impl PointQuadTree {
//#C07 C08 C09 C10{
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTreeSearch<D,T>|calc_method
ensures ret == self.calc_method,
//@end
//#}
//#C07 C10{
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTreeSearch<D,T>|find_r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C07
ensures
    find_pre(calc(*$1, self.calc_method), *self, ret),                        //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && ret is Err ==> ret->Err_0 is NoneInRadius,    //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) && !nan($2) ==> find_post(calc(*$1, self.calc_method), self.root.ms(), $2, ret),   //#C07
//@ghost
let ghost __c = calc(*$1, self.calc_method);
let ghost __all = self.root.ms();
let ghost __ex = exist2(__c, self.root);
let ghost __pr = prunes(__c) && !nan($2);
proof { lemma_settled_0(__c, __all, false, $2); }
broadcast use {lemma_sms_push, lemma_swt_pos, lemma_sgood_push, lemma_scells_push, lemma_add_empty, lemma_empty_add, lemma_wt_pos};
//@loop 0
invariant_except_break
    gc(cmp) == __c,
    sgood(stack@), subms(sms(stack@), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@), found(min_item), min_dist),     //#C07
    unfound(min_item),
ensures
    unfound(min_item),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && (found(min_item) ==> atleast(__c, __all, min_dist)) && (!found(min_item) ==> beyond(__c, __all, $2)),     //#C07
decreases swt(stack@)
//@body 0
let ghost __w = swt(stack@);
proof {
    if stack@.len() > 0 {
        lemma_s_pop(__c, stack@);
        let n = *stack@.last();
        let rest = sms(stack@.drop_last());
        lemma_ms(n);
        lemma_subms_parts(sms(stack@), rest, n.ms(), __all);
        lemma_facts(__c, n);
        if n.nodes is Some { lemma_good(n); assert(kpart(n, 4) =~= kms(n)); }
        //#C07{
        if __ex && __pr && lt(min_dist, bv(__c, n.bounds)) { lemma_settle_cell(__c, __all, rest, n, found(min_item), min_dist); }
        //#}
        assert(n.ms() =~= kms(n).add(n.own().to_multiset()));
        assert(rest.add(n.ms()) =~= rest.add(kms(n)).add(n.own().to_multiset()));
    }
    //#C07{
    else if __ex && __pr { lemma_settled_end(__c, __all, min_item, min_dist, $2); }
    //#}
}
//@loop 1
invariant_except_break
    subms(sms(stack@).add(kms(*node)).add(rem_d(__it1).to_multiset()), __all),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kms(*node)).add(rem_d(__it1).to_multiset()), found(min_item), min_dist),     //#C07
    unfound(min_item),
ensures
    unfound(min_item),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kms(*node)), found(min_item), min_dist),     //#C07
decreases rem_d(__it1).len()
//@body 1
proof {
    let s = rem_d(__it1);
    let base = sms(stack@).add(kms(*node));
    if s.len() > 0 {
        lemma_skip1(s);
        lemma_subms_skip(base, s, __all);
        if __ex { lemma_data_at(__c, __all, base.add(s.to_multiset()), s[0]); lemma_box(__c, __all, s[0]); }
        //#C07{
        if __ex && __pr { lemma_box2(__c, __all, s[0], self.root.bounds); lemma_settle_datum(__c, __all, base, s, found(min_item), min_dist); }
        //#}
    } else { assert(base.add(s.to_multiset()) =~= base); }
}
//@loop 2
invariant
    sgood(stack@), subms(sms(stack@).add(kpart(*node, 4 - i)), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(kpart(*node, 4 - i)), found(min_item), min_dist),     //#C07
    unfound(min_item),
    swt(stack@) + kpwt(*node, 4 - i) < __w,
//@body 2
proof {
    let b = node.nodes->0@;
    assert(sms(stack@).add(kpart(*node, 4 - i)) =~= sms(stack@).add(b[3 - i].ms()).add(kpart(*node, 3 - i)));
}
//@loop 2 each
invariant_except_break
    unfound(min_item),
    rowgood(__it2.rem()), __ex ==> rowcells(__c, __it2.rem()),
    sgood(stack@), subms(sms(stack@).add(nms(__it2.rem())), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@).add(nms(__it2.rem())), found(min_item), min_dist),     //#C07
    swt(stack@) + nwt(__it2.rem()) < __w,
ensures
    unfound(min_item),
    sgood(stack@), subms(sms(stack@), __all),
    __ex ==> scells(__c, stack@),
    __ex && __pr ==> held(__c, __all, min_item, min_dist, $2) && settled(__c, __all, sms(stack@), found(min_item), min_dist),     //#C07
    swt(stack@) < __w,
decreases __it2.rem().len()
//@body 2 each
proof {
    let q = __it2.rem();
    lemma_row(__c, q);
    if q.len() > 0 { assert(sms(stack@).add(nms(q)) =~= sms(stack@).add(q[0].ms()).add(nms(q.skip(1)))); }
}
//@end
//@@fn quadtrees/mod.rs|trait|QuadTreeSearch|find
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C07
ensures
    find_pre(calc(*$1, self.calc_method), *self, ret),                        //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && ret is Err ==> ret->Err_0 is NoneInRadius,    //#C10
    find_ok(calc(*$1, self.calc_method), *self) && exist2(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) ==> find_post(calc(*$1, self.calc_method), self.root.ms(), inf(), ret),   //#C07
//@ghost
broadcast use axiom_inf_nan;
//@end
//#}
//#C08 C10{
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTreeSearch<D,T>|knn_r
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C08
ensures
    knn_pre(calc(*$1, self.calc_method), self.root.bounds, self.root.ms(), ret),                    //#C10
    knn_all(self.root.ms(), $2 as int, $3, ret),                    //#C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) ==> ret is Ok,   //#C08 C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) && !nan($3) ==> knn_post(calc(*$1, self.calc_method), self.root.ms(), $2 as int, $3, ret->Ok_0@),     //#C08
//@end
//@@fn quadtrees/mod.rs|trait|QuadTreeSearch|knn
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C08
ensures
    knn_pre(calc(*$1, self.calc_method), self.root.bounds, self.root.ms(), ret),                    //#C10
    knn_all(self.root.ms(), $2 as int, inf(), ret),                    //#C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) ==> ret is Ok,   //#C08 C10
    inside(calc(*$1, self.calc_method), self.root.bounds) && exist(calc(*$1, self.calc_method), self.root) && prunes(calc(*$1, self.calc_method)) ==> knn_post(calc(*$1, self.calc_method), self.root.ms(), $2 as int, inf(), ret->Ok_0@),     //#C08
//@ghost
broadcast use {axiom_inf_nan, axiom_inf};
//@end
//#}
//#C09 C10{
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|QuadTreeSearch<D,T>|sorted
requires self.wf(),
    okr(self.root.bounds), span(self.root.bounds),     //#C09
ensures sok(ret), gc(ret.cmp) == calc(*$1, self.calc_method),
    !inside(calc(*$1, self.calc_method), self.root.bounds) ==> ret.stack@.len() == 0,
    inside(calc(*$1, self.calc_method), self.root.bounds) && cells(calc(*$1, self.calc_method), self.root) ==> clear(ret) && todo(ret) == fok(calc(*$1, self.calc_method), self.root.ms()),      //#C09
//@end
//#}
}
//#C20{
impl Nd {
//@@fn node.rs|trait|Node|display
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@strings "" " " "(" ", " "):" " 1 child" " children" "\n"
ensures wrote(*old($1), *final($1), ret, printed(out(*old($1)), *self)),
decreases self
//@ghost
broadcast use {lemma_rows4, lemma_rows_at, lemma_times, lemma_padded, axiom_dec, lemma_put_cat, lemma_put_put, lemma_put_nil};
//@loop 0
invariant
    fallible(*$1) == fallible(*old($1)),
    self.nodes is Some, forall|k: int| 0 <= k < 4 ==> decreases_to!(*self => #[trigger] self.nodes->0@[k]),
    rows(out(*$1), self.nodes->0@.skip(i as int)) == printed(out(*old($1)), *self),
//@loop 0 each
invariant_except_break
    fallible(*$1) == fallible(*old($1)),
    rows(out(*$1), __it0.rem()) == printed(out(*old($1)), *self),
    self.nodes is Some, forall|i: int| 0 <= i < __it0.rem().len() ==> decreases_to!(*self => #[trigger] __it0.rem()[i]),
ensures fallible(*$1) == fallible(*old($1)), out(*$1) == printed(out(*old($1)), *self),
decreases __it0.rem().len()
//@end
//@@fn quadtrees/point/node.rs|PointNode<D,T>|Display|fmt
ensures wrote(*old($1), *final($1), ret, printed(out(*old($1)), *self)),
//@ghost
broadcast use {lemma_put_nil};
//@end
}
impl PointQuadTree {
//@@fn quadtrees/point/mod.rs|PointQuadTree<D,T>|std::fmt::Display|fmt
//@strings "" "Point Quadtree Root:\n"
ensures wrote(*old($1), *final($1), ret, printed(put(out(*old($1)), "Point Quadtree Root:\n"@), self.root)),
//@ghost
broadcast use {lemma_put_cat, lemma_put_put, lemma_put_nil};
//@end
}
//#}
}
