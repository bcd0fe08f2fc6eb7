//@@config geo.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_geo.vs
//@@include num.vs
//@@include real.vs
//@@include shapes_geo.vs
//#C11{
//@@include edist.vs
pub trait DistEuclidean<Rhs: Shp>: Shp { fn dist_euclidean(&self, rhs: &Rhs) -> (ret: T) ensures is_de(self.sh(), rhs.sh(), ret); }
//#}
//#C12 C13 C14 C15 C19{
// ---------------------------------------------------------------- the spherical formulas (what they compute: C13, C14, C15, C19)
pub uninterp spec fn h_pp(a: Coord, b: Coord) -> T;
pub uninterp spec fn h_pl(a: Coord, b: Coord, c: Coord) -> T;
pub uninterp spec fn h_ps(a: Coord, b: Seq<Coord>) -> T;
pub uninterp spec fn h_pg(a: Coord, e: Seq<Coord>, i: Seq<Seq<Coord>>) -> T;
pub uninterp spec fn h_pr(a: Coord, r: Rect) -> T;
pub uninterp spec fn h_rr(a: Rect, r: Rect) -> T;
#[verifier::external_body]
pub fn dist_pt_pt(a: &Point, b: &Point) -> (r: T) ensures r == h_pp(a.0, b.0) { unimplemented!() }
#[verifier::external_body]
pub fn dist_pt_line(a: &Point, b: &Line) -> (r: T) ensures r == h_pl(a.0, b.start, b.end) { unimplemented!() }
#[verifier::external_body]
pub fn dist_pt_linestring(a: &Point, b: &LineString) -> (r: T) ensures r == h_ps(a.0, b.0@) { unimplemented!() }
#[verifier::external_body]
pub fn dist_pt_poly(a: &Point, b: &Polygon) -> (r: T) ensures r == h_pg(a.0, b.xs().0@, rings(b.is()@)) { unimplemented!() }
#[verifier::external_body]
pub fn dist_pt_rect(a: &Point, b: &Rect) -> (r: T) ensures r == h_pr(a.0, *b) { unimplemented!() }
#[verifier::external_body]
pub fn dist_rect_rect(a: &Rect, b: &Rect) -> (r: T) ensures r == h_rr(*a, *b) { unimplemented!() }
// which of the two is the point
pub open spec fn h_p(p: Coord, b: Sh) -> T {
    match b { Sh::Pt(q) => h_pp(p, q), Sh::Ln(s, e) => h_pl(p, s, e), Sh::Ls(s) => h_ps(p, s), Sh::Pg(e, i) => h_pg(p, e, i), Sh::Rc(r) => h_pr(p, r) }
}
// C13, C14, C15 and C19 are about one kind of pair each: there the functions people call must hand the shapes to the formula
// that the contracts of that property are about
pub open spec fn is_dh(a: Sh, b: Sh, x: Result<T, Error>) -> bool {
    match (a, b) {
        (Sh::Pt(p), Sh::Pt(q)) => x == Ok::<T, Error>(h_pp(p, q)) || x == Ok::<T, Error>(h_pp(q, p)),       //#C12 C15
        (Sh::Pt(p), Sh::Pt(q)) => true,                                                                    //#C13 C14 C19
        (Sh::Pt(p), Sh::Rc(r)) => x == Ok::<T, Error>(h_p(p, b)),                                          //#C12 C14
        (Sh::Pt(p), Sh::Rc(r)) => true,                                                                    //#C13 C15 C19
        (Sh::Rc(r), Sh::Pt(p)) => x == Ok::<T, Error>(h_p(p, a)),                                          //#C12 C14
        (Sh::Rc(r), Sh::Pt(p)) => true,                                                                    //#C13 C15 C19
        (Sh::Pt(p), _) => x == Ok::<T, Error>(h_p(p, b)),                                                  //#C12 C13
        (_, Sh::Pt(p)) => x == Ok::<T, Error>(h_p(p, a)),                                                  //#C12 C13
        (Sh::Rc(r), Sh::Rc(s)) => x == Ok::<T, Error>(h_rr(r, s)) || x == Ok::<T, Error>(h_rr(s, r)),       //#C12 C19
        (Sh::Rc(r), Sh::Rc(s)) => true,                                                                    //#C13 C14 C15
        _ => x == Err::<T, Error>(Error::InvalidDistance),                                                 //#C12
        _ => true,                                                                                         //#C13 C14 C15 C19
    }
}
pub trait DistHaversine<Rhs: Shp>: Shp { fn dist_haversine(&self, rhs: &Rhs) -> (ret: Result<T, Error>) ensures is_dh(self.sh(), rhs.sh(), ret); }
//#}
//#C16{
// ---------------------------------------------------------------- degrees to radians
// ASSUMPTION: the float's own to_radians multiplies by pi/180
pub uninterp spec fn rad(a: T) -> T;
pub open spec fn crad(c: Coord) -> Coord { Coord { x: rad(c.x), y: rad(c.y) } }
pub open spec fn rads(s: Seq<Coord>) -> Seq<Coord> { Seq::new(s.len(), |i: int| crad(s[i])) }
pub open spec fn rrads(s: Seq<Seq<Coord>>) -> Seq<Seq<Coord>> { Seq::new(s.len(), |i: int| rads(s[i])) }
pub open spec fn is_rad(a: Sh, b: Sh) -> bool {
    match a {
        Sh::Pt(p) => b == Sh::Pt(crad(p)),
        Sh::Ln(s, e) => b == Sh::Ln(crad(s), crad(e)),
        Sh::Ls(s) => b is Ls && b->Ls_0 =~= rads(s),
        Sh::Pg(e, i) => b is Pg && b->Pg_0 =~= rads(e) && b->Pg_1 == rrads(i),
        Sh::Rc(r) => b is Rc && (rnum2(r) ==> reqv(b->Rc_0, Rect { mn: crad(r.mn), mx: crad(r.mx) })) && b->Rc_0 == rnew(crad(r.mn), crad(r.mx)),
    }
}
pub open spec fn rnum2(r: Rect) -> bool { le(r.mn.x, r.mx.x) && le(r.mn.y, r.mx.y) }
// ASSUMPTION: converting keeps the order
pub broadcast axiom fn axiom_rad(a: T, b: T) requires le(a, b) ensures #![trigger rad(a), rad(b)] le(rad(a), rad(b));
impl T { #[verifier::external_body] pub fn to_radians(self) -> (r: T) ensures r == rad(self) { unimplemented!() } }
// geo's map_coords: the function is applied to every position, the structure is kept
pub open spec fn img<F: Fn(Coord) -> Coord>(f: F, a: Seq<Coord>, b: Seq<Coord>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> f.ensures((#[trigger] a[i],), b[i]) }
pub open spec fn img2<F: Fn(Coord) -> Coord>(f: F, a: Seq<Seq<Coord>>, b: Seq<Seq<Coord>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> img(f, #[trigger] a[i], b[i]) }
pub open spec fn isrf<F: Fn(Coord) -> Coord>(f: F) -> bool { forall|c: Coord, d: Coord| #[trigger] f.ensures((c,), d) ==> d == crad(c) }
pub proof fn lemma_img<F: Fn(Coord) -> Coord>(f: F, a: Seq<Coord>, b: Seq<Coord>) requires #[trigger] img(f, a, b), isrf(f) ensures b == rads(a)
{ assert forall|i: int| 0 <= i < a.len() implies b[i] == crad(a[i]) by { assert(f.ensures((a[i],), b[i])); } assert(b =~= rads(a)); }
pub proof fn lemma_img2<F: Fn(Coord) -> Coord>(f: F, a: Seq<Seq<Coord>>, b: Seq<Seq<Coord>>) requires #[trigger] img2(f, a, b), isrf(f) ensures b == rrads(a)
{ assert forall|i: int| 0 <= i < a.len() implies b[i] == rads(a[i]) by { assert(img(f, a[i], b[i])); lemma_img(f, a[i], b[i]); } assert(b =~= rrads(a)); }
impl LineString {
    #[verifier::external_body]
    pub fn map_coords<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: LineString) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, self.0@, r.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_coords_in_place<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, old(self).0@, final(self).0@) { unimplemented!() }
}
impl Polygon {
    #[verifier::external_body]
    pub fn map_coords_<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: Polygon) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, self.xs().0@, r.xs().0@), img2(f, rings(self.is()@), rings(r.is()@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_coords_in_place_<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, old(self).xs().0@, final(self).xs().0@), img2(f, rings(old(self).is()@), rings(final(self).is()@)) { unimplemented!() }
    // (what follows for a function that converts; the lemmas do not fire by themselves on a function item)
    pub fn map_coords<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: Polygon) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, self.xs().0@, r.xs().0@), img2(f, rings(self.is()@), rings(r.is()@)), isrf(f) ==> r.xs().0@ == rads(self.xs().0@) && rings(r.is()@) == rrads(rings(self.is()@)) {
        let ghost g = f;
        let r = self.map_coords_(f);
        proof { if isrf(g) { lemma_img(g, self.xs().0@, r.xs().0@); lemma_img2(g, rings(self.is()@), rings(r.is()@)); } }
        r
    }
    pub fn map_coords_in_place<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures img(f, old(self).xs().0@, final(self).xs().0@), img2(f, rings(old(self).is()@), rings(final(self).is()@)), isrf(f) ==> final(self).xs().0@ == rads(old(self).xs().0@) && rings(final(self).is()@) == rrads(rings(old(self).is()@)) {
        let ghost g = f;
        let ghost p = *self;
        self.map_coords_in_place_(f);
        proof { if isrf(g) { lemma_img(g, p.xs().0@, self.xs().0@); lemma_img2(g, rings(p.is()@), rings(self.is()@)); } }
    }
}
impl Line {
    #[verifier::external_body]
    pub fn map_coords<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: Line) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures f.ensures((self.start,), r.start), f.ensures((self.end,), r.end) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_coords_in_place<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures f.ensures((old(self).start,), final(self).start), f.ensures((old(self).end,), final(self).end) { unimplemented!() }
}
impl Point {
    #[verifier::external_body]
    pub fn map_coords<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: Point) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures f.ensures((self.0,), r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_coords_in_place<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures f.ensures((old(self).0,), final(self).0) { unimplemented!() }
}
impl Rect {
    #[verifier::external_body]
    pub fn map_coords<F: Fn(Coord) -> Coord>(&self, f: F) -> (r: Rect) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures exists|a: Coord, b: Coord| f.ensures((self.mn,), a) && f.ensures((self.mx,), b) && r == rnew(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn map_coords_in_place<F: Fn(Coord) -> Coord>(&mut self, f: F) requires forall|c: Coord| #[trigger] f.requires((c,)) ensures exists|a: Coord, b: Coord| f.ensures((old(self).mn,), a) && f.ensures((old(self).mx,), b) && *final(self) == rnew(a, b) { unimplemented!() }
}
pub trait ToRadians: Shp + Sized {
    fn to_radians(&self) -> (ret: Self) ensures is_rad(self.sh(), ret.sh());
    fn to_radians_in_place(&mut self) ensures is_rad(old(self).sh(), final(self).sh());
}
// the two forms agree
pub proof fn lemma_rad_same(a: Sh, b: Sh, c: Sh) requires is_rad(a, b), is_rad(a, c) ensures b == c
{ }
//#}
//#C17{
// ---------------------------------------------------------------- conversions, bounding boxes
pub struct MultiPoint(pub Vec<Point>); pub struct MultiLineString(pub Vec<LineString>); pub struct MultiPolygon(pub Vec<Polygon>); pub struct GeometryCollection(pub Vec<GeoGeometry>); pub struct Triangle(pub Coord, pub Coord, pub Coord);
pub enum GeoGeometry { Point(Point), Line(Line), LineString(LineString), Polygon(Polygon), MultiPoint(MultiPoint), MultiLineString(MultiLineString), MultiPolygon(MultiPolygon), GeometryCollection(GeometryCollection), Rect(Rect), Triangle(Triangle) }
// ASSUMPTION geo: bounding_rect of each of geo's shapes
pub uninterp spec fn brect(s: Seq<Coord>) -> Option<Rect>;
// the smallest rectangle around some positions, none if there are none
pub axiom fn axiom_brect(s: Seq<Coord>) ensures brect(s) is None <==> s.len() == 0;
pub open spec fn sbr(s: Sh) -> Option<Rect> {
    match s { Sh::Pt(p) => Some(rnew(p, p)), Sh::Ln(a, b) => Some(rnew(a, b)), Sh::Ls(s) => brect(s), Sh::Pg(e, i) => brect(e), Sh::Rc(r) => Some(r) }
}
impl Point { #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Rect) ensures r == rnew(self.0, self.0) { unimplemented!() } }
impl Line { #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Rect) ensures r == rnew(self.start, self.end) { unimplemented!() } }
impl LineString { #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Option<Rect>) ensures r == brect(self.0@) { unimplemented!() } }
impl Polygon { #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Option<Rect>) ensures r == brect(self.xs().0@) { unimplemented!() } }
impl Rect { #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Rect) ensures r == *self { unimplemented!() } }
pub trait QtConv: Sized + Shp { fn qt_conv(self) -> (r: Geometry) ensures r.sh() == self.sh(); }
//#}
}
mod code {
use super::sp::*;
//@@include prelude_geo.vs
broadcast use {group_real, axiom_rad}; //#C16
broadcast use {group_real}; //#!C16
//#C11 C12 C13 C14 C15 C19 C17{
pub trait AsGeom: Shp { fn as_geom(&self) -> (ret: GeometryRef<'_>) ensures ret.sh() == self.sh(); }
impl AsGeom for Point {
//@@fn geom/mod.rs|Point<T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl AsGeom for Line {
//@@fn geom/mod.rs|Line<T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl AsGeom for LineString {
//@@fn geom/mod.rs|LineString<T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl AsGeom for Polygon {
//@@fn geom/mod.rs|Polygon<T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl AsGeom for Rect {
//@@fn geom/mod.rs|Rect<T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl<'a> AsGeom for GeometryRef<'a> {
//@@fn geom/geometry.rs|GeometryRef<'_,T>|AsGeom<T>|as_geom
//@impl
//@end
}
impl AsGeom for Geometry {
//@@fn geom/geometry.rs|Geometry<T>|AsGeom<T>|as_geom
//@impl
//@end
}
//#}
//#C11{
//@@fn geom/euclidean/math.rs|||dist_rect_rect
ensures is_de(Sh::Rc(*$1), Sh::Rc(*$2), ret),
//@ghost
broadcast use {lemma_hyp, lemma_sqnn};
proof { lemma_zsq(); lemma_sqneg(key($1.mx.x), key($2.mn.x)); lemma_sqneg(key($1.mn.x), key($2.mx.x)); lemma_sqneg(key($1.mx.y), key($2.mn.y)); lemma_sqneg(key($1.mn.y), key($2.mx.y)); }
//@end
//#}
//#C11{
impl<'b> DistEuclidean<GeometryRef<'b>> for Point {
//@@fn geom/euclidean/dist.rs|Point<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for Point {
//@@fn geom/euclidean/dist.rs|Point<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'b> DistEuclidean<GeometryRef<'b>> for Line {
//@@fn geom/euclidean/dist.rs|Line<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for Line {
//@@fn geom/euclidean/dist.rs|Line<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'b> DistEuclidean<GeometryRef<'b>> for LineString {
//@@fn geom/euclidean/dist.rs|LineString<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for LineString {
//@@fn geom/euclidean/dist.rs|LineString<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'b> DistEuclidean<GeometryRef<'b>> for Polygon {
//@@fn geom/euclidean/dist.rs|Polygon<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for Polygon {
//@@fn geom/euclidean/dist.rs|Polygon<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'b> DistEuclidean<GeometryRef<'b>> for Rect {
//@@fn geom/euclidean/dist.rs|Rect<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for Rect {
//@@fn geom/euclidean/dist.rs|Rect<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'a, 'b> DistEuclidean<GeometryRef<'b>> for GeometryRef<'a> {
//@@fn geom/euclidean/dist.rs|GeometryRef<'_,T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl<'a> DistEuclidean<Geometry> for GeometryRef<'a> {
//@@fn geom/euclidean/dist.rs|GeometryRef<'_,T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
impl<'b> DistEuclidean<GeometryRef<'b>> for Geometry {
//@@fn geom/euclidean/dist.rs|Geometry<T>|DistEuclidean<T,GeometryRef<'_,T>>|dist_euclidean
//@impl
//@end
}
impl DistEuclidean<Geometry> for Geometry {
//@@fn geom/euclidean/dist.rs|Geometry<T>|DistEuclidean<T,Geometry<T>>|dist_euclidean
//@impl
//@end
}
//#}
//#C12 C13 C14 C15 C19{
impl<'b> DistHaversine<GeometryRef<'b>> for Point {
//@@fn geom/spherical/dist.rs|Point<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for Point {
//@@fn geom/spherical/dist.rs|Point<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'b> DistHaversine<GeometryRef<'b>> for Line {
//@@fn geom/spherical/dist.rs|Line<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for Line {
//@@fn geom/spherical/dist.rs|Line<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'b> DistHaversine<GeometryRef<'b>> for LineString {
//@@fn geom/spherical/dist.rs|LineString<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for LineString {
//@@fn geom/spherical/dist.rs|LineString<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'b> DistHaversine<GeometryRef<'b>> for Polygon {
//@@fn geom/spherical/dist.rs|Polygon<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for Polygon {
//@@fn geom/spherical/dist.rs|Polygon<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'b> DistHaversine<GeometryRef<'b>> for Rect {
//@@fn geom/spherical/dist.rs|Rect<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for Rect {
//@@fn geom/spherical/dist.rs|Rect<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'a, 'b> DistHaversine<GeometryRef<'b>> for GeometryRef<'a> {
//@@fn geom/spherical/dist.rs|GeometryRef<'_,T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl<'a> DistHaversine<Geometry> for GeometryRef<'a> {
//@@fn geom/spherical/dist.rs|GeometryRef<'_,T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
impl<'b> DistHaversine<GeometryRef<'b>> for Geometry {
//@@fn geom/spherical/dist.rs|Geometry<T>|DistHaversine<T,GeometryRef<'_,T>>|dist_haversine
//@impl
//@end
}
impl DistHaversine<Geometry> for Geometry {
//@@fn geom/spherical/dist.rs|Geometry<T>|DistHaversine<T,Geometry<T>>|dist_haversine
//@impl
//@end
}
//#}
//#C11 C12 C13 C14 C15 C19{
//@@type geom/mod.rs|GeomCalc
impl<'x> GeomCalc<'x> {
//@@fn geom/mod.rs|GeomCalc<'_,T>||dist_geom
ensures
    self.method is Euclidean ==> ret is Ok && is_de(self.geom.sh(), $1.sh(), ret->Ok_0),     //#C11
    self.method is Spherical ==> is_dh(self.geom.sh(), $1.sh(), ret),                        //#C12 C13 C14 C15 C19
//@end
//@@fn geom/mod.rs|GeomCalc<'_,T>||dist_bbox
ensures
    self.method is Euclidean ==> ret is Ok && is_de(Sh::Rc(*$1), self.geom.sh(), ret->Ok_0),     //#C11
    self.method is Spherical ==> is_dh(Sh::Rc(*$1), self.geom.sh(), ret),                        //#C12 C13 C14 C15 C19
//@end
}
//#}
//#C12 C13 C14 C15 C19{
impl<'x> GeometryRef<'x> { #[verifier::external_body] pub fn dist_euclidean(&self, g: &GeometryRef<'_>) -> (r: T) { unimplemented!() } }
impl Rect { #[verifier::external_body] pub fn dist_euclidean(&self, g: &GeometryRef<'_>) -> (r: T) { unimplemented!() } }
//#}
//#C11{
impl<'x> GeometryRef<'x> { #[verifier::external_body] pub fn dist_haversine(&self, g: &GeometryRef<'_>) -> (r: Result<T, Error>) { unimplemented!() } }
impl Rect { #[verifier::external_body] pub fn dist_haversine(&self, g: &GeometryRef<'_>) -> (r: Result<T, Error>) { unimplemented!() } }
//#}
//#C16{
//@@fn geom/spherical/to_radians.rs|||coord_to_radians
ensures ret == crad($1),
//@end
impl ToRadians for Point {
//@@fn geom/spherical/to_radians.rs|Point<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|Point<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
impl ToRadians for Line {
//@@fn geom/spherical/to_radians.rs|Line<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|Line<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
impl ToRadians for LineString {
//@@fn geom/spherical/to_radians.rs|LineString<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|LineString<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
impl ToRadians for Polygon {
//@@fn geom/spherical/to_radians.rs|Polygon<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|Polygon<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
impl ToRadians for Rect {
//@@fn geom/spherical/to_radians.rs|Rect<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|Rect<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
impl ToRadians for Geometry {
//@@fn geom/spherical/to_radians.rs|Geometry<T>|ToRadians<T>|to_radians
//@impl
//@end
//@@fn geom/spherical/to_radians.rs|Geometry<T>|ToRadians<T>|to_radians_in_place
//@impl
//@end
}
//#}
//#C17{
impl Geometry {
//@@fn geom/geometry.rs|Geometry<T>|From<Point<T>>|from as from_point
ensures ret.sh() == $1.sh(),
//@end
//@@fn geom/geometry.rs|Geometry<T>|From<Line<T>>|from as from_line
ensures ret.sh() == $1.sh(),
//@end
//@@fn geom/geometry.rs|Geometry<T>|From<LineString<T>>|from as from_linestring
ensures ret.sh() == $1.sh(),
//@end
//@@fn geom/geometry.rs|Geometry<T>|From<Polygon<T>>|from as from_polygon
ensures ret.sh() == $1.sh(),
//@end
//@@fn geom/geometry.rs|Geometry<T>|From<Rect<T>>|from as from_rect
ensures ret.sh() == $1.sh(),
//@end
//@@fn geom/geometry.rs|Geometry<T>|TryFrom<geo::Geometry<T>>|try_from
ensures match $1 {
    GeoGeometry::Point(d) => ret is Ok && ret->Ok_0.sh() == d.sh(),
    GeoGeometry::Line(d) => ret is Ok && ret->Ok_0.sh() == d.sh(),
    GeoGeometry::LineString(d) => ret is Ok && ret->Ok_0.sh() == d.sh(),
    GeoGeometry::Polygon(d) => ret is Ok && ret->Ok_0.sh() == d.sh(),
    GeoGeometry::Rect(d) => ret is Ok && ret->Ok_0.sh() == d.sh(),
    _ => ret is Err && ret->Err_0 is UnsupportedGeometry,
},
//@end
//@@fn geom/geometry.rs|Geometry<T>|BoundingRect<T>|bounding_rect
//@ret Option<Rect>
ensures ret == sbr(self.sh()),
//@end
}
impl<'a> GeometryRef<'a> {
//@@fn geom/geometry.rs|GeometryRef<'_,T>|BoundingRect<T>|bounding_rect
//@ret Option<Rect>
ensures ret == sbr(self.sh()),
//@end
}
impl QtConv for Point { fn qt_conv(self) -> Geometry { Geometry::from_point(self) } }
impl QtConv for Line { fn qt_conv(self) -> Geometry { Geometry::from_line(self) } }
impl QtConv for LineString { fn qt_conv(self) -> Geometry { Geometry::from_linestring(self) } }
impl QtConv for Polygon { fn qt_conv(self) -> Geometry { Geometry::from_polygon(self) } }
impl QtConv for Rect { fn qt_conv(self) -> Geometry { Geometry::from_rect(self) } }
pub trait AsPoint: Shp { fn as_point(&self) -> (ret: Point) ensures ret.sh() == self.sh(); }
impl AsPoint for Coord {
//@@fn quadtrees/point/mod.rs|Coord<T>|AsPoint<T>|as_point
//@impl
//@end
}
impl AsPoint for Point {
//@@fn quadtrees/point/mod.rs|Point<T>|AsPoint<T>|as_point
//@impl
//@end
}
//#}
}
