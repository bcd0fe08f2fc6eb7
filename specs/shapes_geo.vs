// ---------------------------------------------------------------- geo's shapes
pub struct Line { pub start: Coord, pub end: Coord }
impl Clone for Line { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Line {}
impl Line {
    pub fn new(a: Coord, b: Coord) -> (r: Line) ensures r.start == a, r.end == b { Line { start: a, end: b } }
    pub fn start_point(&self) -> (r: Point) ensures r.0 == self.start { Point(self.start) }
    pub fn end_point(&self) -> (r: Point) ensures r.0 == self.end { Point(self.end) }
}
impl Point { pub fn qt_conv(self) -> (r: Coord) ensures r == self.0 { self.0 } } //#!C17
impl Coord { pub fn qt_conv(self) -> (r: Point) ensures r.0 == self { Point(self) } }
impl Point { pub fn from(c: Coord) -> (r: Point) ensures r.0 == c { Point(c) } }
pub struct LineString(pub Vec<Coord>);
pub struct Polygon { ext: LineString, ints: Vec<LineString> }
impl Polygon {
    pub closed spec fn xs(&self) -> LineString { self.ext }
    pub closed spec fn is(&self) -> Vec<LineString> { self.ints }
    pub fn exterior(&self) -> (r: &LineString) ensures *r == self.xs() { &self.ext }
    pub fn interiors(&self) -> (r: &Vec<LineString>) ensures *r == self.is() { &self.ints }
}
pub open spec fn segs(s: Seq<Coord>) -> Seq<Line> { Seq::new((if s.len() == 0 { 0 } else { s.len() - 1 }) as nat, |i: int| Line { start: s[i], end: s[i + 1] }) }
pub open spec fn closed(s: Seq<Coord>) -> bool { s.len() == 0 || ceqv(s[0], s.last()) }
impl LineString {
    // ASSUMPTION geo: the segments of a linestring join its positions one after the other
    #[verifier::external_body]
    pub fn lines(&self) -> (r: VecIt<Line>) ensures r.rem() == segs(self.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn coords(&self) -> (r: Iter<'_, Coord>) ensures r.rem() == self.0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn points(&self) -> (r: VecIt<Point>) ensures r.rem() == Seq::new(self.0@.len(), |i: int| Point(self.0@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == closed(self.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures final(self).0@ == (if closed(old(self).0@) { old(self).0@ } else { old(self).0@.push(old(self).0@[0]) }) { unimplemented!() }
    pub fn new(v: Vec<Coord>) -> (r: LineString) ensures r.0 == v { LineString(v) }
}
impl Line {
    pub fn dx(&self) -> (r: T) ensures r == sub(self.end.x, self.start.x) { self.end.x - self.start.x }
    pub fn dy(&self) -> (r: T) ensures r == sub(self.end.y, self.start.y) { self.end.y - self.start.y }
}
impl PartialEqSpecImpl for Line {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Line) -> bool { ceqv(self.start, o.start) && ceqv(self.end, o.end) }
}
impl PartialEq for Line { #[verifier::external_body] fn eq(&self, o: &Line) -> (r: bool) { unimplemented!() } }
pub open spec fn seqv(a: Seq<Coord>, b: Seq<Coord>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> ceqv(#[trigger] a[i], b[i]) }
impl PartialEqSpecImpl for LineString {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LineString) -> bool { seqv(self.0@, o.0@) }
}
impl PartialEq for LineString { #[verifier::external_body] fn eq(&self, o: &LineString) -> (r: bool) { unimplemented!() } }
// a shape as a mathematical value
pub ghost enum Sh { Pt(Coord), Ln(Coord, Coord), Ls(Seq<Coord>), Pg(Seq<Coord>, Seq<Seq<Coord>>), Rc(Rect) }
pub open spec fn rings(v: Seq<LineString>) -> Seq<Seq<Coord>> { Seq::new(v.len(), |i: int| v[i].0@) }
pub trait Shp { spec fn sh(&self) -> Sh; }
impl Shp for Coord { open spec fn sh(&self) -> Sh { Sh::Pt(*self) } }
impl Shp for Point { open spec fn sh(&self) -> Sh { Sh::Pt(self.0) } }
impl Shp for Line { open spec fn sh(&self) -> Sh { Sh::Ln(self.start, self.end) } }
impl Shp for LineString { open spec fn sh(&self) -> Sh { Sh::Ls(self.0@) } }
impl Shp for Polygon { open spec fn sh(&self) -> Sh { Sh::Pg(self.xs().0@, rings(self.is()@)) } }
impl Shp for Rect { open spec fn sh(&self) -> Sh { Sh::Rc(*self) } }
impl<A: Shp> Shp for &A { open spec fn sh(&self) -> Sh { (**self).sh() } }
// a rectangle as a polygon
pub uninterp spec fn polyof(r: Rect) -> Sh;
impl Rect {
    #[verifier::external_body]
    pub fn to_polygon(&self) -> (r: Polygon) ensures r.sh() == polyof(*self) { unimplemented!() }
}
//@@type geom/geometry.rs|GeometryRef
impl<'a> Clone for GeometryRef<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Copy for GeometryRef<'a> {}
//@@type geom/geometry.rs|Geometry
impl<'a> Shp for GeometryRef<'a> {
    open spec fn sh(&self) -> Sh {
        match *self { GeometryRef::Point(d) => d.sh(), GeometryRef::Line(d) => d.sh(), GeometryRef::LineString(d) => d.sh(), GeometryRef::Polygon(d) => d.sh(), GeometryRef::Rect(d) => d.sh() }
    }
}
impl Shp for Geometry {
    open spec fn sh(&self) -> Sh {
        match *self { Geometry::Point(d) => d.sh(), Geometry::Line(d) => d.sh(), Geometry::LineString(d) => d.sh(), Geometry::Polygon(d) => d.sh(), Geometry::Rect(d) => d.sh() }
    }
}
