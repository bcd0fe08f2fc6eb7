//! Test scenes (a tree, a history of insert attempts, queries) and the reference model.
use crate::rng::Rng;
use geo::{coord, Coord, GeoNum, Line, LineString, Point, Polygon, Rect};
use num_traits_shim::FromF64;
use quadtree::{AsGeom, AsPoint, CalcMethod, Geometry, GeometryRef};

pub mod num_traits_shim {
    pub trait FromF64: Copy {
        fn of(x: f64) -> Self;
        fn to(self) -> f64;
    }
    impl FromF64 for f64 {
        fn of(x: f64) -> f64 {
            x
        }
        fn to(self) -> f64 {
            self
        }
    }
    impl FromF64 for f32 {
        fn of(x: f64) -> f32 {
            x as f32
        }
        fn to(self) -> f64 {
            self as f64
        }
    }
    impl FromF64 for i32 {
        fn of(x: f64) -> i32 {
            x as i32
        }
        fn to(self) -> f64 {
            self as f64
        }
    }
}

pub trait Num: GeoNum + FromF64 + std::fmt::Debug + std::fmt::Display + 'static {}
impl Num for f64 {}
impl Num for f32 {}
impl Num for i32 {}

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Pt([f64; 2]),
    Ln([f64; 4]),
    Ls(Vec<[f64; 2]>),
    Pg(Vec<[f64; 2]>, Vec<Vec<[f64; 2]>>),
    Rc([f64; 4]),
}

fn c<T: Num>(p: &[f64; 2]) -> Coord<T> {
    coord! {x: T::of(p[0]), y: T::of(p[1])}
}
fn ls<T: Num>(v: &[[f64; 2]]) -> LineString<T> {
    LineString::new(v.iter().map(c).collect())
}

impl G {
    pub fn geom<T: Num>(&self) -> Geometry<T> {
        match self {
            G::Pt(p) => Geometry::Point(Point(c(p))),
            G::Ln(l) => Geometry::Line(Line::new(c(&[l[0], l[1]]), c::<T>(&[l[2], l[3]]))),
            G::Ls(v) => Geometry::LineString(ls(v)),
            G::Pg(e, i) => Geometry::Polygon(Polygon::new(ls(e), i.iter().map(|r| ls(r)).collect())),
            G::Rc(l) => Geometry::Rect(Rect::new(c(&[l[0], l[1]]), c::<T>(&[l[2], l[3]]))),
        }
    }
    pub fn each(&mut self, f: &mut dyn FnMut(&mut [f64; 2])) {
        match self {
            G::Pt(p) => f(p),
            G::Ln(l) | G::Rc(l) => {
                let (mut a, mut b) = ([l[0], l[1]], [l[2], l[3]]);
                f(&mut a);
                f(&mut b);
                *l = [a[0], a[1], b[0], b[1]];
            }
            G::Ls(v) => v.iter_mut().for_each(f),
            G::Pg(e, h) => {
                e.iter_mut().for_each(&mut *f);
                h.iter_mut().flatten().for_each(f)
            }
        }
    }
    /// The true bounding box, computed here and not by the code under test.
    pub fn bbox<T: Num>(&self) -> Option<[T; 4]> {
        let pts: Vec<[f64; 2]> = match self {
            G::Pt(p) => vec![*p],
            G::Ln(l) | G::Rc(l) => vec![[l[0], l[1]], [l[2], l[3]]],
            G::Ls(v) => v.clone(),
            G::Pg(e, _) => e.clone(),
        };
        let mut it = pts.iter().map(|p| [T::of(p[0]), T::of(p[1])]);
        let f = it.next()?;
        let mut b = [f[0], f[1], f[0], f[1]];
        for p in it {
            for k in 0..2 {
                if p[k] < b[k] {
                    b[k] = p[k]
                }
                if p[k] > b[k + 2] {
                    b[k + 2] = p[k]
                }
            }
        }
        Some(b)
    }
}

/// What is stored: an id to tell data apart plus the geometry.
#[derive(Clone, Debug)]
pub struct Dat<T: GeoNum> {
    pub id: usize,
    pub g: Geometry<T>,
    pub p: Point<T>,
}
impl<T: GeoNum> AsGeom<T> for Dat<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.g.as_geom()
    }
}
impl<T: GeoNum> AsPoint<T> for Dat<T> {
    fn as_point(&self) -> Point<T> {
        self.p
    }
}
pub fn dat<T: Num>(id: usize, g: &G) -> Dat<T> {
    let b = g.bbox::<T>();
    let p = b.map(|b| Point::new(b[0], b[1])).unwrap_or(Point::new(T::of(0.), T::of(0.)));
    Dat { id, g: g.geom(), p }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NumT {
    F64,
    F32,
    I32,
}

#[derive(Clone, Debug)]
pub struct Scene {
    pub points: bool,
    pub num: NumT,
    pub calc: CalcMethod,
    pub bounds: [f64; 4],
    pub max_depth: u8,
    pub max_children: usize,
    pub default_limits: bool,
    pub data: Vec<G>,
    pub queries: Vec<G>,
    pub r: f64,
    pub k: usize,
}

/// A coordinate source: most scenes use few distinct values so that ties, edges,
/// corners and shared positions are common.
pub struct Coords {
    lo: f64,
    hi: f64,
    style: u64,
    grid: f64,
    hot: Vec<f64>,
}
impl Coords {
    pub fn new(r: &mut Rng, lo: f64, hi: f64, integral: bool) -> Coords {
        let style = if integral { r.below(2) } else { r.below(5) };
        let w = hi - lo;
        let grid = if integral {
            *r.pick(&[1.0, 1.0, 2.0, 3.0])
        } else {
            w / *r.pick(&[2.0, 4.0, 8.0, 16.0, 32.0, 5.0, 12.0])
        };
        let mut hot = vec![];
        for _ in 0..(1 + r.below(4)) {
            hot.push(if integral { (lo + r.f() * w).floor() } else { lo + r.f() * w });
        }
        Coords { lo, hi, style, grid, hot }
    }
    pub fn inb(&self, r: &mut Rng) -> f64 {
        let w = self.hi - self.lo;
        let x = match self.style {
            0 => self.lo + self.grid * r.below((w / self.grid) as u64 + 1) as f64,
            1 if r.chance(3, 4) => *r.pick(&self.hot),
            1 => self.lo + self.grid * r.below((w / self.grid) as u64 + 1) as f64,
            2 => self.lo + w * r.f(),
            3 => {
                // cell boundaries of the subdivision, and their neighbours
                let d = 1u64 << r.below(6);
                let x = self.lo + w * (r.below(d + 1) as f64 / d as f64);
                match r.below(4) {
                    0 => x.next_up(),
                    1 => x.next_down(),
                    _ => x,
                }
            }
            _ => {
                let h = *r.pick(&self.hot);
                h + (r.f() - 0.5) * w * *r.pick(&[1e-1, 1e-2, 1e-3, 1e-5])
            }
        };
        // a subnormal neighbour of zero says nothing about this code
        let x = if x.abs() < 1e-300 { 0.0 } else { x };
        if x < self.lo {
            self.lo
        } else if x > self.hi {
            self.hi
        } else {
            x
        }
    }
    pub fn any(&self, r: &mut Rng) -> f64 {
        let w = self.hi - self.lo;
        match r.below(8) {
            0 => self.lo - self.grid.max(w * 0.01),
            1 => self.hi + self.grid.max(w * 0.01),
            2 => self.lo,
            3 => self.hi,
            _ => self.inb(r),
        }
    }
}

pub fn bounds(r: &mut Rng, num: NumT, calc: CalcMethod) -> [f64; 4] {
    if let CalcMethod::Spherical = calc {
        use std::f64::consts::*;
        let (lx, ly) = match num {
            NumT::F64 => (PI, FRAC_PI_2),
            _ => (3.1415, 1.5707),
        };
        return match r.below(7) {
            0 => [-lx, -ly, lx, ly],
            1 => [0.0, 0.0, lx / 2.0, ly],
            2 => [-1.0, -1.0, 1.0, 1.0],
            3 => [0.0, 0.0, 0.5, 0.5],
            4 => [-lx, -0.5, lx, 0.5],
            5 => [-0.25, 1.0, 0.75, 1.5],
            _ => {
                let (a, b) = (r.range(-lx, lx), r.range(-lx, lx));
                let (c, d) = (r.range(-ly, ly), r.range(-ly, ly));
                [a.min(b), c.min(d), a.max(b) + 1e-3, c.max(d) + 1e-3]
                    .map(|v| v)
                    .into_iter()
                    .enumerate()
                    .map(|(i, v)| if i % 2 == 0 { v.min(lx) } else { v.min(ly) })
                    .collect::<Vec<_>>()
                    .try_into()
                    .unwrap()
            }
        };
    }
    let integral = num == NumT::I32;
    if matches!(calc, CalcMethod::None) && r.chance(1, 12) {
        // close to the largest numbers: sums of coordinates overflow, sizes do not
        return match num {
            NumT::I32 => [2.0e9, -2.1e9, 2.1e9, -2.0e9],
            NumT::F32 => [2.0e38, -3.0e38, 3.0e38, -2.0e38],
            NumT::F64 => [1.0e308, -1.6e308, 1.6e308, -1.0e308],
        };
    }
    if num == NumT::F64 && r.chance(1, 16) {
        // far beyond, or far below, what a single holds
        let z = *r.pick(&[1e39, 1e60, 3e90, 1e-50]);
        return *r.pick(&[[0.0, 0.0, z, z], [-z, -z, z, 2.0 * z], [-z, 0.0, z, 0.5 * z]]);
    }
    match r.below(if integral { 4 } else { 8 }) {
        0 => [0.0, 0.0, 8.0, 8.0],
        1 => [-16.0, -8.0, 16.0, 24.0],
        2 => [0.0, 0.0, 32.0, 32.0],
        3 => [-5.0, 3.0, 6.0, 10.0],
        4 => [0.0, 0.0, 1.0, 1.0],
        5 => [0.1, -0.7, 0.9, 0.3],
        6 => [-1e6, -1e6, 1e6, 3e6],
        _ => {
            let (x, y) = (r.range(-100.0, 100.0), r.range(-100.0, 100.0));
            [x, y, x + r.range(0.5, 200.0), y + r.range(0.5, 200.0)]
        }
    }
}

pub fn shape(r: &mut Rng, cx: &Coords, cy: &Coords, any: bool, odd: bool, kinds: &[u8]) -> G {
    let p = |r: &mut Rng| -> [f64; 2] {
        if any {
            [cx.any(r), cy.any(r)]
        } else {
            [cx.inb(r), cy.inb(r)]
        }
    };
    // half of the extended shapes are small, so they sit deep in the tree
    let small = r.chance(1, 2);
    let near = |r: &mut Rng, a: [f64; 2]| -> [f64; 2] {
        if !small {
            return p(r);
        }
        let f = *r.pick(&[0.02, 0.05, 0.1, 0.25]);
        let mut q = [a[0] + (r.f() - 0.3) * f * (cx.hi - cx.lo), a[1] + (r.f() - 0.3) * f * (cy.hi - cy.lo)];
        if cx.style == 0 && cx.grid >= 0.5 {
            q = [a[0] + (r.below(3) as f64) * cx.grid, a[1] + (r.below(3) as f64) * cy.grid];
        }
        if !any {
            q = [q[0].clamp(cx.lo, cx.hi), q[1].clamp(cy.lo, cy.hi)];
        }
        q
    };
    let a = p(r);
    match *r.pick(kinds) {
        0 => G::Pt(a),
        1 => {
            let b = near(r, a);
            G::Ln([a[0], a[1], b[0], b[1]])
        }
        2 => {
            let n = 2 + r.below(4);
            let mut v = vec![a];
            for _ in 1..n {
                v.push(near(r, a));
            }
            if odd && r.chance(1, 6) {
                match r.below(3) {
                    0 => v.truncate(1),
                    1 => v.push(a),
                    _ => v[1] = a,
                }
            }
            G::Ls(v)
        }
        3 => {
            // a convex quadrilateral (a box with cut corners), with a hole at times
            let b = near(r, a);
            let (x1, y1, x2, y2) = (a[0].min(b[0]), a[1].min(b[1]), a[0].max(b[0]), a[1].max(b[1]));
            let (w, h) = (x2 - x1, y2 - y1);
            if r.chance(1, 3) && w > 0.0 && h > 0.0 {
                G::Pg(
                    vec![[x1, y1], [x2, y1], [x2, y2], [x1, y2]],
                    vec![vec![
                        [x1 + w * 0.25, y1 + h * 0.25],
                        [x1 + w * 0.75, y1 + h * 0.25],
                        [x1 + w * 0.75, y1 + h * 0.75],
                        [x1 + w * 0.25, y1 + h * 0.75],
                    ]],
                )
            } else if r.chance(1, 3) {
                // any number of corners, in order around the middle
                let n = 4 + r.below(9);
                let deep = r.chance(1, 2);
                let ring = (0..n).map(|k| {
                    let t = 2.0 * std::f64::consts::PI * (k as f64 + 0.9 * r.f()) / n as f64;
                    let s = if deep { *r.pick(&[0.3, 0.6, 1.0]) } else { 1.0 };
                    [
                        (x1 + w * (0.5 + 0.5 * s * t.cos())).clamp(x1, x2),
                        (y1 + h * (0.5 + 0.5 * s * t.sin())).clamp(y1, y2),
                    ]
                });
                G::Pg(ring.collect(), vec![])
            } else {
                let (t, u) = (r.f(), r.f());
                G::Pg(vec![[x1 + w * t, y1], [x2, y1 + h * u], [x1 + w * (1.0 - t), y2], [x1, y1 + h * (1.0 - u)]], vec![])
            }
        }
        _ => {
            let b = near(r, a);
            G::Rc([a[0], a[1], b[0], b[1]])
        }
    }
}

pub struct Opt {
    pub nums: &'static [NumT],
    pub calcs: &'static [CalcMethod],
    pub points: Option<bool>,
    pub out_of_bounds: bool,
    pub empties: bool,
    pub max_n: u64,
    /// spherical comparators whose distances do not exist
    pub no_distance: bool,
}

pub fn scene(r: &mut Rng, o: &Opt) -> Scene {
    let num = *r.pick(o.nums);
    let calc = *r.pick(o.calcs);
    let points = o.points.unwrap_or_else(|| r.chance(1, 2));
    let b = bounds(r, num, calc);
    let (cx, cy) = (
        Coords::new(r, b[0], b[2], num == NumT::I32),
        Coords::new(r, b[1], b[3], num == NumT::I32),
    );
    let spherical = matches!(calc, CalcMethod::Spherical);
    let kinds: &[u8] = if points { &[0] } else { &[0, 1, 2, 3, 4, 4] };
    // now and then a crowd, with limits to match
    let big = r.chance(1, 100);
    let n = match r.below(6) {
        _ if big => 130 + r.below(600),
        0 => r.below(5),
        1 | 2 => r.below(12),
        3 | 4 => r.below(30),
        _ => r.below(o.max_n),
    };
    let mut data: Vec<G> = vec![];
    for _ in 0..n {
        let g = if !data.is_empty() && r.chance(1, 5) {
            r.pick(&data).clone()
        } else if o.empties && !points && r.chance(1, 12) {
            if r.chance(1, 2) {
                G::Ls(vec![])
            } else {
                G::Pg(vec![], vec![])
            }
        } else {
            let any = o.out_of_bounds && r.chance(1, 3);
            shape(r, &cx, &cy, any, o.empties, kinds)
        };
        data.push(g);
    }
    let mut queries = vec![];
    let nq = 1 + r.below(6);
    for _ in 0..nq {
        let q = if !data.is_empty() && r.chance(1, 4) && !spherical {
            r.pick(&data).clone()
        } else if spherical || points && o.points.is_some() {
            let any = r.chance(1, 4);
            // other comparators than points have no spherical distance to the cells
            let odd = spherical && o.no_distance && r.chance(1, 6);
            shape(r, &cx, &cy, any, o.empties, if odd { &[1, 2, 3] } else { &[0] })
        } else {
            let any = r.chance(1, 4);
            shape(r, &cx, &cy, any, o.empties, &[0, 1, 2, 3, 4, 4])
        };
        queries.push(q);
    }
    let w = (b[2] - b[0]).max(b[3] - b[1]);
    let rad = match r.below(6) {
        0 if r.chance(1, 3) => -w * r.f(),
        0 => 0.0,
        1 | 2 => w * r.f(),
        3 => (w * r.f() * 0.3).round(),
        4 => cx.grid * r.below(5) as f64,
        _ => f64::INFINITY,
    };
    let default_limits = !big && r.chance(1, 6);
    Scene {
        points,
        num,
        calc,
        bounds: b,
        max_depth: if default_limits { 4 } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 7, 12, 255]) },
        max_children: if default_limits {
            4
        } else if big {
            *r.pick(&[1, 4, 16, 31, 64, 100, 127, 128, 200, 255, 256, 257, 300, 400])
        } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 8]) },
        default_limits,
        data,
        queries,
        r: rad,
        k: *r.pick(&[0, 1, 1, 2, 3, 4, 5, 7, 10, 40]),
    }
    .tame()
}

impl Scene {
    /// max_children 0 with a huge depth builds a chain per datum; keep it affordable.
    fn tame(mut self) -> Scene {
        if self.max_depth > 12 && self.data.len() > 12 {
            self.data.truncate(12);
        }
        self
    }
}

/// The reference model: a plain statement of the documented subdivision rule.
pub struct Model<T: Num> {
    pub b: [T; 4],
    pub depth: u32,
    pub own: Vec<usize>,
    pub kids: Vec<Model<T>>,
}
pub struct Lim {
    pub md: u32,
    pub mc: usize,
    pub points: bool,
}
fn within<T: Num>(outer: &[T; 4], b: &[T; 4]) -> bool {
    outer[0] <= b[0] && outer[1] <= b[1] && b[2] <= outer[2] && b[3] <= outer[3]
}
impl<T: Num> Model<T> {
    pub fn new(b: [T; 4], depth: u32) -> Model<T> {
        Model { b, depth, own: vec![], kids: vec![] }
    }
    fn mid(&self) -> (T, T) {
        let two = T::one() + T::one();
        (self.b[0] + (self.b[2] - self.b[0]) / two, self.b[1] + (self.b[3] - self.b[1]) / two)
    }
    pub fn split(&self) -> Vec<Model<T>> {
        let (mx, my) = self.mid();
        let b = self.b;
        vec![
            Model::new([b[0], b[1], mx, my], self.depth + 1),
            Model::new([mx, b[1], b[2], my], self.depth + 1),
            Model::new([mx, my, b[2], b[3]], self.depth + 1),
            Model::new([b[0], my, mx, b[3]], self.depth + 1),
        ]
    }
    pub fn quad(&self, db: &[T; 4]) -> usize {
        let two = T::one() + T::one();
        let (mx, my) = self.mid();
        let (x, y) = (db[0] + (db[2] - db[0]) / two, db[1] + (db[3] - db[1]) / two);
        match (x <= mx, y <= my) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        }
    }
    pub fn insert(&mut self, id: usize, boxes: &[Option<[T; 4]>], l: &Lim) {
        if !self.kids.is_empty() {
            let db = boxes[id].unwrap();
            let q = self.quad(&db);
            if l.points || within(&self.kids[q].b, &db) {
                self.kids[q].insert(id, boxes, l)
            } else {
                self.own.push(id)
            }
        } else if self.own.len() >= l.mc && self.depth < l.md {
            self.kids = self.split();
            let mut own = std::mem::take(&mut self.own);
            own.push(id);
            for i in own {
                self.insert(i, boxes, l)
            }
        } else {
            self.own.push(id)
        }
    }
    /// Groups of data, one per node, in preorder.
    pub fn groups(&self, out: &mut Vec<(u32, [T; 4], Vec<usize>, bool)>) {
        let mut o = self.own.clone();
        o.sort();
        out.push((self.depth, self.b, o, self.kids.is_empty()));
        for k in &self.kids {
            k.groups(out)
        }
    }
    pub fn leaf(&self, db: &[T; 4]) -> &Model<T> {
        if self.kids.is_empty() {
            self
        } else {
            self.kids[self.quad(db)].leaf(db)
        }
    }
}
