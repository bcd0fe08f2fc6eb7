//! Checks over trees: insertion, iteration, retrieval, search, display.
use crate::rng::{dict, lit, Rng};
use crate::scene::*;
use geo::{coord, Rect};
use quadtree::*;
use std::collections::HashSet;

pub type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

const ITER_CAP: usize = 100_000;

pub enum Tree<T: Num> {
    P(PointQuadTree<Dat<T>, T>),
    B(BoundsQuadTree<Dat<T>, T>),
}

pub fn rect<T: Num>(b: &[f64; 4]) -> Rect<T> {
    Rect::new(coord! {x: T::of(b[0]), y: T::of(b[1])}, coord! {x: T::of(b[2]), y: T::of(b[3])})
}

impl<T: Num> Tree<T> {
    pub fn new(s: &Scene) -> Tree<T> {
        let b = rect::<T>(&s.bounds);
        match (s.points, s.default_limits) {
            (true, false) => Tree::P(PointQuadTree::new(b, s.calc, s.max_depth, s.max_children)),
            (true, true) => Tree::P(PointQuadTree::from_bounds(b, s.calc)),
            (false, false) => Tree::B(BoundsQuadTree::new(b, s.calc, s.max_depth, s.max_children)),
            (false, true) => Tree::B(BoundsQuadTree::from_bounds(b, s.calc)),
        }
    }
    pub fn insert(&mut self, d: Dat<T>) -> Result<(), Error> {
        match self {
            Tree::P(t) => t.insert(d),
            Tree::B(t) => t.insert(d),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Tree::P(t) => t.size(),
            Tree::B(t) => t.size(),
        }
    }
    pub fn all(&self) -> Vec<usize> {
        match self {
            Tree::P(t) => t.into_iter().take(ITER_CAP).map(|d| d.id).collect(),
            Tree::B(t) => t.into_iter().take(ITER_CAP).map(|d| d.id).collect(),
        }
    }
    pub fn retrieve(&self, d: &Dat<T>) -> Vec<usize> {
        match self {
            Tree::P(t) => t.retrieve(d).take(ITER_CAP).map(|d| d.id).collect(),
            Tree::B(t) => t.retrieve(d).take(ITER_CAP).map(|d| d.id).collect(),
        }
    }
    pub fn display(&self) -> String {
        match self {
            Tree::P(t) => format!("{}", t),
            Tree::B(t) => format!("{}", t),
        }
    }
}
/// The provided methods of an iterator must tell the same story as next().
fn agree<'a, I: Iterator, K: PartialEq + std::fmt::Debug>(what: &str, make: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K) -> R {
    let mut it = make();
    let mut base: Vec<K> = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(x) = it.next() {
        base.push(key(x));
        hints.push(it.size_hint());
        if base.len() > 400 {
            return Ok(());
        }
    }
    let n = base.len();
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = n - i;
        ensure!(*lo <= left && hi.map_or(true, |h| left <= h), "{what}: size_hint says {:?} when {left} are left", (lo, hi));
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{what} goes on after its end");
    }
    ensure!(make().count() == n, "{what}: count() is {}, next() yields {n}", make().count());
    let last = make().last().map(key);
    ensure!(last.as_ref() == base.last(), "{what}: last() is {last:?}, next() ends with {:?}", base.last());
    let folded = make().fold(vec![], |mut v, x| {
        v.push(key(x));
        v
    });
    ensure!(folded == base, "{what}: fold() sees {folded:?}, next() yields {base:?}");
    let got: Vec<K> = make().collect::<Vec<_>>().into_iter().map(key).collect();
    ensure!(got == base, "{what}: collect() gives {got:?}, next() yields {base:?}");
    for k in [0, 1, 2, 3, 5, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut it = make();
        let got = it.nth(k).map(key);
        ensure!(got.as_ref() == base.get(k), "{what}: nth({k}) is {got:?} of {base:?}");
        let next = it.next().map(key);
        ensure!(next.as_ref() == base.get(k + 1), "{what}: after nth({k}) comes {next:?} of {base:?}");
        let mut it = make();
        let first: Vec<K> = it.by_ref().take(k).map(key).collect();
        let rest: Vec<K> = it.map(key).collect();
        ensure!(first.len() + rest.len() == n && first.iter().chain(&rest).eq(base.iter()), "{what}: {first:?} then {rest:?} instead of {base:?}");
        let got: Vec<K> = make().step_by(k + 1).map(key).collect();
        ensure!(got.iter().eq(base.iter().step_by(k + 1)), "{what}: every {}th is {got:?} of {base:?}", k + 1);
        let found = make().map(key).position(|x| Some(&x) == base.get(k));
        ensure!(k >= n || found.map_or(false, |f| base[f] == base[k]), "{what}: the {k}th of {base:?} is not found");
    }
    Ok(())
}
impl<T: Num> Tree<T> {
    pub fn all_agree(&self) -> R {
        match self {
            Tree::P(t) => agree("iteration", &|| t.into_iter(), &|d: &Dat<T>| d.id),
            Tree::B(t) => agree("iteration", &|| t.into_iter(), &|d: &Dat<T>| d.id),
        }
    }
    pub fn retrieve_agree(&self, d: &Dat<T>) -> R {
        match self {
            Tree::P(t) => agree("retrieve", &|| t.retrieve(d), &|d: &Dat<T>| d.id),
            Tree::B(t) => agree("retrieve", &|| t.retrieve(d), &|d: &Dat<T>| d.id),
        }
    }
}
impl<T: Num + QtFloat> Tree<T> {
    pub fn sorted_agree(&self, q: &Geometry<T>) -> R {
        match self {
            Tree::P(t) => agree("sorted", &|| t.sorted(q), &|d: (&Dat<T>, T)| (d.0.id, d.1)),
            Tree::B(t) => agree("sorted", &|| t.sorted(q), &|d: (&Dat<T>, T)| (d.0.id, d.1)),
        }
    }
    pub fn find_r(&self, q: &Geometry<T>, r: T) -> Result<(usize, T), Error> {
        match self {
            Tree::P(t) => t.find_r(q, r).map(|(d, x)| (d.id, x)),
            Tree::B(t) => t.find_r(q, r).map(|(d, x)| (d.id, x)),
        }
    }
    pub fn find(&self, q: &Geometry<T>) -> Result<(usize, T), Error> {
        match self {
            Tree::P(t) => t.find(q).map(|(d, x)| (d.id, x)),
            Tree::B(t) => t.find(q).map(|(d, x)| (d.id, x)),
        }
    }
    pub fn knn_r(&self, q: &Geometry<T>, k: usize, r: T) -> Result<Vec<(usize, T)>, Error> {
        match self {
            Tree::P(t) => t.knn_r(q, k, r).map(|v| v.iter().map(|(d, x)| (d.id, *x)).collect()),
            Tree::B(t) => t.knn_r(q, k, r).map(|v| v.iter().map(|(d, x)| (d.id, *x)).collect()),
        }
    }
    pub fn knn(&self, q: &Geometry<T>, k: usize) -> Result<Vec<(usize, T)>, Error> {
        match self {
            Tree::P(t) => t.knn(q, k).map(|v| v.iter().map(|(d, x)| (d.id, *x)).collect()),
            Tree::B(t) => t.knn(q, k).map(|v| v.iter().map(|(d, x)| (d.id, *x)).collect()),
        }
    }
    pub fn sorted(&self, q: &Geometry<T>) -> Vec<(usize, T)> {
        match self {
            Tree::P(t) => t.sorted(q).take(ITER_CAP).map(|(d, x)| (d.id, x)).collect(),
            Tree::B(t) => t.sorted(q).take(ITER_CAP).map(|(d, x)| (d.id, x)).collect(),
        }
    }
}

pub struct Built<T: Num> {
    pub t: Tree<T>,
    pub data: Vec<Dat<T>>,
    pub boxes: Vec<Option<[T; 4]>>,
    pub ids: Vec<usize>,
    pub bounds: [T; 4],
}

pub fn inb<T: Num>(outer: &[T; 4], b: &[T; 4]) -> bool {
    outer[0] <= b[0] && outer[1] <= b[1] && b[2] <= outer[2] && b[3] <= outer[3]
}

/// Build a tree by inserting only what the documented rule accepts; acceptance itself is C01's business.
fn build<T: Num>(s: &Scene) -> Built<T> {
    let mut t = Tree::new(s);
    let data: Vec<Dat<T>> = s.data.iter().enumerate().map(|(i, g)| dat(i, g)).collect();
    let boxes: Vec<_> = s.data.iter().map(|g| g.bbox::<T>()).collect();
    let bounds = s.bounds.map(T::of);
    let mut ids = vec![];
    for (i, d) in data.iter().enumerate() {
        if boxes[i].map_or(false, |b| inb(&bounds, &b)) && t.insert(d.clone()).is_ok() {
            ids.push(i);
        }
    }
    Built { t, data, boxes, ids, bounds }
}

fn model<T: Num>(s: &Scene, b: &Built<T>) -> Model<T> {
    let mut m = Model::new(b.bounds, 0);
    let l = lim(s);
    for &i in &b.ids {
        m.insert(i, &b.boxes, &l);
    }
    m
}
fn lim(s: &Scene) -> Lim {
    Lim {
        md: if s.default_limits { DEFAULT_MAX_DEPTH as u32 } else { s.max_depth as u32 },
        mc: if s.default_limits { DEFAULT_MAX_CHILDREN } else { s.max_children },
        points: s.points,
    }
}
fn sorted_ids(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

macro_rules! by_num {
    ($s:expr, $f:ident) => {
        match $s.num {
            NumT::F64 => $f::<f64>($s),
            NumT::F32 => $f::<f32>($s),
            NumT::I32 => $f::<i32>($s),
        }
    };
}
macro_rules! by_float {
    ($s:expr, $f:ident) => {
        match $s.num {
            NumT::F32 => $f::<f32>($s),
            _ => $f::<f64>($s),
        }
    };
}

// ---- C01 acceptance ----
fn c01<T: Num>(s: &Scene) -> R {
    let mut t = Tree::<T>::new(s);
    let bounds = s.bounds.map(T::of);
    for (i, g) in s.data.iter().enumerate() {
        let want = match g.bbox::<T>() {
            None => Err(Error::CannotMakeBbox),
            Some(b) if inb(&bounds, &b) => Ok(()),
            Some(_) => Err(Error::OutOfBounds),
        };
        let got = t.insert(dat(i, g));
        ensure!(got == want, "insert #{i} {g:?}: got {got:?}, want {want:?}");
    }
    Ok(())
}

// ---- C02 contents ----
fn c02<T: Num>(s: &Scene) -> R {
    if s.data.len() >= LONG {
        return c02_long::<T>(s);
    }
    let mut t = Tree::<T>::new(s);
    let mut ids = vec![];
    ensure!(t.size() == 0 && t.all().is_empty(), "a new tree is not empty");
    for (i, g) in s.data.iter().enumerate() {
        let before = t.all();
        let res = t.insert(dat(i, g));
        let after = t.all();
        if res.is_ok() {
            ids.push(i);
        } else {
            ensure!(before == after, "rejected insert #{i} changed the contents from {before:?} to {after:?}");
        }
        let got = sorted_ids(after);
        ensure!(got == ids, "after insert #{i} ({res:?}) iteration yields {got:?}, inserted were {ids:?}");
        ensure!(t.size() == ids.len(), "after insert #{i} size() is {}, {} were inserted", t.size(), ids.len());
    }
    Ok(())
}

/// more inserts than 16 bits count, looked at in the end only
const LONG: usize = 65_000;
fn c02_long<T: Num>(s: &Scene) -> R {
    let mut t = Tree::<T>::new(s);
    let mut ids = vec![];
    for (i, g) in s.data.iter().enumerate() {
        if t.insert(dat(i, g)).is_ok() {
            ids.push(i);
        }
    }
    ensure!(t.size() == ids.len(), "after {} inserts size() is {}", ids.len(), t.size());
    let got = sorted_ids(t.all());
    ensure!(got == ids, "after {} inserts iteration yields {} data", ids.len(), got.len());
    Ok(())
}

// ---- C03 preorder ----
// The shape of the tree is taken from the printed structure (one line per cell, in preorder, with the number of
// data held there), so that this says nothing about when cells are subdivided.
fn c03<T: Num>(s: &Scene) -> R {
    let b = build::<T>(s);
    let seq = b.t.all();
    ensure!(seq == b.t.all(), "two traversals differ");
    b.t.all_agree()?;
    let lines = shown(&b.t.display())?;
    let mut at = 0;
    let mut line = 0;
    walk(s, &b, &lines, &mut line, &mut at, &seq, &Model::new(b.bounds, 0))?;
    ensure!(line == lines.len(), "the printed structure is not a tree of four-way divisions: {lines:?}");
    ensure!(at == seq.len(), "iteration yields {} data, the cells hold {at}", seq.len());
    Ok(())
}
fn walk<T: Num>(s: &Scene, b: &Built<T>, lines: &[(u32, f64, f64, usize)], line: &mut usize, at: &mut usize, seq: &[usize], cell: &Model<T>) -> R {
    let bad = || format!("the printed structure is not a tree of four-way divisions: {lines:?}");
    let &(depth, _, _, n) = lines.get(*line).ok_or_else(bad)?;
    if depth != cell.depth {
        return Err(bad());
    }
    *line += 1;
    let leaf = lines.get(*line).map_or(true, |l| l.0 <= depth);
    ensure!(*at + n <= seq.len(), "iteration yields only {} data, the cells hold more", seq.len());
    for &i in &seq[*at..*at + n] {
        let db = b.boxes[i].unwrap();
        ensure!(
            inb(&cell.b, &db),
            "{seq:?}: position {at}.. belongs to the depth-{depth} cell {:?}, but datum #{i} {:?} is not in it", cell.b, s.data[i]
        );
        ensure!(
            leaf || !s.points,
            "{seq:?}: a divided cell of the point tree holds datum #{i}"
        );
        ensure!(
            leaf || !inb(&cell.split()[cell.quad(&db)].b, &db),
            "{seq:?}: position {at}.. belongs to the divided depth-{depth} cell {:?} itself, but datum #{i} {:?} fits a quadrant", cell.b, s.data[i]
        );
    }
    *at += n;
    if !leaf {
        for (q, k) in cell.split().iter().enumerate() {
            let from = *at;
            walk(s, b, lines, line, at, seq, k)?;
            for &i in &seq[from..*at] {
                ensure!(cell.quad(&b.boxes[i].unwrap()) == q, "{seq:?}: datum #{i} is listed with quadrant {q} of {:?}", cell.b);
            }
        }
    }
    Ok(())
}

// ---- C04 capacity and depth (point tree: seen through retrieve; both: seen through the printed structure) ----
fn c04<T: Num>(s: &Scene) -> R {
    let b = build::<T>(s);
    let m = model(s, &b);
    if s.points {
        for &i in &b.ids {
            let got = b.t.retrieve(&b.data[i]).len();
            let leaf = m.leaf(&b.boxes[i].unwrap());
            ensure!(
                got == leaf.own.len(),
                "retrieving datum #{i} yields {got} data, but its cell at depth {} holds {} (max_children {}, max_depth {})",
                leaf.depth, leaf.own.len(), lim(s).mc, lim(s).md
            );
        }
    }
    let mut gs = vec![];
    m.groups(&mut gs);
    let want: Vec<(u32, usize)> = gs.iter().map(|g| (g.0, g.2.len())).collect();
    let got = shown(&b.t.display())?;
    let got: Vec<(u32, usize)> = got.into_iter().map(|g| (g.0, g.3)).collect();
    ensure!(got == want, "cells (depth, data) are {got:?}, expected {want:?}");
    Ok(())
}

/// Parse the printed structure: depth, min corner, count.
fn shown(d: &str) -> Result<Vec<(u32, f64, f64, usize)>, String> {
    let mut out = vec![];
    for l in d.lines().skip(1) {
        let ind = l.len() - l.trim_start().len();
        let e = || format!("cannot parse line {l:?} of the printed structure");
        let body = l.trim_start().strip_prefix('(').ok_or_else(e)?;
        let (xy, rest) = body.split_once("):").ok_or_else(e)?;
        let (x, y) = xy.split_once(", ").ok_or_else(e)?;
        let rest = rest.trim();
        let n = if rest.is_empty() { 0 } else { rest.split(' ').next().unwrap().parse().map_err(|_| e())? };
        out.push(((ind / 4) as u32, x.parse().map_err(|_| e())?, y.parse().map_err(|_| e())?, n));
    }
    Ok(out)
}

// ---- C05 point retrieve ----
fn c05<T: Num>(s: &Scene) -> R {
    let b = build::<T>(s);
    let n = b.data.len();
    let mut qs: Vec<G> = s.queries.clone();
    // in a crowd, some of the data as queries say as much as all of them
    let every = 1 + n / 120;
    qs.extend(s.data.iter().step_by(every).cloned());
    if let Some(q) = qs.first() {
        b.t.retrieve_agree(&dat::<T>(n, q))?;
    }
    for q in &qs {
        let d = dat::<T>(n, q);
        let qb = [d.p.x(), d.p.y(), d.p.x(), d.p.y()];
        let got = b.t.retrieve(&d);
        let set: HashSet<_> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "retrieve {q:?} yields a datum twice: {got:?}");
        ensure!(got.iter().all(|i| b.ids.binary_search(i).is_ok()), "retrieve {q:?} yields {got:?}, not all of them stored");
        if !inb(&b.bounds, &qb) {
            ensure!(got.is_empty(), "retrieve {q:?} out of bounds yields {got:?}");
            continue;
        }
        for &i in &b.ids {
            if b.data[i].p == d.p {
                ensure!(set.contains(&i), "retrieve {q:?} misses datum #{i}, which is at that very position");
            }
        }
        for &i in got.iter().step_by(1 + got.len() / 60) {
            let other: HashSet<_> = b.t.retrieve(&b.data[i]).into_iter().collect();
            ensure!(other == set, "datum #{i} was retrieved for {q:?} but the two see different cells: {other:?} / {set:?}");
        }
    }
    Ok(())
}

// ---- C06 bounds retrieve ----
fn axis<T: Num>(a: T, b: T, c: T, d: T) -> bool {
    (a < d && c < b) || (a == c && b == d)
}
fn overlap<T: Num>(a: &[T; 4], b: &[T; 4]) -> bool {
    axis(a[0], a[2], b[0], b[2]) && axis(a[1], a[3], b[1], b[3])
}
fn c06<T: Num>(s: &Scene) -> R {
    let b = build::<T>(s);
    let n = b.data.len();
    let mut qs: Vec<G> = s.queries.clone();
    qs.extend(s.data.iter().cloned());
    if let Some(q) = qs.first() {
        b.t.retrieve_agree(&dat::<T>(n, q))?;
    }
    for q in &qs {
        let d = dat::<T>(n, q);
        let got = b.t.retrieve(&d);
        let set: HashSet<_> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "retrieve {q:?} yields a datum twice: {got:?}");
        ensure!(got.iter().all(|i| b.ids.binary_search(i).is_ok()), "retrieve {q:?} yields {got:?}, not all of them stored");
        let qb = match q.bbox::<T>() {
            Some(qb) if inb(&b.bounds, &qb) => qb,
            _ => {
                ensure!(got.is_empty(), "retrieve {q:?} out of bounds yields {got:?}");
                continue;
            }
        };
        for &i in &b.ids {
            if overlap(&b.boxes[i].unwrap(), &qb) {
                ensure!(set.contains(&i), "retrieve {q:?} misses datum #{i} {:?}, whose box overlaps", s.data[i]);
            }
        }
    }
    Ok(())
}

// ---- search ----
fn tol<T: Num>(s: &Scene, d: f64) -> f64 {
    let scale = s.bounds.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    let f32_ = s.num == NumT::F32;
    match (matches!(s.calc, CalcMethod::Spherical), f32_) {
        // near the antipode one ulp of the haversine is sqrt(eps)
        (true, false) => if d > 3.0 { 1e-7 } else { 1e-9 },
        (true, true) => 2e-3,
        (false, false) => 1e-12 * scale + 1e-10 * d.abs(),
        (false, true) => 1e-4 * scale + 1e-4 * d.abs(),
    }
}
struct Search<T: Num> {
    q: Geometry<T>,
    d: Vec<Result<T, Error>>,
    root: Result<T, Error>,
}
fn dists<T: Num + QtFloat>(s: &Scene, b: &Built<T>, q: &G) -> Search<T> {
    let g = q.geom::<T>();
    let (d, root) = {
        let calc = g.with_calc(s.calc);
        (
            b.data.iter().map(|x| calc.dist_geom(&x.as_geom())).collect::<Vec<_>>(),
            calc.dist_bbox(&rect(&s.bounds)),
        )
    };
    Search { d, root, q: g }
}
/// The distances of all stored data, or None if the search contract is about errors (C10).
fn plain<T: Num + QtFloat>(b: &Built<T>, se: &Search<T>) -> Option<Vec<(f64, usize)>> {
    if se.root != Ok(T::of(0.0)) {
        return None;
    }
    let mut v = vec![];
    for &i in &b.ids {
        let d = se.d[i].ok()?.to();
        if !d.is_finite() {
            return None;
        }
        v.push((d, i));
    }
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    Some(v)
}

fn c07<T: Num + QtFloat>(s: &Scene) -> R {
    let b = build::<T>(s);
    for q in &s.queries {
        let se = dists(s, &b, q);
        let v = match plain(&b, &se) {
            Some(v) if !v.is_empty() => v,
            _ => continue,
        };
        let min = v[0].0;
        let ok = |what: &str, got: Result<(usize, T), Error>| -> R {
            let (i, d) = got.map_err(|e| format!("{what} {q:?}: {e:?}, but datum #{} is at distance {min}", v[0].1))?;
            ensure!(b.ids.contains(&i), "{what} {q:?} returns #{i}, which is not stored");
            let real = se.d[i].unwrap();
            ensure!(d == real, "{what} {q:?} reports distance {d} for #{i}, whose distance is {real}");
            ensure!(d.to() <= min + tol::<T>(s, min), "{what} {q:?} returns #{i} at {d}, but #{} is at {min}", v[0].1);
            Ok(())
        };
        ok("find", b.t.find(&se.q))?;
        // radii at, just above and just below existing distances
        let mut radii = vec![s.r];
        for (d, _) in v.iter().take(3) {
            radii.extend([*d, d * 1.5, d * 0.5]);
        }
        for r in radii {
            let rt = T::of(r);
            let got = b.t.find_r(&se.q, rt);
            let t = tol::<T>(s, min);
            // exact comparison where distances are exact, tolerance at the rim otherwise
            let rim = (rt.to() - min).abs() <= t && !exact(s, q, min, v[0].1);
            if rim {
                if let Ok((_, d)) = got {
                    ensure!(d <= rt, "find_r {q:?} {r} returns a datum at {d}");
                    ok("find_r", got)?;
                }
            } else if min <= rt.to() {
                ensure!(got.map_or(true, |g| g.1 <= rt), "find_r {q:?} {r} returns {got:?}, outside the radius");
                ok(&format!("find_r({r})"), got)?;
            } else {
                ensure!(got == Err(Error::NoneInRadius), "find_r {q:?} {r} gives {got:?}, the closest datum is at {min}");
            }
        }
    }
    Ok(())
}
/// Coordinates small enough that the point-point Euclidean distances involved are computed alike everywhere:
/// the box of a cell is never computed farther than a point in it when the offset is along one axis.
fn exact(s: &Scene, q: &G, d: f64, i: usize) -> bool {
    if let (G::Pt(a), G::Pt(b)) = (q, &s.data[i]) {
        if a == b {
            return true;
        }
    }
    if matches!(s.calc, CalcMethod::Spherical) {
        return false;
    }
    let small = |x: f64| (x * 1024.0).fract() == 0.0 && x.abs() < 1024.0;
    let all_small = s.bounds.iter().all(|x| small(*x));
    match (q, &s.data[i]) {
        (G::Pt(a), G::Pt(b)) => {
            all_small && a.iter().chain(b).all(|x| small(*x)) && (a[0] == b[0] || a[1] == b[1]) && d == d.trunc()
        }
        _ => false,
    }
}

fn check_ranked<T: Num + QtFloat>(what: &str, s: &Scene, b: &Built<T>, se: &Search<T>, v: &[(f64, usize)], got: &[(usize, T)]) -> R {
    let set: HashSet<_> = got.iter().map(|g| g.0).collect();
    ensure!(set.len() == got.len(), "{what} lists a datum twice: {got:?}");
    for (j, (i, d)) in got.iter().enumerate() {
        ensure!(b.ids.contains(i), "{what} lists #{i}, which is not stored");
        ensure!(*d == se.d[*i].unwrap(), "{what} reports distance {d} for #{i}, whose distance is {:?}", se.d[*i]);
        let t = tol::<T>(s, v[j].0);
        ensure!((d.to() - v[j].0).abs() <= t, "{what}: entry {j} is #{i} at {d}, but the {j}-th closest is at {}", v[j].0);
        if j > 0 {
            ensure!(got[j - 1].1.to() <= d.to() + t, "{what} is not in order at entry {j}: {got:?}");
        }
    }
    Ok(())
}

fn c08<T: Num + QtFloat>(s: &Scene) -> R {
    let b = build::<T>(s);
    for q in &s.queries {
        let se = dists(s, &b, q);
        let v = match plain(&b, &se) {
            Some(v) => v,
            _ => continue,
        };
        let mut ks = vec![s.k, 0, 1, v.len(), v.len() + 1, usize::MAX];
        ks.dedup();
        for k in ks {
            let got = b.t.knn(&se.q, k).map_err(|e| format!("knn {q:?} {k}: {e:?}"))?;
            ensure!(got.len() == k.min(v.len()), "knn {q:?} {k} gives {} data of {}", got.len(), v.len());
            check_ranked(&format!("knn {q:?} {k}"), s, &b, &se, &v, &got)?;
        }
        let mut radii = vec![s.r];
        for (d, _) in v.iter().take(3) {
            radii.extend([*d, d * 1.5]);
        }
        for r in radii {
            let rt = T::of(r);
            let what = format!("knn_r {q:?} {} {r}", s.k);
            let got = b.t.knn_r(&se.q, s.k, rt).map_err(|e| format!("{what}: {e:?}"))?;
            ensure!(got.iter().all(|g| g.1 <= rt), "{what} exceeds the radius: {got:?}");
            let t = tol::<T>(s, rt.to().min(1e9));
            let sure = v.iter().filter(|x| x.0 < rt.to() - t || (x.0 <= rt.to() && exact(s, q, x.0, x.1))).count();
            let may = v.iter().filter(|x| x.0 <= rt.to()).count();
            ensure!(
                got.len() >= s.k.min(sure) && got.len() <= s.k.min(may),
                "{what} gives {} data, {may} of {} are in the radius", got.len(), v.len()
            );
            check_ranked(&what, s, &b, &se, &v, &got)?;
        }
    }
    Ok(())
}

fn c09<T: Num + QtFloat>(s: &Scene) -> R {
    let b = build::<T>(s);
    for q in &s.queries {
        let se = dists(s, &b, q);
        if se.root != Ok(T::of(0.0)) {
            let got = b.t.sorted(&se.q);
            ensure!(got.is_empty(), "sorted {q:?} out of bounds yields {got:?}");
            continue;
        }
        // data without a finite distance are skipped
        let mut v: Vec<(f64, usize)> = b
            .ids
            .iter()
            .filter_map(|&i| se.d[i].ok().map(|d| (d.to(), i)))
            .filter(|x| x.0.is_finite())
            .collect();
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if s.data.len() % 4 == 3 || s.data.len() < 6 {
            b.t.sorted_agree(&se.q)?;
        }
        let got = b.t.sorted(&se.q);
        ensure!(got.len() == v.len(), "sorted {q:?} yields {} data of {}", got.len(), v.len());
        check_ranked(&format!("sorted {q:?}"), s, &b, &se, &v, &got)?;
    }
    Ok(())
}

fn c10<T: Num + QtFloat>(s: &Scene) -> R {
    let b = build::<T>(s);
    for q in &s.queries {
        let se = dists(s, &b, q);
        let (f, fr, k, kr, so) = (
            b.t.find(&se.q).map(|_| ()),
            b.t.find_r(&se.q, T::of(s.r)).map(|_| ()),
            b.t.knn(&se.q, s.k).map(|_| ()),
            b.t.knn_r(&se.q, s.k, T::of(s.r)).map(|_| ()),
            b.t.sorted(&se.q).len(),
        );
        // the plain methods are those with a radius that excludes nothing
        let far = T::infinity();
        let (f1, f2) = (b.t.find(&se.q), b.t.find_r(&se.q, far));
        ensure!(f1 == f2, "{q:?}: find gives {f1:?}, find_r with an infinite radius {f2:?}");
        for k in [s.k, usize::MAX] {
            let (k1, k2) = (b.t.knn(&se.q, k), b.t.knn_r(&se.q, k, far));
            ensure!(k1 == k2, "{q:?}: knn {k} gives {k1:?}, knn_r with an infinite radius {k2:?}");
            if let Ok(v) = &k1 {
                ensure!(
                    v.len() == k || v.len() == b.ids.len(),
                    "{q:?}: knn {k} succeeds with {} of {} data", v.len(), b.ids.len()
                );
            }
            for got in [k1, b.t.knn_r(&se.q, k, T::of(s.r))] {
                if let Ok(v) = got {
                    ensure!(v.iter().all(|g| g.1.is_finite()), "{q:?}: knn {k} lists a datum at a distance that is not finite: {v:?}");
                }
            }
        }
        let all = |e: Error| -> R {
            ensure!(
                f == Err(e) && fr == Err(e) && k == Err(e) && kr == Err(e) && so == 0,
                "{q:?}: expected {e:?}, got find {f:?} find_r {fr:?} knn {k:?} knn_r {kr:?}, sorted yields {so}"
            );
            Ok(())
        };
        match se.root {
            _ if matches!(s.calc, CalcMethod::None) => all(Error::CalcMethodNotSet)?,
            Err(e) => all(e)?,
            Ok(d) if d != T::of(0.0) => all(Error::OutOfBounds)?,
            Ok(_) if b.ids.is_empty() => {
                ensure!(f == Err(Error::Empty) && fr == Err(Error::Empty), "{q:?} on an empty tree: find {f:?} find_r {fr:?}");
                ensure!(k == Ok(()) && kr == Ok(()) && so == 0, "{q:?} on an empty tree: knn {k:?} knn_r {kr:?}");
            }
            Ok(_) => {
                if plain(&b, &se).is_some() {
                    ensure!(f == Ok(()), "{q:?}: find fails with {f:?} although all distances exist");
                    ensure!(fr == Ok(()) || fr == Err(Error::NoneInRadius), "{q:?}: find_r fails with {fr:?}");
                    ensure!(k == Ok(()) && kr == Ok(()), "{q:?}: knn fails with {k:?} {kr:?} although all distances exist");
                }
            }
        }
    }
    Ok(())
}

// ---- C18 quadrants tile their region (seen through the printed corners, coordinates exact to two decimals) ----
fn c18<T: Num>(s: &Scene) -> R {
    let b = build::<T>(s);
    let m = model(s, &b);
    let mut gs = vec![];
    m.groups(&mut gs);
    let got = shown(&b.t.display())?;
    ensure!(got.len() == gs.len(), "{} cells printed, {} expected", got.len(), gs.len());
    for (g, w) in got.iter().zip(&gs) {
        let want = (w.0, w.1[0].to(), w.1[1].to());
        ensure!(
            g.0 == want.0 && (g.1 - want.1).abs() < 0.01 && (g.2 - want.2).abs() < 0.01,
            "printed cell {g:?}, expected corner {want:?}"
        );
        ensure!(g.3 == w.2.len(), "printed cell {g:?} should hold {:?}", w.2);
    }
    Ok(())
}

/// A sink that takes only so many bytes.
struct Tight(usize, String);
impl std::fmt::Write for Tight {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            self.0 = 0;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}
/// A sink that refuses one piece, the one with a certain byte, and takes the rest.
struct Once(usize, usize, bool);
impl std::fmt::Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.2 && self.0 + s.len() > self.1 {
            self.2 = true;
            return Err(std::fmt::Error);
        }
        self.0 += s.len();
        Ok(())
    }
}
fn same_number(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let places = |x: &str| x.split_once('.').map_or(0, |x| x.1.len());
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => places(a) == places(b) && (x - y).abs() <= 0.0101 + 1e-6 * x.abs(),
        _ => false,
    }
}
fn c20<T: Num>(s: &Scene) -> R {
    use std::fmt::Write;
    let b = build::<T>(s);
    let m = model(s, &b);
    let mut gs = vec![];
    m.groups(&mut gs);
    let got = b.t.display();
    let mut lines = got.split('\n');
    let title = if s.points { "Point Quadtree Root:" } else { "Bounds Quadtree Root:" };
    ensure!(lines.next() == Some(title), "the first line printed is not {title:?}: {:?}", got.lines().next());
    for g in &gs {
        let n = match g.2.len() {
            0 => String::new(),
            1 => " 1 child".to_string(),
            n => format!(" {n} children"),
        };
        let pre = " ".repeat(4 * g.0 as usize) + "(";
        let (x, y) = (format!("{:.2}", g.1[0]), format!("{:.2}", g.1[1]));
        let line = lines.next().unwrap_or("(nothing)");
        let want = format!("{pre}{x}, {y}):{n}");
        let close = || {
            let rest = line.strip_prefix(&pre)?;
            let (corner, own) = rest.split_once("):")?;
            let (u, v) = corner.split_once(", ")?;
            Some(own == n && same_number(u, &x) && same_number(v, &y))
        };
        ensure!(line == want || close() == Some(true), "printed line {line:?}, expected {want:?}");
    }
    ensure!(lines.next() == Some("") && lines.next().is_none(), "the print has more lines than the tree has cells: {got:?}");
    // what cannot be written is an error
    if got.len() < 4000 {
        let n = got.len();
        for k in [0, 1, title.len(), title.len() + 1, n / 3, n / 2, n.saturating_sub(2), n - 1] {
            let mut t = Tight(k, String::new());
            let r = match &b.t {
                Tree::P(x) => write!(t, "{x}"),
                Tree::B(x) => write!(t, "{x}"),
            };
            ensure!(r.is_err() || k >= n, "printing {n} bytes into room for {k} reports no error");
            if k < n {
                let mut t = Once(0, k, false);
                let r = match &b.t {
                    Tree::P(x) => write!(t, "{x}"),
                    Tree::B(x) => write!(t, "{x}"),
                };
                ensure!(r.is_err(), "printing to something that refuses byte {k} of {n} reports no error");
            }
        }
        let mut t = Tight(n, String::new());
        let r = match &b.t {
            Tree::P(x) => write!(t, "{x}"),
            Tree::B(x) => write!(t, "{x}"),
        };
        ensure!(r.is_ok() && t.1 == got, "printing into just enough room fails");
    }
    Ok(())
}

use NumT::*;
const ALLN: &[NumT] = &[F64, F64, F64, F32, I32];
const FLT: &[NumT] = &[F64, F64, F64, F32];
const ANYC: &[CalcMethod] = &[CalcMethod::None, CalcMethod::Euclidean, CalcMethod::Spherical];
const SRCH: &[CalcMethod] = &[CalcMethod::Euclidean, CalcMethod::Euclidean, CalcMethod::Spherical];

pub fn gen(prop: &str, r: &mut Rng, case: u64) -> Option<Scene> {
    let base = Opt { nums: ALLN, calcs: ANYC, points: None, out_of_bounds: true, empties: true, max_n: 80, no_distance: matches!(prop, "C09" | "C10") };
    let o = match prop {
        "C01" => base,
        "C02" | "C03" | "C04" => Opt { max_n: 120, ..base },
        "C05" => Opt { points: Some(true), ..base },
        "C06" => Opt { points: Some(false), ..base },
        "C07" | "C08" | "C09" => Opt { nums: FLT, calcs: SRCH, out_of_bounds: false, empties: false, max_n: 120, ..base },
        "C10" => Opt { nums: FLT, max_n: 12, empties: false, ..base },
        "C18" | "C20" => base,
        _ => return None,
    };
    let mut s = scene(r, &o);
    if !dict().is_empty() && r.chance(1, 3) {
        season(&mut s, r, &o);
    }
    if matches!(prop, "C07" | "C08" | "C09" | "C10") {
        // cells of subnormal size make the distance functions of the geo crate fail
        s.max_depth = s.max_depth.min(16);
        if let CalcMethod::Spherical = s.calc {
            // positions are lng/lat in radians
            for q in s.queries.iter_mut() {
                if let G::Pt(p) = q {
                    p[0] = p[0].clamp(-3.1415, 3.1415);
                    p[1] = p[1].clamp(-1.5707, 1.5707);
                }
            }
        }
    }
    if prop == "C01" && s.points && s.num != I32 {
        // positions that are no numbers, or infinite, lie in no rectangle
        for g in s.data.iter_mut() {
            if r.chance(1, 12) {
                if let G::Pt(p) = g {
                    p[r.below(2) as usize] = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                }
            }
        }
    }
    if s.num != I32 && r.chance(1, 6) {
        // zero has two signs
        let n = s.data.len();
        for g in s.data.iter_mut().chain(s.queries.iter_mut()).take(n + 6) {
            g.each(&mut |p: &mut [f64; 2]| {
                for x in p.iter_mut() {
                    if *x == 0.0 && r.chance(1, 2) {
                        *x = -0.0
                    }
                }
            });
        }
        for x in s.bounds.iter_mut() {
            if *x == 0.0 && r.chance(1, 2) {
                *x = -0.0
            }
        }
    }
    if matches!(prop, "C02" | "C03" | "C18" | "C20") && (case == 20 || r.chance(1, 2000)) {
        s.data = (0..66_000).map(|_| G::Pt([r.range(s.bounds[0], s.bounds[2]), r.range(s.bounds[1], s.bounds[3])])).collect();
        s.max_depth = s.max_depth.min(7);
        s.max_children = s.max_children.max(8);
    }
    if prop == "C10" && r.chance(1, 5) {
        s.data.clear();
    }
    if prop == "C10" && matches!(s.calc, CalcMethod::Spherical) && r.chance(1, 4) {
        // a rectangle has a distance to every cell, but only to some shapes
        let b = s.bounds;
        let at = [r.range(b[0], b[2]), r.range(b[1], b[3])];
        s.queries.push(G::Rc([at[0], at[1], r.range(at[0], b[2]), r.range(at[1], b[3])]));
    }
    if prop == "C10" && !s.points && matches!(s.calc, CalcMethod::Spherical) && r.chance(1, 3) {
        // a line of one position, whose distance to points is infinite
        let b = s.bounds;
        let at = [r.range(b[0], b[2]), r.range(b[1], b[3])];
        s.data.push(G::Ls(vec![at]));
    }
    Some(s)
}

/// Put the numbers of the dictionary where numbers matter.
fn season(s: &mut Scene, r: &mut Rng, o: &Opt) {
    let whole = s.num == I32;
    let put = |s: &Scene, g: &mut G, x: f64, ax: usize, inside: bool| {
        let x = if inside { x.clamp(s.bounds[ax], s.bounds[ax + 2]) } else { x };
        let mut at = 0;
        // a polygon stays a polygon without crossings
        let skip = matches!(g, G::Pg(..));
        g.each(&mut |p: &mut [f64; 2]| {
            if at == 0 && !skip {
                p[ax] = x;
            }
            at += 1;
        });
    };
    if r.chance(1, 2) {
        s.default_limits = false;
        s.max_depth = s.max_depth.min(12);
    }
    for _ in 0..1 + r.below(3) {
        let ax = r.below(2) as usize;
        match r.below(10) {
            0 => s.k = lit(r, true).clamp(0.0, 1e6) as usize,
            1 => s.r = lit(r, whole),
            2 => s.max_depth = lit(r, true).clamp(0.0, 255.0) as u8,
            3 => s.max_children = lit(r, true).clamp(0.0, 1e6) as usize,
            4 | 5 => {
                // that many data
                let n = lit(r, true).clamp(0.0, 1500.0) as usize;
                let one = r.chance(1, 6);
                let m = s.data.len();
                if m == 0 {
                    continue;
                }
                while s.data.len() < n {
                    let mut g = s.data[r.below(m as u64) as usize].clone();
                    if !one && !matches!(g, G::Pg(..)) {
                        let b = s.bounds;
                        let w = [b[2] - b[0], b[3] - b[1]];
                        let by = if whole { [0.0, 0.0] } else { [(r.f() - 0.5) * w[0], (r.f() - 0.5) * w[1]] };
                        g.each(&mut |p: &mut [f64; 2]| {
                            for a in 0..2 {
                                p[a] = (p[a] + by[a]).clamp(b[a], b[a + 2]);
                            }
                        });
                    }
                    s.data.push(g);
                }
                s.data.truncate(n);
                if r.chance(1, 2) && n > 30 {
                    s.max_children = n - 1 - r.below(3) as usize;
                }
            }
            6 if !s.data.is_empty() => {
                let i = r.below(s.data.len() as u64) as usize;
                let mut g = s.data[i].clone();
                put(s, &mut g, lit(r, whole), ax, !o.out_of_bounds);
                s.data[i] = g;
            }
            7 if !s.queries.is_empty() => {
                let i = r.below(s.queries.len() as u64) as usize;
                let mut g = s.queries[i].clone();
                put(s, &mut g, lit(r, whole), ax, r.chance(1, 2));
                s.queries[i] = g;
            }
            8 if !matches!(s.calc, CalcMethod::Spherical) => {
                // another size or place for everything
                let x = lit(r, whole).abs().max(1e-6).min(1e6);
                let w = s.bounds[ax + 2] - s.bounds[ax];
                if !(w < 1e9) {
                    continue;
                }
                let f = x / w;
                let left = s.bounds[ax];
                let tr = |v: f64| if whole { (left + (v - left) * f).floor() } else { left + (v - left) * f };
                s.bounds[ax + 2] = tr(s.bounds[ax + 2]);
                if !(s.bounds[ax + 2] > s.bounds[ax]) {
                    s.bounds[ax + 2] = s.bounds[ax] + 1.0;
                }
                let (lo, hi) = (s.bounds[ax], s.bounds[ax + 2]);
                for g in s.data.iter_mut() {
                    let free = matches!(g, G::Pg(..)) && o.out_of_bounds;
                    g.each(&mut |p: &mut [f64; 2]| p[ax] = if free { tr(p[ax]) } else { tr(p[ax]).clamp(lo, hi) });
                }
            }
            _ if !s.data.is_empty() && !s.queries.is_empty() => {
                // a query that far from a datum
                let i = r.below(s.queries.len() as u64) as usize;
                let mut p = [0.0; 2];
                r.pick(&s.data).clone().each(&mut |c: &mut [f64; 2]| p = *c);
                let mut g = s.queries[i].clone();
                put(s, &mut g, p[ax] + lit(r, whole), ax, r.chance(1, 2));
                put(s, &mut g, p[1 - ax], 1 - ax, true);
                s.queries[i] = g;
            }
            _ => {}
        }
    }
    if !o.out_of_bounds {
        let b = s.bounds;
        for g in s.data.iter_mut() {
            g.each(&mut |p: &mut [f64; 2]| *p = [p[0].clamp(b[0], b[2]), p[1].clamp(b[1], b[3])]);
        }
    }
    if s.max_depth > 12 && s.data.len() > 12 {
        s.max_depth = 12;
    }
}

pub fn check(prop: &str, s: &Scene) -> R {
    match prop {
        "C01" => by_num!(s, c01),
        "C02" => by_num!(s, c02),
        "C03" => by_num!(s, c03),
        "C04" => by_num!(s, c04),
        "C05" => by_num!(s, c05),
        "C06" => by_num!(s, c06),
        "C07" => by_float!(s, c07),
        "C08" => by_float!(s, c08),
        "C09" => by_float!(s, c09),
        "C10" => by_float!(s, c10),
        "C18" => by_num!(s, c18),
        "C20" => by_num!(s, c20),
        _ => unreachable!(),
    }
}
