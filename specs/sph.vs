//@@config sph.json
mod en {
use vstd::prelude::*;
//@@type error.rs|Error
//@@type geom/mod.rs|CalcMethod derive(Clone, Copy)
}
mod sp {
pub use super::en::*;
//@@include prelude_geo.vs
//@@include num.vs
//@@include real.vs
//@@include shapes_geo.vs
//@@include trig.vs
//@@include sphspec.vs
}
mod code {
use super::sp::*;
//@@include prelude_geo.vs
broadcast use {group_real, ax_pi, ax_half};
//@@fn geom/spherical/math.rs|||dist_pt_pt
ensures
    cnum($1.0) && cnum($2.0) ==> is(ret, gdist($1.0, $2.0)), //#C15
    cnum($1.0) && cnum($2.0) ==> is(ret, gdist($1.0, $2.0)),
    cnum($1.0) && cnum($2.0) ==> 0real <= key(ret) <= rpi() && rcos(key(ret)) == ang(key($1.0.x), key($1.0.y), key($2.0.x), key($2.0.y)),     //#C15
//@ghost
proof {
    let (x1, y1, x2, y2) = (key($1.0.x), key($1.0.y), key($2.0.x), key($2.0.y));
    lemma_hav(x1, y1, x2, y2); lemma_root1(hav(x1, y1, x2, y2)); lemma_gcd(x1, y1, x2, y2); lemma_gcd_def(x1, y1, x2, y2);
}
broadcast use lemma_mulsq;
//@end
//#C13{
//@@fn geom/spherical/math.rs|||dist_pt_line
ensures cnum($1.0) && cnum($2.start) && cnum($2.end) ==> is(ret, dl($1.0, $2.start, $2.end)),
//@ghost
proof { lemma_dl(key($1.0.x), key($1.0.y), key($2.start.x), key($2.start.y), key($2.end.x), key($2.end.y)); }
//@end
//@@fn geom/spherical/math.rs|||dist_pt_linestring
ensures cnum($1.0) && snum($2.0@) ==> lsd(ret, $1.0, $2.0@, $2.0@.len() - 1),
//@ghost
proof { axiom_inf(); }
let ghost __s = $2.0@;
let ghost __l = segs(__s);
//@loop 0
invariant_except_break
    __s == $2.0@, __l == segs(__s), __it0.rem().len() <= __l.len(), __it0.rem() == __l.skip(__l.len() - __it0.rem().len()),
    !nan(inf()), key(inf()) > rpi(),
    cnum($1.0) && snum(__s) ==> lsd(min_dist, $1.0, __s, __l.len() - __it0.rem().len()),
ensures cnum($1.0) && snum(__s) ==> lsd(min_dist, $1.0, __s, __l.len() as int),
decreases __it0.rem().len()
//@body 0
let ghost __n = __l.len() - __it0.rem().len();
proof { if __n < __l.len() { let a = __s[__n]; let b = __s[__n + 1]; lemma_dl(key($1.0.x), key($1.0.y), key(a.x), key(a.y), key(b.x), key(b.y)); } }
//@end
//@@fn geom/spherical/math.rs|||dist_pt_poly
ensures
    pmeets($2.xs().0@, rings($2.is()@), $1.0) ==> is(ret, 0real),
    !pmeets($2.xs().0@, rings($2.is()@), $1.0) && cnum($1.0) && snum($2.xs().0@) && ssnum(rings($2.is()@)) ==> pgd(ret, $1.0, $2.xs().0@, rings($2.is()@), $2.is()@.len() as int),
//@ghost
let ghost __e = $2.xs().0@;
let ghost __i = rings($2.is()@);
let ghost __ok = cnum($1.0) && snum(__e) && ssnum(__i);
//@loop 0
invariant_except_break
    __it0.rem().len() <= __i.len(), forall|k: int| 0 <= k < __it0.rem().len() ==> (#[trigger] __it0.rem()[k]).0@ == __i[__i.len() - __it0.rem().len() + k],
    __e == $2.xs().0@, __i == rings($2.is()@), __ok == (cnum($1.0) && snum(__e) && ssnum(__i)),
    __ok ==> pgd(dist, $1.0, __e, __i, __i.len() - __it0.rem().len()),
ensures __ok ==> pgd(dist, $1.0, __e, __i, __i.len() as int),
decreases __it0.rem().len()
//@body 0
let ghost __n = __i.len() - __it0.rem().len();
let ghost __d = dist;
proof {
    if __ok && __n < __i.len() {
        assert forall|d: T, y: T| #![trigger lsd(d, $1.0, __i[__n], __i[__n].len() - 1), key(y)]
            lsd(d, $1.0, __i[__n], __i[__n].len() - 1) && (y == __d || y == d) && key(y) == rmin(key(__d), key(d)) implies pgd(y, $1.0, __e, __i, __n + 1) by { lemma_pgd(__d, d, y, $1.0, __e, __i, __n); }
    }
}
//@end
//#}
//#C14{
//@@fn geom/math.rs|||pt_in_rect
ensures ret == inr(*$1, $2.0),
//@end
//@@fn geom/spherical/math.rs|||dist_pt_meridian
ensures cok($1.0) && cok(Coord { x: $2, y: $3 }) && cok(Coord { x: $2, y: $4 }) && key($3) <= key($4) ==> !nan(ret) && ismer(key(ret), $1.0, key($2), key($3), key($4)),
//@ghost
proof { if latok(key($3)) && latok(key($4)) && key($3) <= key($4) { lemma_mer($1.0, key($2), key($3), key($4)); } }
//@end
//@@fn geom/spherical/math.rs|||dist_pt_rect
ensures
    cok($1.0) && rok(*$2) ==> !nan(ret) && isnear(key(ret), $1.0, *$2),
    cok($1.0) && rok(*$2) && inr(*$2, $1.0) ==> is(ret, 0real),
    cok($1.0) && rok(*$2) && key($2.mn.x) <= key($1.0.x) <= key($2.mx.x) ==> is(ret, latgap($1.0, *$2)),
//@ghost
proof {
    if cok($1.0) && rok(*$2) {
        let (x, y) = (key($1.0.x), key($1.0.y)); let (lo, hi) = (key($2.mn.y), key($2.mx.y));
        lemma_mer($1.0, key($2.mn.x), lo, hi); lemma_mer($1.0, key($2.mx.x), lo, hi);
        if key($2.mn.x) <= x <= key($2.mx.x) { lemma_updown($1.0, *$2); }
        else {
            assert forall|d0: real, d1: real| #[trigger] ismer(d0, $1.0, key($2.mn.x), lo, hi) && #[trigger] ismer(d1, $1.0, key($2.mx.x), lo, hi) implies isnear(rmin(d0, d1), $1.0, *$2) by { lemma_aside($1.0, *$2, d0, d1); }
        }
    }
}
//@end
//#}
//#C19{
//@@type geom/spherical/math.rs|Lng derive(Clone, Copy)
impl Lng {
//@@fn geom/spherical/math.rs|Lng<T>|From<T>|from
ensures !nan($1) ==> !nan(ret.0) && is_lng(key($1), key(ret.0)),
//@ghost
broadcast use {ax_rem, lemma_wrap, lemma_sign, lemma_twice};
proof { axiom_pi(); }
//@end
}
//@@fn geom/spherical/math.rs|f64|From<Lng<T>>|from as qt_to_f64
//@ret T
ensures ret == $1.0,
//@end
impl SubSpecImpl<Lng> for Lng {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Lng) -> bool { true }
    open spec fn sub_spec(self, o: Lng) -> Lng { arbitrary() }
}
impl Sub for Lng {
type Output = Lng;
//@@fn geom/spherical/math.rs|Lng<T>|Sub|sub
//@impl
ensures !nan(self.0) && !nan($1.0) ==> !nan(ret.0) && is_lsub(key(self.0), key($1.0), key(ret.0)),
//@end
}
//@@fn geom/spherical/math.rs|||dist_rect_rect
ensures
    rok(*$1) && rok(*$2) ==> !nan(ret) && isrr(key(ret), *$1, *$2),
    rok(*$1) && rok(*$2) ==> 0real <= key(ret) <= rpi(),
//@ghost
broadcast use {lemma_lsub, lemma_short};
proof {
    axiom_pi();
    if rok(*$1) && rok(*$2) {
        assert forall|a: real, b: real, c: real, d: real| 0real <= #[trigger] gcd(a, b, c, d) <= rpi() by { lemma_gcd(a, b, c, d); }
    }
}
//@end
//#}
}
