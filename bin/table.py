"""property -> worlds (files in /verif/specs) that decide it, and the assumptions it rests on"""
TREE = ['point.vs', 'bounds.vs']
# lemmas only: skipping cells by their distance is right, from the contracts of the distance functions (C11-C15)
PRUNE = ['prune_e.vs:C90', 'prune_s.vs:C90']
WORLDS = {
    'C01': TREE, 'C02': TREE, 'C03': TREE, 'C04': TREE, 'C20': TREE, 'C05': ['point.vs'], 'C06': ['bounds.vs'], 'C18': TREE,
    'C11': ['geo.vs'], 'C12': ['geo.vs'], 'C16': ['geo.vs'], 'C17': ['geo.vs'],
    'C13': ['sph.vs', 'geo.vs'], 'C14': ['sph.vs', 'geo.vs'], 'C15': ['sph.vs', 'geo.vs'], 'C19': ['sph.vs', 'geo.vs'],
    'C07': TREE + PRUNE, 'C08': TREE + PRUNE, 'C09': TREE + PRUNE, 'C10': TREE,
}
_T = 'numbers: an arbitrary GeoNum T; comparisons are those of the reals the values stand for, NaN compares with nothing; +,-,/ uninterpreted'
_D = 'a datum is an arbitrary AsPoint/AsGeom value whose position / geometry is a function of the datum'
_STD = 'std Vec, Option, Box, slices, slice iterators and Chain behave as their (vstd or stated) contracts say'
_GEO = "geo's Rect::new/min/max/width/height/intersects (f64: Kani over the full domain, /verif/kani, thorough tier) and bounding_rect behave as the stated contracts say"
_MID = 'the centre computed for a cell of usable size lies in the cell, and parts of such a cell are of usable size (bit-precise for f32, f64, i32 by Kani over the full domain: /verif/kani, thorough tier; any other GeoNum: assumed)'
_DST = 'the distance functions are functions of their arguments and meet the contracts under which C11-C15 are proved (with the assumptions made there)'
_PRN = 'skipping cells: what lies in a rectangle is not nearer than the rectangle (lemma_prune in specs/prune_e.vs and prune_s.vs, proved from those contracts for shapes with numbers for coordinates and valid polygons, over the reals: distances that differ by rounding only may be taken for equal)'
_INF = 'infinity is a number and nothing is greater'
_SRT = 'slice::sort_unstable_by permutes the slice into the order the comparison gives'
_TG = 'numbers: an arbitrary floating-point T; comparisons are those of the reals the values stand for, NaN compares with nothing'
_AR = 'arithmetic on numbers is that of the reals: rounding, overflow and the precision of libm are left out (the driver runs the real f64 and f32 code)'
_TRIG = "sin, cos, asin, sqrt, atan2, powi, %, signum, min, max, abs are the real functions, PI is pi; of those the textbook facts listed in specs/trig.vs (Pythagoras, addition formulas, cos decreasing on [0, pi], what asin, sqrt and atan2 invert)"
ASSUME = {
    'C13': [_TG, _AR, _TRIG, "geo's lines() joins consecutive positions, exterior()/interiors() are the rings, intersects() says whether the point is in the polygon or on its border", 'infinity is a number greater than pi'],
    'C14': [_TG, _AR, _TRIG],
    'C15': [_TG, _AR, _TRIG],
    'C19': [_TG, _AR, _TRIG, 'T::to_f64 keeps the value'],
    'C11': [_TG, _AR, "between two shapes other than rectangles geo's Euclidean::distance is the distance: no greater than between any two places of the shapes, and reached between two of them; Rect::to_polygon has the places of the rectangle"],
    'C12': [_TG, 'the six spherical formulas are functions of their arguments here (what they compute: C13, C14, C15, C19)'],
    'C16': [_TG, "geo's map_coords and map_coords_in_place apply the function to every position and keep the structure", "the float's to_radians multiplies by pi/180 and keeps the order of numbers"],
    'C17': [_TG, "geo's bounding_rect is the smallest rectangle around the positions, none without positions"],
    'C07': [_T, _D, _STD, _GEO, _MID, _DST, _PRN, _INF],
    'C08': [_T, _D, _STD, _GEO, _MID, _DST, _PRN, _INF, _SRT],
    'C09': [_T, _D, _STD, _GEO, _MID, _DST, _PRN, _SRT, "Iterator adapters over SortIter (its provided methods) are std's"],
    'C10': [_T, _D, _STD, _GEO, _DST, _INF, _SRT],
    'C01': [_T, _D, _STD, _GEO, 'size stays below usize::MAX'],
    'C02': [_T, _D, _STD, _GEO, 'size stays below usize::MAX'],
    'C03': [_D, _STD],
    'C04': [_T, _D, _STD, _GEO],
    'C05': [_T, _D, _STD],
    'C06': [_T, _D, _STD, _GEO, _MID],
    'C18': [_T, _D, _STD, _GEO, _MID],
    'C20': [_T, _D, _STD, _GEO, 'std::fmt: write!, writeln! and format! write the pieces of their string in order, stop at the first failure and do not fail otherwise; how a number reads (Display of integers and coordinates) is a function of the number and the decimals asked for'],
}
NOTES = {}
LEVEL_NOTE = {
    '': 'Every obligation generated from the current source is discharged by Verus for all inputs, under the assumptions in the evidence file '
        '(opaque number type, std/geo contracts). If the source leaves the supported subset the check says NOT PROVED and falls back on a bounded '
        'search of the real crate, reported as bounded in the evidence.',
}
NOT_APPLICABLE = {}
