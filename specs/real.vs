// ---------------------------------------------------------------- ASSUMPTION arith: machine arithmetic is that of the reals
pub broadcast axiom fn ax_add(a: T, b: T) requires !nan(a), !nan(b) ensures !nan(#[trigger] add(a, b)), key(add(a, b)) == key(a) + key(b);
pub broadcast axiom fn ax_sub(a: T, b: T) requires !nan(a), !nan(b) ensures !nan(#[trigger] sub(a, b)), key(sub(a, b)) == key(a) - key(b);
pub broadcast axiom fn ax_mul(a: T, b: T) requires !nan(a), !nan(b) ensures !nan(#[trigger] mul(a, b)), key(mul(a, b)) == key(a) * key(b);
pub broadcast axiom fn ax_div(a: T, b: T) requires !nan(a), !nan(b), key(b) != 0real ensures !nan(#[trigger] div(a, b)), key(div(a, b)) == key(a) / key(b);
pub broadcast axiom fn ax_neg(a: T) requires !nan(a) ensures !nan(#[trigger] neg(a)), key(neg(a)) == -key(a);
pub broadcast axiom fn ax_zero() ensures !nan(#[trigger] zero()), key(zero()) == 0real;
pub broadcast axiom fn ax_one() ensures !nan(#[trigger] one()), key(one()) == 1real;
pub broadcast group group_real { ax_add, ax_sub, ax_mul, ax_div, ax_neg, ax_zero, ax_one }
