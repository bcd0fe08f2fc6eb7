//! Deterministic generator: every case is derived from (seed, property, case number).
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= case.wrapping_mul(0xD1342543DE82EF95);
        let mut r = Rng(h);
        for _ in 0..3 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + self.f() * (b - a)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

/// Numbers that the source under test mentions and the recorded source did not (QT_DICT, set by bin/check.py):
/// a change that does something special at 37 is looked at around 37.
pub fn dict() -> &'static [f64] {
    static D: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("QT_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite() && (*x == 0.0 || x.abs() > 1e-60)).collect())
}
pub fn lit(r: &mut Rng, whole: bool) -> f64 {
    let x = *r.pick(dict());
    if whole || x.fract() == 0.0 && x.abs() < 1e9 && r.chance(1, 2) {
        return x + r.below(3) as f64 - 1.0;
    }
    match r.below(8) {
        0 => -x,
        // (next to 0 are numbers whose squares are 0: geo's own distances are NaN there)
        1 if x != 0.0 => x.next_up(),
        2 if x != 0.0 => x.next_down(),
        3 => x * 1.5,
        4 => x * 0.5,
        _ => x,
    }
}
