// ---------------------------------------------------------------- std::fmt (trusted contracts)
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter { p: PhantomData<()> }
// what has been written so far, and whether what is behind the formatter can refuse to take more
pub uninterp spec fn out(f: Formatter) -> Seq<char>;
pub uninterp spec fn fallible(f: Formatter) -> bool;
// what is there after one more piece
#[verifier::opaque]
pub open spec fn put(o: Seq<char>, s: Seq<char>) -> Seq<char> { o + s }
// `now` has been written, unless what is behind the formatter refused
pub open spec fn wrote(a: Formatter, b: Formatter, r: FmtResult, now: Seq<char>) -> bool {
    &&& fallible(b) == fallible(a)
    &&& r is Err ==> fallible(a)
    &&& r is Ok ==> out(b) == now
}
pub broadcast proof fn lemma_put_cat(o: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] put(o, a + b) == put(put(o, a), b)
{ reveal(put); assert(o + (a + b) =~= (o + a) + b); }
pub broadcast proof fn lemma_put_put(o: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] put(o, put(a, b)) == put(put(o, a), b)
{ reveal(put); assert(o + (a + b) =~= (o + a) + b); }
pub broadcast proof fn lemma_put_nil(o: Seq<char>) ensures #[trigger] put(o, Seq::<char>::empty()) == o
{ reveal(put); assert(o + Seq::<char>::empty() =~= o); }
#[verifier::external_body]
pub fn qt_lit(f: &mut Formatter, s: &str) -> (r: FmtResult) ensures wrote(*old(f), *final(f), r, put(out(*old(f)), s@)) { unimplemented!() }
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, put(out(*old(self)), s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, put(out(*old(self)), seq![c])) { unimplemented!() }
    #[verifier::external_body]
    pub fn qt_own() -> (r: Formatter) ensures out(r) == Seq::<char>::empty(), !fallible(r) { unimplemented!() }
}
#[verifier::external_body]
pub fn qt_unfailing(r: FmtResult, f: Formatter) -> (s: String) requires r is Ok ensures s@ == out(f) { unimplemented!() }
// how a whole number reads, and how a coordinate reads (with so many decimals)
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub uninterp spec fn shown(x: T, decimals: Option<usize>) -> Seq<char>;
// ASSUMPTION digits: the numbers 0 and 1 are written 0 and 1
#[verifier::external_body]
pub broadcast proof fn axiom_dec(n: nat) ensures #![trigger dec(n)] n == 0 ==> dec(n) == "0"@, n == 1 ==> dec(n) == "1"@ {}
pub open spec fn blanks(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
pub open spec fn times(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { times(s, n - 1) + s } }
pub broadcast proof fn lemma_times(k: int, n: int)
    requires n >= 0, k >= 0
    ensures #[trigger] times(blanks(k), n) == blanks(k * n)
    decreases n
{
    if n > 0 {
        lemma_times(k, n - 1);
        assert(k * n == k * (n - 1) + k) by (nonlinear_arith);
        assert(k * (n - 1) >= 0) by (nonlinear_arith) requires n >= 1, k >= 0;
        assert(blanks(k * (n - 1)) + blanks(k) =~= blanks(k * n));
    } else {
        assert(k * n == 0) by (nonlinear_arith) requires n == 0;
        assert(blanks(0) =~= Seq::<char>::empty());
    }
}
pub enum QtSide { Own, Left, Right }
pub open spec fn padded(s: Seq<char>, left: bool, w: usize) -> Seq<char> {
    if s.len() >= w { s } else if left { s + blanks(w - s.len()) } else { blanks(w - s.len()) + s }
}
pub broadcast proof fn lemma_padded(s: Seq<char>, left: bool, w: usize)
    requires s.len() == 0
    ensures #[trigger] padded(s, left, w) == blanks(w as int)
{ assert(padded(s, left, w) =~= blanks(w as int)); }
pub open spec fn lefty(side: QtSide, own: bool) -> bool { match side { QtSide::Own => own, QtSide::Left => true, QtSide::Right => false } }
pub open spec fn cut(s: Seq<char>, decimals: Option<usize>) -> Seq<char> { if decimals is None || decimals->0 >= s.len() { s } else { s.take(decimals->0 as int) } }
pub trait QtDisp {
    // what is there after printing this behind o
    spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char>;
    spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char>;
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) ensures wrote(*old(f), *final(f), r, self.after(out(*old(f)), decimals));
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult)
        ensures wrote(*old(f), *final(f), r, self.afterp(out(*old(f)), side, w, decimals));
}
impl QtDisp for str {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, cut(self@, decimals)) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(cut(self@, decimals), lefty(side, true), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl QtDisp for String {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, cut(self@, decimals)) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(cut(self@, decimals), lefty(side, true), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl QtDisp for char {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, seq![*self]) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(seq![*self], lefty(side, true), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl QtDisp for usize {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, dec(*self as nat)) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(dec(*self as nat), lefty(side, false), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl QtDisp for u8 {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, dec(*self as nat)) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(dec(*self as nat), lefty(side, false), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl QtDisp for T {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { put(o, shown(*self, decimals)) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { put(o, padded(shown(*self, decimals), lefty(side, false), w)) }
    #[verifier::external_body]
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
impl<'a, X: QtDisp + ?Sized> QtDisp for &'a X {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { (**self).after(o, decimals) }
    open spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char> { (**self).afterp(o, side, w, decimals) }
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { (**self).qt_fmt(f, decimals) }
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { (**self).qt_pad(f, side, w, decimals) }
}
// &str and String
pub trait QtText {
    spec fn chars(&self) -> Seq<char>;
    fn qt_repeat(&self, n: usize) -> (r: String) ensures r@ == times(self.chars(), n as int);
    fn qt_text(&self) -> (r: String) ensures r@ == self.chars();
}
impl QtText for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn qt_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn qt_text(&self) -> (r: String) { unimplemented!() }
}
impl QtText for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn qt_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn qt_text(&self) -> (r: String) { unimplemented!() }
}
