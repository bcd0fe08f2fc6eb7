// ---------------------------------------------------------------- what printing a tree writes
// how many data the cell itself holds
pub open spec fn holds(n: nat) -> Seq<char> {
    if n == 0 { ""@ } else if n == 1 { " 1 child"@ } else { " "@ + dec(n) + " children"@ }
}
// one line per cell, behind what is there (o): four blanks per level, the low corner, the number of data
pub open spec fn line(o: Seq<char>, n: Nd) -> Seq<char> {
    put(put(put(put(put(put(put(put(o, blanks(4 * n.depth as int)), "("@), shown(n.bounds.mn.x, Some(2))), ", "@), shown(n.bounds.mn.y, Some(2))), "):"@), holds(n.own().len())), "\n"@)
}
// the cells in preorder
pub open spec fn printed(o: Seq<char>, n: Nd) -> Seq<char> decreases n {
    match n.nodes {
        None => line(o, n),
        Some(b) => printed(printed(printed(printed(line(o, n), b@[0]), b@[1]), b@[2]), b@[3]),
    }
}
pub open spec fn rows(o: Seq<char>, s: Seq<Nd>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { o } else { rows(printed(o, s[0]), s.skip(1)) }
}
pub broadcast proof fn lemma_rows4(o: Seq<char>, s: Seq<Nd>)
    requires s.len() == 4
    ensures #[trigger] rows(o, s) == printed(printed(printed(printed(o, s[0]), s[1]), s[2]), s[3])
{
    let a = s.skip(1); let b = a.skip(1); let c = b.skip(1);
    let o1 = printed(o, s[0]); let o2 = printed(o1, s[1]); let o3 = printed(o2, s[2]);
    assert(rows(o, s) == rows(o1, a));
    assert(rows(o1, a) == rows(o2, b));
    assert(rows(o2, b) == rows(o3, c));
    assert(rows(o3, c) == rows(printed(o3, s[3]), c.skip(1)));
}
pub broadcast proof fn lemma_rows_at(o: Seq<char>, s: Seq<Nd>, i: int)
    requires 0 <= i <= s.len()
    ensures #[trigger] rows(o, s.skip(i)) == (if i == s.len() { o } else { rows(printed(o, s[i]), s.skip(i + 1)) })
{
    if i < s.len() { assert(s.skip(i).skip(1) =~= s.skip(i + 1)); assert(s.skip(i)[0] == s[i]); }
}
impl QtDisp for Nd {
    open spec fn after(&self, o: Seq<char>, decimals: Option<usize>) -> Seq<char> { printed(o, *self) }
    uninterp spec fn afterp(&self, o: Seq<char>, side: QtSide, w: usize, decimals: Option<usize>) -> Seq<char>;
    fn qt_fmt(&self, f: &mut Formatter, decimals: Option<usize>) -> (r: FmtResult) { self.fmt(f) }
    #[verifier::external_body]
    fn qt_pad(&self, f: &mut Formatter, side: QtSide, w: usize, decimals: Option<usize>) -> (r: FmtResult) { unimplemented!() }
}
