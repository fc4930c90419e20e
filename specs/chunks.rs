// R chunks of Rmd/Qmd files (used by P05, P11)
// ---- the fence ----
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn tick(c: char) -> bool { c == '`' }
/// length of the run of characters satisfying f from p on
pub open spec fn run(l: Seq<char>, p: int, f: spec_fn(char) -> bool) -> int
    decreases l.len() - p,
{ if 0 <= p < l.len() && f(l[p]) { 1 + run(l, p + 1, f) } else { 0 } }
pub open spec fn indent(l: Seq<char>) -> int { run(l, 0, |c| blank(c)) }
pub open spec fn ticks(l: Seq<char>) -> int { run(l, indent(l), |c| tick(c)) }
/// the backticks of a line that opens an R chunk
pub open spec fn opens(l: Seq<char>) -> Option<Seq<char>> {
    let p = indent(l) + ticks(l);
    if ticks(l) >= 3 && p + 2 < l.len() && l[p] == '{' && (l[p + 1] == 'r' || l[p + 1] == 'R') && exists|q: int| p + 2 <= q < l.len() && l[q] == '}'
        { Some(Seq::new(ticks(l) as nat, |i: int| '`')) } else { None }
}
//@require crates/jarl-core/src/rmd/extraction.rs `Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}")`
// OPEN_FENCE.captures(line), then group 1 (TRUSTED reading of the regular expression above)
pub struct VxMatch<'a> { pub s: &'a str }
impl<'a> VxMatch<'a> {
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.s@ { self.s }
}
pub struct VxCaps<'a> { pub one: Option<VxMatch<'a>> }
impl<'a> VxCaps<'a> {
    pub open spec fn m(&self) -> Option<VxMatch<'a>> { self.one }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<VxMatch<'a>>)
        ensures i == 1 ==> r == self.m()
    { unimplemented!() }
}
pub struct VxFence { }
pub fn vx_fence() -> VxFence { VxFence { } }
impl VxFence {
    #[verifier::external_body]
    pub fn captures<'a>(&self, l: &'a str) -> (r: Option<VxCaps<'a>>)
        ensures match opens(l@) { Some(t) => r is Some && r->0.m() is Some && r->0.m()->0.s@ == t, None => r is None },
    { unimplemented!() }
}
//@item crates/jarl-core/src/rmd/extraction.rs struct RCodeChunk

// ---- the chunks of a document given as lines ----
/// first line from j on that closes a chunk opened by `fence` (or the number of lines)
pub open spec fn closing(ls: Seq<Seq<char>>, j: int, fence: Seq<char>) -> int
    decreases ls.len() - j,
{ if j < 0 || j >= ls.len() { ls.len() as int } else if trim(ls[j]) == fence { j } else { closing(ls, j + 1, fence) } }
pub open spec fn off(ls: Seq<Seq<char>>, i: int) -> int { encode_utf8(concat(ls.take(i))).len() as int }
pub open spec fn chunks_from(ls: Seq<Seq<char>>, i: int) -> Seq<(Seq<char>, int)>
    decreases ls.len() - i,
{
    if i < 0 || i >= ls.len() { Seq::empty() } else if opens(ls[i]) is None { chunks_from(ls, i + 1) } else {
        let j = closing(ls, i + 1, opens(ls[i])->0);
        if j >= ls.len() || j <= i { Seq::empty() } else { seq![(concat(ls.subrange(i + 1, j)), off(ls, i + 1))] + chunks_from(ls, j + 1) }
    }
}
pub open spec fn cviews(v: Seq<RCodeChunk>) -> Seq<(Seq<char>, int)> { v.map_values(|c: RCodeChunk| (c.code@, c.start_byte as int)) }
/// the chunk is a verbatim piece of the file
pub open spec fn verbatim(content: Seq<char>, c: (Seq<char>, int)) -> bool {
    let b = encode_utf8(content);
    0 <= c.1 && c.1 + encode_utf8(c.0).len() <= b.len() && b.subrange(c.1, c.1 + encode_utf8(c.0).len()) == encode_utf8(c.0)
}
/// chunks are in order and disjoint
pub open spec fn ordered(cs: Seq<(Seq<char>, int)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).1 + encode_utf8(cs[i].0).len() <= (#[trigger] cs[j]).1
}
pub proof fn lemma_closing(ls: Seq<Seq<char>>, j: int, fence: Seq<char>)
    requires 0 <= j <= ls.len(),
    ensures j <= closing(ls, j, fence) <= ls.len(),
    decreases ls.len() - j,
{ if j < ls.len() && trim(ls[j]) != fence { lemma_closing(ls, j + 1, fence); } }
pub proof fn lemma_off(ls: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i <= j <= ls.len(),
    ensures off(ls, j) == off(ls, i) + encode_utf8(concat(ls.subrange(i, j))).len(),
        verbatim(concat(ls), (concat(ls.subrange(i, j)), off(ls, i))),
        off(ls, j) <= encode_utf8(concat(ls)).len(),
{
    let a = concat(ls.take(i)); let m = concat(ls.subrange(i, j)); let z = concat(ls.skip(j));
    lemma_concat_split(ls, j);
    lemma_concat_split(ls.take(j), i);
    assert(ls.take(j).take(i) =~= ls.take(i));
    assert(ls.take(j).skip(i) =~= ls.subrange(i, j));
    assert(concat(ls) == (a + m) + z);
    lemma_encode_concat(a, m);
    lemma_encode_concat(a + m, z);
    assert(encode_utf8(concat(ls)).subrange(off(ls, i), off(ls, i) + encode_utf8(m).len()) =~= encode_utf8(m));
}
pub proof fn lemma_chunks(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures
        forall|k: int| 0 <= k < chunks_from(ls, i).len() ==> verbatim(concat(ls), #[trigger] chunks_from(ls, i)[k]) && chunks_from(ls, i)[k].1 >= off(ls, i),
        ordered(chunks_from(ls, i)),
    decreases ls.len() - i,
{
    if i < ls.len() {
        lemma_off(ls, i, i + 1);
        if opens(ls[i]) is None { lemma_chunks(ls, i + 1); } else {
            let j = closing(ls, i + 1, opens(ls[i])->0);
            lemma_closing(ls, i + 1, opens(ls[i])->0);
            if j < ls.len() {
                lemma_chunks(ls, j + 1);
                lemma_off(ls, i + 1, j);
                lemma_off(ls, j, j + 1);
                lemma_off(ls, i, j + 1);
            }
        }
    }
}
pub open spec fn chunks_of(content: Seq<char>, cs: Seq<(Seq<char>, int)>) -> bool {
    exists|ls: Seq<Seq<char>>| #[trigger] is_split_inclusive(content, '\n', ls) && cs == chunks_from(ls, 0)
}

//@fn crates/jarl-core/src/rmd/extraction.rs extract_r_chunks
//@subst `OPEN_FENCE` => `vx_fence()`
//@ret r
//@contract
    ensures
        chunks_of(content@, cviews(r@)),
        forall|i: int| 0 <= i < r@.len() ==> verbatim(content@, #[trigger] cviews(r@)[i]),
        ordered(cviews(r@)),
//@at before let current
    let ghost mut i0: int = 0;
//@at before loop 0
    let ghost ls = views(vx_lines@);
    proof { assert(content.spec_bytes().len() <= isize::MAX); }
//@loop 0 it hoist=vx_lines
    invariant
        it.seq() == vx_lines@, ls == views(vx_lines@), is_split_inclusive(content@, '\n', ls),
        encode_utf8(content@).len() <= isize::MAX,
        byte_offset == off(ls, it.index() as int),
        match current {
            None => cviews(chunks@) + chunks_from(ls, it.index() as int) == chunks_from(ls, 0),
            Some(c) => 0 <= i0 < it.index() && opens(ls[i0]) == Some(c.0@) && c.1@ == concat(ls.subrange(i0 + 1, it.index() as int))
                && c.2 == off(ls, i0 + 1) && closing(ls, i0 + 1, c.0@) == closing(ls, it.index() as int, c.0@)
                && cviews(chunks@) + chunks_from(ls, i0) == chunks_from(ls, 0),
        },
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost before = cviews(chunks@);
    proof {
        assert(ls[k] == line@);
        lemma_off(ls, k, k + 1);
        assert(ls.subrange(k, k + 1) =~= seq![line@]);
        reveal_with_fuel(concat, 2);
        assert(concat(seq![line@]) =~= line@) by { assert(seq![line@].drop_last() =~= Seq::<Seq<char>>::empty()); }
        if current is Some {
            assert(ls.subrange(i0 + 1, k + 1).drop_last() =~= ls.subrange(i0 + 1, k));
        }
        lemma_off(ls, k + 1, ls.len() as int);
    }
//@at before `current = None`
    proof {
        assert(cviews(chunks@) =~= before + seq![(concat(ls.subrange(i0 + 1, k)), off(ls, i0 + 1))]);
        assert(before + chunks_from(ls, i0) =~= cviews(chunks@) + chunks_from(ls, k + 1));
    }
//@at before `let fence`
    proof { i0 = k; assert(ls.subrange(k + 1, k + 1) =~= Seq::<Seq<char>>::empty()); }
//@at after loop 0
    proof {
        lemma_chunks(ls, 0);
        assert(cviews(chunks@) + Seq::<(Seq<char>, int)>::empty() =~= cviews(chunks@));
        assert(cviews(chunks@) == chunks_from(ls, 0));
    }
//@end
