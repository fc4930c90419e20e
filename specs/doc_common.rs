//@item crates/jarl-lsp/src/document.rs enum PositionEncoding derive=Clone,Copy,PartialEq,Eq,Structural
//@item crates/jarl-lsp/src/document.rs type DocumentVersion
//@item crates/jarl-lsp/src/document.rs struct TextDocument

// ---- the property's own notions, over the bytes of the text ----
/// v is the table of line starts of b[..n]: 0 and every position after a newline, in order
pub open spec fn has_start(v: Seq<usize>, x: int) -> bool { exists|m: int| 0 <= m < v.len() && #[trigger] v[m] == x }
#[verifier::opaque]
pub open spec fn is_line_table(b: Seq<u8>, v: Seq<usize>, n: int) -> bool {
    &&& v.len() > 0 && v[0] == 0
    &&& forall|k: int| 0 < k < v.len() ==> 0 < #[trigger] v[k] <= n && b[v[k] - 1] == 10u8
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> v[j] < v[k]
    &&& forall|p: int| 0 <= p < n && #[trigger] b[p] == 10u8 ==> has_start(v, p + 1)
}
/// length of text in the units of an encoding
pub open spec fn units(s: Seq<char>, enc: PositionEncoding) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { units(s.drop_last(), enc) + unit1(s.last(), enc) }
}
pub open spec fn unit1(c: char, enc: PositionEncoding) -> nat {
    match enc {
        PositionEncoding::UTF8 => encode_utf8(seq![c]).len(),
        PositionEncoding::UTF16 => len16(c),
        PositionEncoding::UTF32 => 1,
    }
}
/// units between two char boundaries
pub open spec fn units_between(b: Seq<u8>, i: int, j: int, enc: PositionEncoding) -> nat {
    units(decode_utf8(b.subrange(i, j)), enc)
}
pub open spec fn line_end(b: Seq<u8>, v: Seq<usize>, k: int) -> int {
    if k + 1 < v.len() { v[k + 1] - 1 } else { b.len() as int }
}
pub open spec fn on_line(b: Seq<u8>, v: Seq<usize>, k: int, o: int) -> bool {
    0 <= k < v.len() && v[k] <= o <= line_end(b, v, k) && is_char_boundary(b, o)
}
impl TextDocument {
    pub open spec fn b(&self) -> Seq<u8> { encode_utf8(self.content@) }
    /// representation invariant: the cached line table is that of the text
    pub open spec fn wf(&self) -> bool { is_line_table(self.b(), self.line_starts@, self.b().len() as int) }
}
pub proof fn lemma_line_boundaries(b: Seq<u8>, v: Seq<usize>, k: int)
    requires valid_utf8(b), is_line_table(b, v, b.len() as int), 0 <= k < v.len(),
    ensures
        is_char_boundary(b, v[k] as int), is_char_boundary(b, line_end(b, v, k)),
        0 <= v[k] <= line_end(b, v, k) <= b.len(),
        forall|p: int| v[k] <= p < line_end(b, v, k) ==> b[p] != 10u8,
{
    reveal(is_line_table);
    is_char_boundary_start_end_of_seq(b);
    if k > 0 { lemma_ascii_boundary(b, v[k] - 1); }
    if k + 1 < v.len() { lemma_ascii_boundary(b, v[k + 1] - 1); }
    assert forall|p: int| v[k] <= p < line_end(b, v, k) implies b[p] != 10u8 by {
        if b[p] == 10u8 {
            assert(has_start(v, p + 1));
            let m = choose|m: int| 0 <= m < v.len() && v[m] == p + 1;
            if m <= k { assert(v[m] <= v[k]); } else if m > k + 1 { assert(v[k + 1] < v[m]); }
        }
    }
}
pub proof fn lemma_unit_pos(c: char, enc: PositionEncoding)
    ensures unit1(c, enc) >= 1,
{
    lemma_char_len(c);
}
pub proof fn lemma_units_concat(a: Seq<char>, z: Seq<char>, enc: PositionEncoding)
    ensures units(a + z, enc) == units(a, enc) + units(z, enc),
    decreases z.len(),
{
    if z.len() == 0 { assert(a + z =~= a); } else {
        assert((a + z).drop_last() =~= a + z.drop_last());
        lemma_units_concat(a, z.drop_last(), enc);
    }
}
pub proof fn lemma_units_lower(s: Seq<char>, enc: PositionEncoding)
    ensures units(s, enc) >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_units_lower(s.drop_last(), enc); lemma_unit_pos(s.last(), enc); }
}
pub proof fn lemma_units_utf8(s: Seq<char>)
    ensures units(s, PositionEncoding::UTF8) == encode_utf8(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s =~= s.drop_last() + seq![s.last()]);
        encode_utf8_concat(s.drop_last(), seq![s.last()]);
        lemma_units_utf8(s.drop_last());
    } else { reveal_with_fuel(encode_utf8, 2); }
}
/// on one line, different boundaries have different unit counts, in the same order
pub proof fn lemma_units_mono(b: Seq<u8>, i: int, j: int, k: int, enc: PositionEncoding)
    requires valid_utf8(b), 0 <= i <= j <= k <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j), is_char_boundary(b, k),
    ensures units_between(b, i, k, enc) == units_between(b, i, j, enc) + units_between(b, j, k, enc),
        j < k ==> units_between(b, j, k, enc) >= 1,
        enc == PositionEncoding::UTF8 ==> units_between(b, i, j, enc) == j - i,
{
    lemma_decode_concat(b, i, j, k);
    lemma_units_concat(decode_utf8(b.subrange(i, j)), decode_utf8(b.subrange(j, k)), enc);
    lemma_units_utf8(decode_utf8(b.subrange(i, j)));
    decode_utf8_encode_utf8(b.subrange(i, j));
    if j < k {
        lemma_units_lower(decode_utf8(b.subrange(j, k)), enc);
        decode_utf8_encode_utf8(b.subrange(j, k));
        if decode_utf8(b.subrange(j, k)).len() == 0 { reveal_with_fuel(encode_utf8, 2); assert(b.subrange(j, k).len() == 0); }
    }
}

/// state of a left-to-right scan of a line: the first k characters are consumed
pub open spec fn scan_at(lc: Seq<char>, k: int, bp: int, up: int, target: int, enc: PositionEncoding) -> bool {
    &&& 0 <= k <= lc.len()
    &&& bp == encode_utf8(lc.take(k)).len()
    &&& up == units(lc.take(k), enc)
    &&& k > 0 ==> units(lc.take(k - 1), enc) < target
}
pub open spec fn scan_done(lc: Seq<char>, bp: int, up: int, target: int, enc: PositionEncoding) -> bool {
    exists|k: int| #[trigger] scan_at(lc, k, bp, up, target, enc) && (k == lc.len() || up >= target)
}
pub proof fn lemma_scan_step(lc: Seq<char>, k: int, bp: int, up: int, target: int, enc: PositionEncoding)
    requires scan_at(lc, k, bp, up, target, enc), k < lc.len(), up < target,
    ensures scan_at(lc, k + 1, bp + encode_scalar(lc[k] as u32).len(), (up + unit1(lc[k], enc)) as int, target, enc),
        bp + encode_scalar(lc[k] as u32).len() <= encode_utf8(lc).len(),
        up + unit1(lc[k], enc) <= encode_utf8(lc).len(),
{
    assert(lc.take(k + 1) =~= lc.take(k) + seq![lc[k]]);
    assert(lc.take(k + 1).drop_last() =~= lc.take(k));
    encode_utf8_concat(lc.take(k), seq![lc[k]]);
    lemma_char_len(lc[k]);
    lemma_prefix_boundary(lc, k + 1);
    lemma_units_le_bytes(lc.take(k + 1), enc);
}
pub proof fn lemma_units_le_bytes(s: Seq<char>, enc: PositionEncoding)
    ensures units(s, enc) <= encode_utf8(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s =~= s.drop_last() + seq![s.last()]);
        encode_utf8_concat(s.drop_last(), seq![s.last()]);
        lemma_units_le_bytes(s.drop_last(), enc);
        lemma_char_len(s.last());
    }
}
pub proof fn lemma_units_take_mono(lc: Seq<char>, i: int, j: int, enc: PositionEncoding)
    requires 0 <= i <= j <= lc.len(),
    ensures units(lc.take(i), enc) <= units(lc.take(j), enc),
{
    assert(lc.take(j) =~= lc.take(i) + lc.subrange(i, j));
    lemma_units_concat(lc.take(i), lc.subrange(i, j), enc);
}
pub proof fn lemma_scan(b: Seq<u8>, v: Seq<usize>, line: int, lc: Seq<char>, bp: int, up: int, target: int, enc: PositionEncoding)
    requires valid_utf8(b), is_line_table(b, v, b.len() as int), 0 <= line < v.len(),
        encode_utf8(lc) == b.subrange(v[line] as int, line_end(b, v, line)),
        scan_done(lc, bp, up, target, enc), 0 <= target,
    ensures on_line(b, v, line, v[line] + bp),
        units_between(b, v[line] as int, v[line] + bp, enc) == up,
        up < target ==> v[line] + bp == line_end(b, v, line),
        enc == PositionEncoding::UTF32 ==> up <= target,
        up > target ==> forall|o: int| #[trigger] on_line(b, v, line, o) ==> units_between(b, v[line] as int, o, enc) != target,
{
    let ls = v[line] as int;
    let le = line_end(b, v, line);
    let lb = b.subrange(ls, le);
    lemma_line_boundaries(b, v, line);
    let k = choose|k: int| #[trigger] scan_at(lc, k, bp, up, target, enc) && (k == lc.len() || up >= target);
    lemma_prefix_boundary(lc, k);
    lemma_boundary_sub(b, ls, le, ls + bp);
    assert(lb.subrange(0, bp) =~= b.subrange(ls, ls + bp));
    if k == lc.len() { assert(lc.take(k) =~= lc); }
    if k > 0 { assert(lc.take(k).drop_last() =~= lc.take(k - 1)); assert(units(lc.take(k), enc) == units(lc.take(k - 1), enc) + unit1(lc[k - 1], enc)); }
    if up > target {
        assert forall|o: int| #[trigger] on_line(b, v, line, o) implies units_between(b, v[line] as int, o, enc) != target by {
            lemma_boundary_sub(b, ls, le, o);
            lemma_boundary_is_prefix(lc, o - ls);
            assert(lb.subrange(0, o - ls) =~= b.subrange(ls, o));
            let m = decode_utf8(lb.subrange(0, o - ls)).len() as int;
            if m >= k { lemma_units_take_mono(lc, k, m, enc); } else { lemma_units_take_mono(lc, m, k - 1, enc); }
        }
    }
}

pub broadcast proof fn lemma_usum_units16(t: Seq<usize>, s: Seq<char>)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == len16(s[i]),
    ensures #![trigger usum(t), units(s, PositionEncoding::UTF16)] usum(t) == units(s, PositionEncoding::UTF16),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] t.drop_last()[i] == len16(s.drop_last()[i]) by { assert(t[i] == len16(s[i])); }
        lemma_usum_units16(t.drop_last(), s.drop_last());
        assert(t[s.len() - 1] == len16(s[s.len() - 1]));
    }
}

pub proof fn lemma_units32(s: Seq<char>)
    ensures units(s, PositionEncoding::UTF32) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_units32(s.drop_last()); }
}

pub proof fn lemma_table_ge(b: Seq<u8>, v: Seq<usize>, k: int)
    requires is_line_table(b, v, b.len() as int), 0 <= k < v.len(),
    ensures v[k] >= k, k + 1 < v.len() ==> v[k] < v[k + 1],
    decreases k,
{
    reveal(is_line_table);
    if k > 0 { lemma_table_ge(b, v, k - 1); assert(v[k - 1] < v[k]); }
}

pub proof fn lemma_table_sorted(b: Seq<u8>, v: Seq<usize>)
    requires is_line_table(b, v, b.len() as int),
    ensures vx_sorted(v), v.len() > 0, v[0] == 0,
{ reveal(is_line_table); reveal(vx_sorted); }
