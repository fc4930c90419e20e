// ---- proved facts about UTF-8 text (no assumptions here) ----
pub proof fn lemma_boundary_suffix(b: Seq<u8>, i: int, p: int)
    requires valid_utf8(b), 0 <= i <= p <= b.len(), is_char_boundary(b, i),
    ensures is_char_boundary(b, p) == is_char_boundary(b.subrange(i, b.len() as int), p - i),
{
    valid_utf8_split(b, i);
    let t = b.subrange(i, b.len() as int);
    is_char_boundary_start_end_of_seq(b);
    is_char_boundary_start_end_of_seq(t);
    if p < b.len() {
        is_char_boundary_iff_not_is_continuation_byte(b, p);
        is_char_boundary_iff_not_is_continuation_byte(t, p - i);
    }
}
pub proof fn lemma_boundary_prefix(b: Seq<u8>, i: int, p: int)
    requires valid_utf8(b), 0 <= p <= i <= b.len(), is_char_boundary(b, i),
    ensures is_char_boundary(b, p) == is_char_boundary(b.subrange(0, i), p),
{
    valid_utf8_split(b, i);
    let t = b.subrange(0, i);
    is_char_boundary_start_end_of_seq(t);
    if p < i {
        is_char_boundary_iff_not_is_continuation_byte(b, p);
        is_char_boundary_iff_not_is_continuation_byte(t, p);
    }
}
pub proof fn lemma_valid_sub(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i <= j <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j),
    ensures valid_utf8(b.subrange(i, j)),
{
    valid_utf8_split(b, i);
    let t = b.subrange(i, b.len() as int);
    lemma_boundary_suffix(b, i, j);
    valid_utf8_split(t, j - i);
    assert(t.subrange(0, j - i) =~= b.subrange(i, j));
}
pub proof fn lemma_boundary_sub(b: Seq<u8>, i: int, j: int, p: int)
    requires valid_utf8(b), 0 <= i <= p <= j <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j),
    ensures is_char_boundary(b, p) == is_char_boundary(b.subrange(i, j), p - i), valid_utf8(b.subrange(i, j)),
{
    lemma_valid_sub(b, i, j);
    lemma_boundary_suffix(b, i, p);
    lemma_boundary_suffix(b, i, j);
    valid_utf8_split(b, i);
    let t = b.subrange(i, b.len() as int);
    lemma_boundary_prefix(t, j - i, p - i);
    assert(t.subrange(0, j - i) =~= b.subrange(i, j));
}
pub proof fn lemma_ascii_boundary(b: Seq<u8>, p: int)
    requires valid_utf8(b), 0 <= p < b.len(), b[p] < 0x80,
    ensures is_char_boundary(b, p), is_char_boundary(b, p + 1),
{
    let c = b[p];
    assert(is_leading_byte_width_1(c)) by { reveal(is_leading_byte_width_1); assert(c < 0x80u8 ==> c & 0x80u8 == 0u8) by (bit_vector); }
    is_char_boundary_iff_is_leading_byte(b, p);
    is_char_boundary_start_end_of_seq(b);
    if p + 1 < b.len() {
        valid_utf8_split(b, p);
        let t = b.subrange(p, b.len() as int);
        assert(t[0] == c);
        assert(is_char_boundary(t, 1)) by {
            reveal_with_fuel(is_char_boundary, 3);
            assert(length_of_first_scalar(t) == 1);
        }
        lemma_boundary_suffix(b, p, p + 1);
    }
}
pub proof fn lemma_decode_concat(b: Seq<u8>, i: int, j: int, k: int)
    requires valid_utf8(b), 0 <= i <= j <= k <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j), is_char_boundary(b, k),
    ensures decode_utf8(b.subrange(i, k)) == decode_utf8(b.subrange(i, j)) + decode_utf8(b.subrange(j, k)),
        valid_utf8(b.subrange(i, k)), valid_utf8(b.subrange(i, j)), valid_utf8(b.subrange(j, k)),
{
    lemma_valid_sub(b, i, j);
    lemma_valid_sub(b, j, k);
    lemma_valid_sub(b, i, k);
    let x = b.subrange(i, j);
    let y = b.subrange(j, k);
    decode_utf8_encode_utf8(x);
    decode_utf8_encode_utf8(y);
    encode_utf8_concat(decode_utf8(x), decode_utf8(y));
    assert(b.subrange(i, k) =~= x + y);
    encode_utf8_decode_utf8(decode_utf8(x) + decode_utf8(y));
}
/// every char boundary of encoded text is the encoding length of a prefix
pub proof fn lemma_boundary_is_prefix(s: Seq<char>, p: int)
    requires 0 <= p <= encode_utf8(s).len(), is_char_boundary(encode_utf8(s), p),
    ensures
        valid_utf8(encode_utf8(s)), valid_utf8(encode_utf8(s).subrange(0, p)),
        ({ let d = decode_utf8(encode_utf8(s).subrange(0, p));
           d.len() <= s.len() && d == s.take(d.len() as int) && encode_utf8(d) == encode_utf8(s).subrange(0, p) }),
{
    let b = encode_utf8(s);
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(b);
    lemma_decode_concat(b, 0, p, b.len() as int);
    assert(b.subrange(0, b.len() as int) =~= b);
    encode_utf8_decode_utf8(s);
    let d = decode_utf8(b.subrange(0, p));
    decode_utf8_encode_utf8(b.subrange(0, p));
    assert(d =~= s.take(d.len() as int));
}
/// a prefix of the characters ends at a char boundary
pub proof fn lemma_prefix_boundary(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        valid_utf8(encode_utf8(s)),
        encode_utf8(s.take(k)).len() <= encode_utf8(s).len(),
        is_char_boundary(encode_utf8(s), encode_utf8(s.take(k)).len() as int),
        encode_utf8(s).subrange(0, encode_utf8(s.take(k)).len() as int) == encode_utf8(s.take(k)),
        encode_utf8(s).subrange(encode_utf8(s.take(k)).len() as int, encode_utf8(s).len() as int) == encode_utf8(s.skip(k)),
        decode_utf8(encode_utf8(s).subrange(0, encode_utf8(s.take(k)).len() as int)) == s.take(k),
{
    let a = encode_utf8(s.take(k));
    let z = encode_utf8(s.skip(k));
    assert(s =~= s.take(k) + s.skip(k));
    encode_utf8_concat(s.take(k), s.skip(k));
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(s.take(k));
    encode_utf8_valid_utf8(s.skip(k));
    assert(encode_utf8(s).subrange(0, a.len() as int) =~= a);
    assert(encode_utf8(s).subrange(a.len() as int, encode_utf8(s).len() as int) =~= z);
    encode_utf8_decode_utf8(s.take(k));
    lemma_concat_boundary(a, z);
}
pub proof fn lemma_concat_boundary(a: Seq<u8>, z: Seq<u8>)
    requires valid_utf8(a), valid_utf8(z),
    ensures valid_utf8(a + z), is_char_boundary(a + z, a.len() as int),
{
    valid_utf8_concat(a, z);
    let b = a + z;
    is_char_boundary_start_end_of_seq(b);
    is_char_boundary_start_end_of_seq(z);
    if z.len() > 0 {
        is_char_boundary_iff_not_is_continuation_byte(z, 0);
        is_char_boundary_iff_not_is_continuation_byte(b, a.len() as int);
        assert(b[a.len() as int] == z[0]);
    }
}
