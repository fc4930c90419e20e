// P12: an edited document in the language server equals the editor's text
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods enumerate count sum binary_search replace_range ok_or_else
//@strings self.content

//@include doc_stub.rs
//@include doc_common.rs

pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }

/// o is the offset a position denotes in text b (a character past the end of its line may stand for the end)
pub open spec fn exact(b: Seq<u8>, v: Seq<usize>, p: Position, enc: PositionEncoding, o: int) -> bool {
    on_line(b, v, p.line as int, o) && units_between(b, v[p.line as int] as int, o, enc) == p.character
}
pub open spec fn denotes_in(b: Seq<u8>, v: Seq<usize>, p: Position, enc: PositionEncoding, o: int) -> bool {
    exact(b, v, p, enc, o) || (on_line(b, v, p.line as int, o) && o == line_end(b, v, p.line as int)
        && units_between(b, v[p.line as int] as int, o, enc) < p.character)
}
pub open spec fn denotes(b: Seq<u8>, p: Position, enc: PositionEncoding, o: int) -> bool {
    exists|v: Seq<usize>| #[trigger] is_line_table(b, v, b.len() as int) && denotes_in(b, v, p, enc, o)
}
/// one change turns text x into text y
pub open spec fn step(x: Seq<u8>, c: TextDocumentContentChangeEvent, enc: PositionEncoding, y: Seq<u8>) -> bool {
    if c.range is None { y == encode_utf8(c.text@) } else { exists|s: int, e: int| #[trigger] denotes(x, c.range->0.start, enc, s) && #[trigger] denotes(x, c.range->0.end, enc, e)
        && s <= e && y == splice(x, s, e, encode_utf8(c.text@)) }
}
/// the changes, one after the other
pub open spec fn applied(x: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, enc: PositionEncoding, y: Seq<u8>) -> bool
    decreases cs.len(),
{
    if cs.len() == 0 { x == y } else {
        exists|m: Seq<u8>| applied(x, cs.drop_last(), enc, m) && #[trigger] step(m, cs.last(), enc, y)
    }
}
/// no offset is exactly denoted (then a change may be rejected)
pub open spec fn no_exact(b: Seq<u8>, p: Position, enc: PositionEncoding) -> bool {
    exists|v: Seq<usize>| #[trigger] is_line_table(b, v, b.len() as int) && forall|o: int| !#[trigger] exact(b, v, p, enc, o)
}
pub open spec fn rejectable(x: Seq<u8>, c: TextDocumentContentChangeEvent, enc: PositionEncoding) -> bool {
    ||| c.range is None
    ||| no_exact(x, c.range->0.start, enc)
    ||| no_exact(x, c.range->0.end, enc)
    ||| exists|s: int, e: int| #[trigger] denotes(x, c.range->0.start, enc, s) && #[trigger] denotes(x, c.range->0.end, enc, e) && s > e
}
pub open spec fn fails_at(x: Seq<u8>, cs: Seq<TextDocumentContentChangeEvent>, enc: PositionEncoding, i: int) -> bool {
    0 <= i < cs.len() && exists|m: Seq<u8>| #[trigger] applied(x, cs.take(i), enc, m) && rejectable(m, cs[i], enc)
}

impl TextDocument {
//@include doc_fns.rs

//@fn crates/jarl-lsp/src/document.rs TextDocument::apply_changes
//@ret r
//@contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match r {
            Ok(_) => applied(old(self).b(), changes@, encoding, final(self).b()) && final(self).version == new_version
                && final(self).language_id == old(self).language_id,
            Err(_) => *final(self) == *old(self) && exists|i: int| #[trigger] fails_at(old(self).b(), changes@, encoding, i),
        },
//@loop 0 it
    invariant
        it.seq() == changes@,
        *self == *old(self),
        old(self).wf(),
        updated.wf(),
        updated.version == new_version,
        applied(old(self).b(), changes@.take(it.index() as int), encoding, updated.b()),
//@at loop 0 start
    let ghost before = updated.b();
    proof {
        assert(changes@.take(it.index() + 1).drop_last() =~= changes@.take(it.index() as int));
        if rejectable(before, change, encoding) { assert(fails_at(old(self).b(), changes@, encoding, it.index() as int)); }
    }
//@at after let start_offset
    proof { assert(is_line_table(before, updated.line_starts@, before.len() as int)); assert(denotes_in(before, updated.line_starts@, range.start, encoding, start_offset as int)); assert(denotes(before, range.start, encoding, start_offset as int)); }
//@at after let end_offset
    proof {
        assert(denotes_in(before, updated.line_starts@, range.end, encoding, end_offset as int)); assert(denotes(before, range.end, encoding, end_offset as int));
        encode_utf8_valid_utf8(updated.content@);
        assert(change.range->0 == range);
        lemma_line_boundaries(before, updated.line_starts@, range.end.line as int);
        if start_offset > end_offset { assert(rejectable(before, change, encoding)); }
    }
//@at loop 0 end
    proof {
        let pre = changes@.take(it.index() + 1);
        assert(step(before, change, encoding, updated.b()));
        assert(pre.drop_last() =~= changes@.take(it.index() as int));
        assert(pre.last() == change);
        assert(applied(old(self).b(), pre.drop_last(), encoding, before));
        assert(applied(old(self).b(), pre, encoding, updated.b()));
    }
//@at after loop 0
    proof { assert(changes@.take(changes@.len() as int) =~= changes@); }
//@end
}
}
fn main() {}
