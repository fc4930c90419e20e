// P13: editor positions and byte offsets convert consistently in every encoding
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use vx_axioms;
//@methods enumerate count sum binary_search
//@strings self.content

//@include doc_stub.rs
//@include doc_common.rs

impl TextDocument {
//@include doc_fns.rs
//@include doc_fns2.rs

//@fn crates/jarl-lsp/src/document.rs TextDocument::range_of_text
//@ret r
//@contract
    requires self.wf(), self.b().len() <= u32::MAX,
    ensures
        match r {
            Ok(g) => {
                &&& on_line(self.b(), self.line_starts@, g.start.line as int, start as int)
                &&& units_between(self.b(), self.line_starts@[g.start.line as int] as int, start as int, encoding) == g.start.character
                &&& on_line(self.b(), self.line_starts@, g.end.line as int, end as int)
                &&& units_between(self.b(), self.line_starts@[g.end.line as int] as int, end as int, encoding) == g.end.character
            },
            Err(_) => start > self.b().len() || !is_char_boundary(self.b(), start as int)
                   || end > self.b().len() || !is_char_boundary(self.b(), end as int),
        },
//@end
}

/// the round trip, as a client of the two contracts
pub fn client_roundtrip(d: &TextDocument, o: usize, enc: PositionEncoding)
    requires d.wf(), d.b().len() <= u32::MAX, o <= d.b().len(), is_char_boundary(d.b(), o as int),
{
    let r = d.offset_to_position(o, enc);
    assert(r is Ok);
    if let Ok(p) = r {
        let r2 = d.position_to_offset(p, enc);
        assert(r2 is Ok);
        if let Ok(o2) = r2 {
            proof {
                encode_utf8_valid_utf8(d.content@);
                let ls = d.line_starts@[p.line as int] as int;
                lemma_line_boundaries(d.b(), d.line_starts@, p.line as int);
                if o2 < o { lemma_units_mono(d.b(), ls, o2 as int, o as int, enc); }
                if o < o2 { lemma_units_mono(d.b(), ls, o as int, o2 as int, enc); }
            }
            assert(o2 == o);
        }
    }
}
}
fn main() {}
