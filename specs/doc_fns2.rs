//@fn crates/jarl-lsp/src/document.rs TextDocument::offset_to_position
//@ret r
//@contract
    requires self.wf(), self.b().len() <= u32::MAX,
    ensures
        match r {
            Ok(p) => {
                &&& on_line(self.b(), self.line_starts@, p.line as int, offset as int)
                &&& units_between(self.b(), self.line_starts@[p.line as int] as int, offset as int, encoding) == p.character
            },
            Err(_) => offset > self.b().len() || !is_char_boundary(self.b(), offset as int),
        },
//@at start
    proof {
        encode_utf8_valid_utf8(self.content@);
        lemma_table_sorted(self.b(), self.line_starts@);
    }
//@at after let line
    proof {
        assert(line < self.line_starts@.len());
        assert(self.line_starts.len() <= usize::MAX);
        lemma_table_ge(self.b(), self.line_starts@, line as int);
        assert(self.line_starts@[line as int] <= offset);
        assert(line + 1 < self.line_starts@.len() ==> offset < self.line_starts@[line + 1]);
    }
//@at after let line_end
    proof {
        lemma_line_boundaries(self.b(), self.line_starts@, line as int);
        lemma_boundary_sub(self.b(), line_start as int, line_end as int, line_end as int);
    }
//@at after let line_content
    proof {
        lemma_boundary_sub(self.b(), line_start as int, line_end as int, offset as int);
        assert(line_content.spec_bytes().subrange(0, offset - line_start) =~= self.b().subrange(line_start as int, offset as int));
    }
//@at after let prefix #0
    proof {
        lemma_units_le_bytes(prefix@, PositionEncoding::UTF16);
        assert(units(prefix@, PositionEncoding::UTF16) <= u32::MAX);
        assert(decode_utf8(prefix.spec_bytes()) == prefix@) by { encode_utf8_decode_utf8(prefix@); }
        assert(units_between(self.b(), line_start as int, offset as int, encoding) == units(prefix@, encoding));
    }
    broadcast use lemma_usum_units16;
//@at after let prefix #1
    proof {
        assert(decode_utf8(prefix.spec_bytes()) == prefix@) by { encode_utf8_decode_utf8(prefix@); }
        lemma_units32(prefix@);
        lemma_units_le_bytes(prefix@, PositionEncoding::UTF32);
        assert(units_between(self.b(), line_start as int, offset as int, encoding) == units(prefix@, encoding));
    }
//@at after let byte_offset_in_line
    proof {
        lemma_units_mono(self.b(), line_start as int, offset as int, offset as int, encoding);
        assert(units_between(self.b(), line_start as int, offset as int, PositionEncoding::UTF8) == offset - line_start) by {
            lemma_units_mono(self.b(), line_start as int, offset as int, offset as int, PositionEncoding::UTF8);
        }
    }
//@closure 0 (c: char) -> u: usize
    ensures u == len16(c)
//@end
