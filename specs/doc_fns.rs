//@fn crates/jarl-lsp/src/document.rs TextDocument::compute_line_starts
//@ret r
//@at start
    proof { reveal(is_line_table); }
//@at loop 0 start
    proof { reveal(is_line_table); }
//@contract
    ensures is_line_table(content.spec_bytes(), r@, content.spec_bytes().len() as int),
//@loop 0 it
    invariant
        it.seq().len() == content.spec_bytes().len(),
        forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == (k as usize, content.spec_bytes()[k]),
        is_line_table(content.spec_bytes(), line_starts@, it.index() as int),
//@at loop 0 start
    let ghost old_v = line_starts@;
//@at loop 0 end
    proof {
        if byte == 10u8 { assert(line_starts@.last() == i + 1); }
        assert forall|p: int| 0 <= p < i + 1 && #[trigger] content.spec_bytes()[p] == 10u8 implies has_start(line_starts@, p + 1) by {
            if p < i {
                assert(has_start(old_v, p + 1));
                let m = choose|m: int| 0 <= m < old_v.len() && old_v[m] == p + 1;
                assert(line_starts@[m] == p + 1);
            }
        }
    }
//@end

//@fn crates/jarl-lsp/src/document.rs TextDocument::new
//@ret r
//@contract
    ensures r.content == content, r.version == version, r.wf(),
//@end

//@fn crates/jarl-lsp/src/document.rs TextDocument::position_to_offset
//@ret r
//@contract
    requires self.wf(),
    ensures
        match r {
            Ok(o) => {
                &&& on_line(self.b(), self.line_starts@, position.line as int, o as int)
                &&& {
                    ||| units_between(self.b(), self.line_starts@[position.line as int] as int, o as int, encoding) == position.character
                    ||| {
                        &&& o == line_end(self.b(), self.line_starts@, position.line as int)
                        &&& units_between(self.b(), self.line_starts@[position.line as int] as int, o as int, encoding) < position.character
                    }
                }
            },
            Err(_) => {
                ||| position.line >= self.line_starts@.len()
                ||| forall|o: int| #[trigger] on_line(self.b(), self.line_starts@, position.line as int, o) ==>
                        units_between(self.b(), self.line_starts@[position.line as int] as int, o, encoding) != position.character
            },
        },
//@at start
    proof {
        encode_utf8_valid_utf8(self.content@);
        if position.line < self.line_starts@.len() { lemma_line_boundaries(self.b(), self.line_starts@, position.line as int); }
    }
//@at after let line_content
    proof {
        lemma_boundary_sub(self.b(), line_start as int, line_end as int, line_end as int);
        assert(line_content.spec_bytes() == self.b().subrange(line_start as int, line_end as int));
        assert forall|o: int| #[trigger] on_line(self.b(), self.line_starts@, line as int, o) implies
            is_char_boundary(line_content.spec_bytes(), o - line_start)
            && (encoding == PositionEncoding::UTF8 ==> units_between(self.b(), line_start as int, o, encoding) == o - line_start) by {
            lemma_boundary_sub(self.b(), line_start as int, line_end as int, o);
            lemma_units_mono(self.b(), line_start as int, o, o, encoding);
        }
        assert(line_content@.take(0) =~= Seq::<char>::empty());
        assert(encode_utf8(line_content@.take(0)).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
        assert(scan_at(line_content@, 0, 0, 0, character as int, encoding));
    }
//@at before `Ok ( line_start + offset )`
    proof {
        if encoding == PositionEncoding::UTF8 {
            lemma_boundary_sub(self.b(), line_start as int, line_end as int, line_start + character);
            lemma_units_mono(self.b(), line_start as int, line_start + character, line_start + character, encoding);
        }
    }
//@at after loop 0
    proof { lemma_scan(self.b(), self.line_starts@, line as int, line_content@, byte_pos as int, utf16_pos as int, character as int, encoding); }
//@at after loop 1
    proof { lemma_scan(self.b(), self.line_starts@, line as int, line_content@, byte_pos as int, char_count as int, character as int, encoding); }
//@loop 0 it
    invariant_except_break
        scan_at(line_content@, it.index() as int, byte_pos as int, utf16_pos as int, character as int, encoding),
    invariant
        it.seq() == line_content@,
        encoding == PositionEncoding::UTF16,
        encode_utf8(line_content@).len() <= isize::MAX,
    ensures
        scan_done(line_content@, byte_pos as int, utf16_pos as int, character as int, encoding),
//@at loop 0 start
    proof {
        assert(ch == it.seq()[it.index() as int]);
        if utf16_pos < character { lemma_scan_step(line_content@, it.index() as int, byte_pos as int, utf16_pos as int, character as int, encoding); }
    }
//@at loop 1 start
    proof {
        if char_count < character { lemma_scan_step(line_content@, it.index() as int, byte_pos as int, char_count as int, character as int, encoding); }
    }
//@loop 1 it
    invariant_except_break
        scan_at(line_content@, it.index() as int, byte_pos as int, char_count as int, character as int, encoding),
    invariant
        it.seq() == line_content@,
        encoding == PositionEncoding::UTF32,
        encode_utf8(line_content@).len() <= isize::MAX,
    ensures
        scan_done(line_content@, byte_pos as int, char_count as int, character as int, encoding),
//@end

