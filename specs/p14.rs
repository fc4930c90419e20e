// P14: positions sent to the editor, and the edits of code actions
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
//@include vlib_line.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods find sum count min char_indices
//@strings self.content
//@include doc_stub.rs
//@include doc_common.rs

// ---- the encoding the server and its client agree on ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum PositionEncodingKind { UTF8, UTF16, UTF32, Other(u8) }
pub struct GeneralClientCapabilities { pub position_encodings: Option<Vec<PositionEncodingKind>> }
pub struct ClientCapabilities { pub general: Option<GeneralClientCapabilities> }
pub open spec fn enc_of(k: PositionEncodingKind) -> Option<PositionEncoding> {
    match k { PositionEncodingKind::UTF8 => Some(PositionEncoding::UTF8), PositionEncodingKind::UTF16 => Some(PositionEncoding::UTF16), PositionEncodingKind::UTF32 => Some(PositionEncoding::UTF32), PositionEncodingKind::Other(_) => None }
}
/// the client has said it can count so
pub open spec fn offers(c: ClientCapabilities, e: PositionEncoding) -> bool {
    c.general is Some && (c.general->0).position_encodings is Some && exists|i: int| 0 <= i < (c.general->0).position_encodings->0.len() && enc_of(#[trigger] (c.general->0).position_encodings->0[i]) == Some(e)
}
//@paths PositionEncoding::try_from=vx_try_from
//@fn crates/jarl-lsp/src/document.rs PositionEncoding::try_from as=vx_try_from
//@subst `lsp_types::` => ``
//@subst `kind == &` => `*kind == `
//@subst `Result<Self>` => `Result<PositionEncoding>`
//@ret r
//@contract
    ensures match r { Ok(e) => enc_of(*kind) == Some(e), Err(_) => enc_of(*kind) is None },
//@end
//@fn crates/jarl-lsp/src/session.rs negotiate_position_encoding
//@ret r
//@contract
    ensures r == PositionEncoding::UTF16 || offers(*client_capabilities, r),
//@closure 0 (general: &GeneralClientCapabilities) -> o: Option<&Vec<PositionEncodingKind>>
    ensures o == (match general.position_encodings { Some(v) => Some(&v), None => None::<&Vec<PositionEncodingKind>> }),
//@loop 0 it
    invariant supported_encodings == Some(encodings), (client_capabilities.general is Some && (client_capabilities.general->0).position_encodings == Some(*encodings)), it.seq() == encodings@.map_values(|k| &k),
//@loop 1 it
    invariant true,
//@end

// ---- the property's own notions ----
/// where the line of character k starts
pub open spec fn sol(s: Seq<char>, k: int) -> int
    decreases k,
{ if k <= 0 || k > s.len() { 0 } else if s[k - 1] == '\n' { k } else { sol(s, k - 1) } }
/// number of newlines before character k
pub open spec fn nl(s: Seq<char>, k: int) -> nat
    decreases k,
{ if k <= 0 || k > s.len() { 0 } else { nl(s, k - 1) + (if s[k - 1] == '\n' { 1nat } else { 0nat }) } }
/// the position of character k of s (k = length of s: the end)
pub open spec fn position_of(s: Seq<char>, k: int, enc: PositionEncoding) -> Position {
    Position { line: nl(s, k) as u32, character: units(s.subrange(sol(s, k), k), enc) as u32 }
}
/// a position for byte offset o
pub open spec fn position_at(s: Seq<char>, o: int, enc: PositionEncoding, p: Position) -> bool {
    exists|k: int| 0 <= k <= s.len() && bo(s, k) == o && p == #[trigger] position_of(s, k, enc)
}
pub proof fn lemma_sol(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= sol(s, k) <= k, sol(s, k) == 0 || s[sol(s, k) - 1] == '\n', forall|j: int| sol(s, k) <= j < k ==> s[j] != '\n', nl(s, k) <= k,
    decreases k,
{ if k > 0 && s[k - 1] != '\n' { lemma_sol(s, k - 1); } else if k > 0 { lemma_sol(s, k - 1); } }

pub trait VxCharIndices { spec fn vx_ci(&self) -> Seq<char>;
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>)
        ensures r@.len() == self.vx_ci().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == bo(self.vx_ci(), i) && r@[i].1 == self.vx_ci()[i];
}
impl VxCharIndices for str { open spec fn vx_ci(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>) { self.char_indices().collect() }
}
pub trait VxMin { fn vx_min(self, o: usize) -> (r: usize) where Self: Sized; }
impl VxMin for usize { fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } }

//@fn crates/jarl-lsp/src/lint.rs byte_offset_to_lsp_position attr=#[verifier::rlimit(100)]
//@ret r
//@contract
    requires
        encode_utf8(content@).len() <= i32::MAX,
        byte_offset > encode_utf8(content@).len() || is_char_boundary(encode_utf8(content@), byte_offset as int),
    ensures match r {
        Ok(p) => byte_offset <= encode_utf8(content@).len() && position_at(content@, byte_offset as int, encoding, p),
        Err(_) => byte_offset > encode_utf8(content@).len(),
    },
//@closure 0 (c: char) -> u: usize
    ensures u == len16(c)
//@closure 1 (c: char) -> u: usize
    ensures u == len16(c)
//@at start
    let ghost c = content@;
    proof { assert(content.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(c); lemma_bo(c, 0, c.len() as int); }
//@at before let line
    let ghost target = decode_utf8(encode_utf8(c).subrange(0, byte_offset as int)).len() as int;
    proof {
        lemma_boundary_is_prefix(c, byte_offset as int);
        assert(encode_utf8(c).subrange(0, byte_offset as int).len() == byte_offset);
        assert(bo(c, target) == byte_offset);
        lemma_units_lower(c, PositionEncoding::UTF8); lemma_units_utf8(c);
    }
    broadcast use lemma_usum_units16;
//@loop 0 it
    invariant
        c == content@, encode_utf8(c).len() <= i32::MAX, 0 <= target <= c.len(), bo(c, target) == byte_offset,
        it.seq().len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] it.seq()[i]).0 == bo(c, i) && it.seq()[i].1 == c[i],
        it.index() <= target, c.len() <= encode_utf8(c).len(),
        line == nl(c, it.index() as int), line_start_offset == bo(c, sol(c, it.index() as int)),
//@at loop 0 start
    let ghost n = it.index() as int;
    let ghost l = sol(c, n);
    broadcast use lemma_usum_units16;
    proof {
        assert(it.seq()[n] == (i, ch));
        lemma_sol(c, n); lemma_sol(c, n + 1); lemma_bo_next(c, n); lemma_bo(c, n, n + 1);
        lemma_bo(c, l, n);
        if n < target { lemma_bo(c, n, target); } else { assert(n == target); }
        lemma_char_len(ch);
        encode_utf8_valid_utf8(c);
        assert(content.spec_bytes().len() <= isize::MAX);
        lemma_bo(c, l, c.len() as int);
        if ch == '\n' { lemma_ascii_len(ch); }
    }
//@at after let line_content
    proof { lemma_slice(c, l, c.len() as int, line_content@); lemma_find(line_content@, '\n'); assert(line_content@ =~= c.skip(l)); }
//@at after let line_end
    let ghost m = match find(line_content@, '\n') { Some(k) => k, None => line_content@.len() as int };
    proof {
        assert(n == target);
        assert(line_end == bo(line_content@, m)) by { lemma_bo(line_content@, 0, line_content@.len() as int); }
        assert(n - l <= m) by { if m < n - l { assert(line_content@[m] == c[l + m]); } }
        lemma_bo(line_content@, 0, m); encode_utf8_valid_utf8(line_content@);
    }
//@at after let line_str
    let ghost w = c.subrange(l, n);
    proof {
        lemma_slice(line_content@, 0, m, line_str@);
        lemma_bo(line_str@, 0, n - l); lemma_bo(line_str@, n - l, line_str@.len() as int); encode_utf8_valid_utf8(line_str@);
        assert(line_str@.take(n - l) =~= w);
        assert(line_str@.subrange(0, n - l) =~= w);
        assert(column_byte_offset == encode_utf8(w).len());
        assert(bo(line_str@, n - l) == column_byte_offset);
        lemma_units_utf8(w); lemma_units32(w); lemma_units_le_bytes(w, PositionEncoding::UTF16); lemma_units_le_bytes(w, PositionEncoding::UTF32);
        assert(position_of(c, n, encoding).line == line);
    }
//@at after let prefix #0
    proof { lemma_slice(line_str@, 0, n - l, prefix@); }
//@at after let prefix #1
    proof { lemma_slice(line_str@, 0, n - l, prefix@); }
//@at after loop 0
    let ghost n = c.len() as int;
    let ghost l = sol(c, n);
    broadcast use lemma_usum_units16;
    proof { assert(target == n); lemma_sol(c, n); lemma_bo(c, l, n); encode_utf8_valid_utf8(c); assert(content.spec_bytes().len() <= isize::MAX); }
//@at after let line_content #1
    proof {
        let w = c.subrange(l, n);
        lemma_slice(c, l, n, line_content@);
        assert(line_content@ == w);
        lemma_units_utf8(w); lemma_units32(w); lemma_units_le_bytes(w, PositionEncoding::UTF16); lemma_units_le_bytes(w, PositionEncoding::UTF32);
        assert(position_of(c, n, encoding).line == line);
    }
//@end

// ---- the insertion points of ignore comments (P11) ----
//@include ignores.rs
pub proof fn lemma_nl(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures count_of(s.take(k), '\n') == nl(s, k),
    decreases k,
{ if k > 0 { lemma_nl(s, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); } }
pub proof fn lemma_lines_before(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures lines_before(s, bo(s, k)) == nl(s, k),
{
    lemma_bo(s, 0, k); lemma_nl(s, k);
    assert(s.subrange(0, k) =~= s.take(k));
    encode_utf8_decode_utf8(s.take(k));
}

// ---- what the language server has and sends (TRUSTED stubs of lsp_types, serde_json and session.rs) ----
pub mod jd {
use super::*;
#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub struct Location { e: () }
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
impl Diagnostic {
    pub uninterp spec fn safe(&self) -> bool;
    #[verifier::external_body]
    pub fn has_safe_fix(&self) -> (r: bool) ensures r == self.safe() { unimplemented!() }
}
}
pub use jd::Diagnostic as JarlDiagnostic;
//@item crates/jarl-lsp/src/lint.rs struct DiagnosticFix
/// the data of a diagnostic: which edit fixes it, which rule it is of and where it was found
pub struct Data { pub content: Seq<char>, pub start: usize, pub end: usize, pub is_safe: bool, pub rule_name: Seq<char>, pub diagnostic_start: usize, pub diagnostic_end: usize }
impl DiagnosticFix {
    pub open spec fn data(&self) -> Data { Data { content: self.content@, start: self.start, end: self.end, is_safe: self.is_safe, rule_name: self.rule_name@, diagnostic_start: self.diagnostic_start, diagnostic_end: self.diagnostic_end } }
}
#[verifier::external_body]
pub struct Value { e: () }
impl Value {
    /// the DiagnosticFix written as JSON
    pub uninterp spec fn data(&self) -> Option<Data>;
}
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Value) ensures r.data() == self.data() { unimplemented!() }
}
pub struct VxValue { pub v: Value }
impl VxValue { pub fn vx_unwrap_or_default(self) -> (r: Value) ensures r == self.v { self.v } }
#[verifier::external_body]
pub fn vx_to_value(f: DiagnosticFix) -> (r: VxValue) ensures r.v.data() == Some(f.data()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_value(v: Value) -> (r: Result<DiagnosticFix>) ensures match r { Ok(f) => v.data() == Some(f.data()), Err(_) => v.data() is None } { unimplemented!() }
#[derive(Clone, Copy)]
pub struct DiagnosticSeverity { }
impl DiagnosticSeverity { pub const WARNING: DiagnosticSeverity = DiagnosticSeverity { }; }
pub struct Diagnostic { pub range: Range, pub severity: Option<DiagnosticSeverity>, pub code: Option<()>, pub code_description: Option<()>, pub source: Option<String>, pub message: String, pub related_information: Option<()>, pub tags: Option<()>, pub data: Option<Value> }
impl Clone for Diagnostic {
    #[verifier::external_body]
    fn clone(&self) -> (r: Diagnostic) { unimplemented!() }
}
/// lint.rs: the name the diagnostics are published under
//@require crates/jarl-lsp/src/lint.rs `source: Some(DIAGNOSTIC_SOURCE.to_string())`
#[verifier::external_body]
pub fn vx_source() -> (r: String) { unimplemented!() }

/// the offset is at a character or beyond the end
pub open spec fn fits(s: Seq<char>, o: int) -> bool { o > encode_utf8(s).len() || is_char_boundary(encode_utf8(s), o) }
/// a range of the editor for bytes a to b
pub open spec fn range_at(s: Seq<char>, a: int, b: int, enc: PositionEncoding, r: Range) -> bool { position_at(s, a, enc, r.start) && position_at(s, b, enc, r.end) }
pub open spec fn published(d: JarlDiagnostic, s: Seq<char>, enc: PositionEncoding, p: Diagnostic) -> bool {
    &&& range_at(s, d.range.s as int, d.range.e as int, enc, p.range)
    &&& p.data is Some && p.data->0.data() == Some(Data { content: d.fix.content@, start: d.fix.start, end: d.fix.end, is_safe: d.safe(), rule_name: d.message.name@, diagnostic_start: d.range.s as usize, diagnostic_end: d.range.e as usize })
}
//@methods into unwrap_or_default
//@paths serde_json::to_value=vx_to_value serde_json::from_value=vx_from_value
//@fn crates/jarl-lsp/src/lint.rs convert_to_lsp_diagnostic
//@subst `DIAGNOSTIC_SOURCE.to_string()` => `vx_source()`
//@ret r
//@contract
    requires encode_utf8(content@).len() <= i32::MAX, fits(content@, jarl_diag.range.s as int), fits(content@, jarl_diag.range.e as int),
    ensures match r {
        Ok(p) => published(*jarl_diag, content@, encoding, p),
        Err(_) => jarl_diag.range.s > encode_utf8(content@).len() || jarl_diag.range.e > encode_utf8(content@).len(),
    },
//@end

#[verifier::external_body]
pub struct Url { e: () }
impl Clone for Url {
    #[verifier::external_body]
    fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct DocumentSnapshot { e: () }
impl DocumentSnapshot {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn enc(&self) -> PositionEncoding;
    pub uninterp spec fn at(&self) -> Url;
    pub uninterp spec fn rmd(&self) -> bool;
    #[verifier::external_body]
    pub fn content(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn position_encoding(&self) -> (r: PositionEncoding) ensures r == self.enc() { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &Url) ensures *r == self.at() { unimplemented!() }
    /// file_path().as_deref().is_some_and(has_rmd_extension)
    #[verifier::external_body]
    pub fn vx_is_rmd(&self) -> (r: bool) ensures r == self.rmd() { unimplemented!() }
}
pub struct TextEdit { pub range: Range, pub new_text: String }
#[verifier::external_body]
pub struct Changes { e: () }
impl Changes {
    pub uninterp spec fn m(&self) -> Map<Url, Vec<TextEdit>>;
    #[verifier::external_body]
    pub fn new() -> (r: Changes) ensures r.m() == Map::<Url, Vec<TextEdit>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, u: Url, e: Vec<TextEdit>) ensures final(self).m() == old(self).m().insert(u, e) { unimplemented!() }
}
pub struct WorkspaceEdit { pub changes: Option<Changes>, pub document_changes: Option<()> }
pub fn vx_no_edit() -> (r: WorkspaceEdit) ensures r.changes is None, r.document_changes is None { WorkspaceEdit { changes: None, document_changes: None } }
#[verifier::external_body]
pub struct CodeActionKind { e: () }
impl CodeActionKind {
    #[verifier::external_body]
    pub fn vx_quickfix() -> (r: CodeActionKind) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: CodeActionKind) { unimplemented!() }
}
pub struct CodeAction { pub title: String, pub kind: Option<CodeActionKind>, pub diagnostics: Option<Vec<Diagnostic>>, pub edit: Option<WorkspaceEdit>, pub command: Option<()>, pub is_preferred: Option<bool>, pub disabled: Option<()>, pub data: Option<()> }
pub mod types { pub use super::{Diagnostic, Range, Position, TextEdit, WorkspaceEdit, CodeAction, CodeActionKind}; }
/// the action makes one edit, in the document
pub open spec fn one_edit(a: CodeAction, snap: DocumentSnapshot, from: int, to: int, text: Seq<char>) -> bool {
    a.edit is Some && a.edit->0.document_changes is None && a.edit->0.changes is Some && a.edit->0.changes->0.m().dom() == set![snap.at()]
        && edits_text(a.edit->0.changes->0.m()[snap.at()]@, snap, from, to, text)
}
pub open spec fn edits_text(v: Seq<TextEdit>, snap: DocumentSnapshot, from: int, to: int, text: Seq<char>) -> bool {
    v.len() == 1 && range_at(snap.text(), from, to, snap.enc(), v[0].range) && v[0].new_text@ == text
}
pub open spec fn data_of(d: Diagnostic) -> Option<Data> { match d.data { Some(v) => v.data(), None => None } }
pub open spec fn no_fix(f: Data) -> bool { f.content.len() == 0 && f.start == f.end }

impl Server {
//@fn crates/jarl-lsp/src/server.rs Server::diagnostic_to_code_action
//@subst `crate::lint::DiagnosticFix` => `DiagnosticFix`
//@subst `crate::lint::byte_offset_to_lsp_position` => `byte_offset_to_lsp_position`
//@subst `std::collections::HashMap::new()` => `Changes::new()`
//@subst `..Default::default()` => `..vx_no_edit()`
//@subst `types::CodeActionKind::QUICKFIX` => `types::CodeActionKind::vx_quickfix()`
//@ret r
//@contract
    requires
        encode_utf8(snapshot.text()).len() <= i32::MAX,
        data_of(*diagnostic) is Some ==> fits(snapshot.text(), data_of(*diagnostic)->0.start as int) && fits(snapshot.text(), data_of(*diagnostic)->0.end as int),
    ensures match data_of(*diagnostic) {
        None => r is None,
        Some(f) => if no_fix(f) || f.start > encode_utf8(snapshot.text()).len() || f.end > encode_utf8(snapshot.text()).len() { r is None } else {
            r is Some && r->0.is_preferred == Some(f.is_safe) && one_edit(r->0, *snapshot, f.start as int, f.end as int, f.content)
        },
    },
//@at before let workspace_edit
    proof {
        assert(changes.m().dom() =~= set![snapshot.at()]);
        assert(edits_text(changes.m()[snapshot.at()]@, *snapshot, fix.start as int, fix.end as int, fix.content@));
        assert(fix.data().content == fix.content@);
    }
//@end
}

//@methods iter any trim starts_with strip_prefix trim_start split map filter lines nth
// ---- has the line before a comment for the rule already ----
pub trait VxOptMap<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)),
        ensures match self.vx_om() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn vx_om(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
pub trait VxNth<T> { spec fn vx_nv(&self) -> Seq<T>; fn vx_nth(self, n: usize) -> (r: Option<T>) where Self: Sized ensures r == (if n < self.vx_nv().len() { Some(self.vx_nv()[n as int]) } else { None::<T> }); }
impl<T> VxNth<T> for Vec<T> { open spec fn vx_nv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_nth(self, n: usize) -> (r: Option<T>) { self.into_iter().nth(n) } }
/// what follows `# jarl-ignore` in the line
pub open spec fn after_directive(line: Seq<char>) -> Seq<char> { trim_start(trim(line).skip("# jarl-ignore"@.len() as int)) }
/// the names before the colon
pub open spec fn names_part(line: Seq<char>) -> Seq<Seq<char>> { split(after_directive(line).take(find(after_directive(line), ':')->0), ',') }
/// the line is a `# jarl-ignore` comment naming rule n
pub open spec fn names_rule(line: Seq<char>, n: Seq<char>) -> bool {
    has_prefix(trim(line), "# jarl-ignore"@) && find(after_directive(line), ':') is Some && n.len() > 0
        && exists|i: int| 0 <= i < names_part(line).len() && trim(#[trigger] names_part(line)[i]) == n
}
pub proof fn lemma_names(p: Seq<Seq<char>>, m: Seq<String>, o: Seq<Option<String>>, n: Seq<char>)
    requires
        m.len() == p.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@ == trim(p[i]),
        o.len() == m.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == kept(m[i], m[i]@.len() > 0),
    ensures
        sviews(somes(o)).contains(n) == (n.len() > 0 && exists|i: int| 0 <= i < p.len() && trim(#[trigger] p[i]) == n),
{
    if sviews(somes(o)).contains(n) {
        let i = choose|i: int| 0 <= i < sviews(somes(o)).len() && sviews(somes(o))[i] == n;
        lemma_somes_from(o, somes(o)[i]);
        assert(somes(o).contains(somes(o)[i]));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == Some(somes(o)[i]);
        assert(o[j] == kept(m[j], m[j]@.len() > 0));
        assert(trim(p[j]) == n);
    }
    if n.len() > 0 && exists|i: int| 0 <= i < p.len() && trim(#[trigger] p[i]) == n {
        let i = choose|i: int| 0 <= i < p.len() && trim(#[trigger] p[i]) == n;
        assert(m[i]@ == n);
        assert(o[i] == Some(m[i]));
        lemma_somes_from(o, m[i]);
        assert(o.contains(Some(m[i])));
        let j = choose|j: int| 0 <= j < somes(o).len() && somes(o)[j] == m[i];
        assert(sviews(somes(o))[j] == n);
    }
}
//@fn crates/jarl-core/src/suppression_edit.rs parse_existing_suppression
//@subst `.chars()` => `.vx_chars_of()`
//@subst `.take_while` => `.vx_take_while`
//@subst `.collect()` => ``
//@subst `let rules: Vec<String> = rules_part` => `let vx_p = rules_part`
//@subst `.map(|s| s.trim().to_string())` => `; let ghost gp = vx_p@; let vx_m = vx_p.map(|s| s.trim().to_string())`
//@subst `.filter(|s| !s.is_empty())` => `; let ghost gm = vx_m@; let rules: Vec<String> = vx_m.filter(|s| !s.is_empty())`
//@ret r
//@contract
    ensures match r {
        None => forall|n: Seq<char>| !#[trigger] names_rule(line@, n),
        Some((_, None)) => forall|n: Seq<char>| !#[trigger] names_rule(line@, n),
        Some((_, Some(rules))) => forall|n: Seq<char>| sviews(rules@).contains(n) == #[trigger] names_rule(line@, n),
    },
//@closure 0 (c: &char) -> b: bool
    ensures b == ws(*c)
//@closure 1 (s: &str) -> t: String
    ensures t@ == trim(s@)
//@closure 2 (s: &String) -> b: bool
    ensures b == (s@.len() > 0)
//@at start
    broadcast use lemma_find;
//@at before let rules_part
    proof {
        let a = after_prefix@; let k = find(a, ':')->0;
        assert(after_prefix.spec_bytes().len() <= isize::MAX); encode_utf8_valid_utf8(a); lemma_bo(a, 0, k);
    }
//@at after let rules_part
    proof {
        let a = after_prefix@; let k = find(a, ':')->0;
        assert(after_prefix@ == after_directive(line@));
        lemma_slice(a, 0, k, rules_part@);
        assert(rules_part@ =~= a.take(k));
    }
//@at before `if !rules.is_empty()`
    proof {
        let o = choose|o: Seq<Option<String>>| rules@ == #[trigger] somes(o) && o.len() == gm.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(gm[i], o[i] is Some) && (o[i] is Some) == (gm[i]@.len() > 0));
        assert(views(gp) == names_part(line@));
        assert forall|i: int| 0 <= i < gm.len() implies (#[trigger] gm[i])@ == trim(views(gp)[i]) by { }
        assert forall|n: Seq<char>| sviews(rules@).contains(n) == #[trigger] names_rule(line@, n) by { lemma_names(views(gp), gm, o, n); }
    }
//@at after `if !rules.is_empty() { return Some((indent, Some(rules))); }`
    proof { assert(forall|n: Seq<char>| !#[trigger] names_rule(line@, n)); }
//@end
pub struct Server { }

/// the diagnostic's data say where it was found
pub open spec fn found(snap: DocumentSnapshot, f: Data) -> bool {
    if snap.rmd() { forall|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(snap.text(), cs) ==> found_in_chunk(cs, f.diagnostic_start as int, f.diagnostic_end as int) }
    else { found_at(snap.text(), f.diagnostic_start as int, f.diagnostic_end as int) }
}
pub open spec fn cuts_nothing(s: Seq<char>, rmd: bool, o: int) -> bool {
    if rmd { exists|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(s, cs) && good_in_chunk(cs, o) } else { parses(s) ==> !inside(s, o) }
}
/// an insertion point, as P11 has it
pub open spec fn insertion_point(snap: DocumentSnapshot, p: SuppressionInsertPoint) -> bool { some_place(snap.text(), p) && cuts_nothing(snap.text(), snap.rmd(), p.offset as int) }
/// the action inserts a comment for the rule
pub open spec fn inserts_comment(a: CodeAction, snap: DocumentSnapshot, n: Seq<char>) -> bool {
    exists|p: SuppressionInsertPoint| #[trigger] insertion_point(snap, p) && one_edit(a, snap, p.offset as int, p.offset as int, inserted(p.indent@, seq![n], "<reason>"@, p.needs_leading_newline))
}
/// a comment for the rule is on the line before an insertion point
pub open spec fn has_comment(snap: DocumentSnapshot, n: Seq<char>) -> bool {
    exists|p: SuppressionInsertPoint, ls: Seq<Seq<char>>| #[trigger] insertion_point(snap, p) && #[trigger] is_lines(snap.text(), ls) && 0 < p.line <= ls.len() && names_rule(ls[p.line - 1], n)
}
/// the start of a line is column 0
pub proof fn lemma_line_start(s: Seq<char>, p: SuppressionInsertPoint, enc: PositionEncoding)
    requires some_place(s, p), !p.needs_leading_newline, encode_utf8(s).len() <= i32::MAX,
    ensures position_at(s, p.offset as int, enc, Position { line: p.line as u32, character: 0 }),
{
    let k = choose|k: int| #[trigger] place(s, k, p);
    lemma_lines_before(s, k);
    lemma_sol(s, k);
    assert(sol(s, k) == k);
    assert(s.subrange(k, k) =~= Seq::<char>::empty());
    assert(position_of(s, k, enc) == Position { line: p.line as u32, character: 0 });
}
pub proof fn lemma_fits(s: Seq<char>, p: SuppressionInsertPoint)
    requires some_place(s, p),
    ensures fits(s, p.offset as int), p.offset <= encode_utf8(s).len(),
{ let k = choose|k: int| #[trigger] place(s, k, p); lemma_bo(s, k, k); }
pub broadcast proof fn lemma_one(v: Seq<&str>)
    requires v.len() == 1,
    ensures #[trigger] views(v) == seq![v[0]@],
{ assert(views(v) =~= seq![v[0]@]); }
#[verifier::external_body]
pub fn vx_same_text(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
//@methods find
impl Server {
//@fn crates/jarl-lsp/src/server.rs Server::get_line_text
//@ret r
//@contract
    ensures exists|ls: Seq<Seq<char>>| #[trigger] is_lines(content@, ls) && match r { Some(t) => line_number < ls.len() && t@ == ls[line_number as int], None => line_number >= ls.len() },
//@closure 0 (s: &str) -> t: String
    ensures t@ == s@
//@end

//@fn crates/jarl-lsp/src/server.rs Server::diagnostic_to_jarl_ignore_rule_action attr=#[verifier::rlimit(100)]
//@subst `use jarl_core::suppression_edit;` => ``
//@subst `suppression_edit::create_suppression_edit_in_rmd` => `create_suppression_edit_in_rmd`
//@subst `suppression_edit::compute_suppression_insert_point` => `compute_suppression_insert_point`
//@subst `suppression_edit::parse_existing_suppression` => `parse_existing_suppression`
//@subst `suppression_edit::format_suppression_comments` => `format_suppression_comments`
//@subst `&[rule_name]` => `&[rule_name.as_str()]`
//@subst `r == rule_name` => `vx_same_text(r, rule_name)`
//@subst `snapshot.file_path().as_deref().is_some_and(jarl_core::fs::has_rmd_extension)` => `snapshot.vx_is_rmd()`
//@subst `crate::lint::DiagnosticFix` => `DiagnosticFix`
//@subst `crate::lint::byte_offset_to_lsp_position` => `byte_offset_to_lsp_position`
//@subst `std::collections::HashMap::new()` => `Changes::new()`
//@subst `..Default::default()` => `..vx_no_edit()`
//@subst `types::CodeActionKind::QUICKFIX` => `types::CodeActionKind::vx_quickfix()`
//@ret r
//@contract
    requires
        encode_utf8(snapshot.text()).len() <= i32::MAX,
        data_of(*diagnostic) is Some ==> found(*snapshot, data_of(*diagnostic)->0),
    ensures match data_of(*diagnostic) {
        None => r is None,
        Some(f) => match r { Some(a) => inserts_comment(a, *snapshot, f.rule_name), None => has_comment(*snapshot, f.rule_name) },
    },
//@closure 0 (r: &String) -> b: bool
    ensures b == (r@ == rule_name@)
//@at after let insert_point
    broadcast use lemma_one;
    proof { assert(insertion_point(*snapshot, insert_point)); lemma_fits(snapshot.text(), insert_point); }
//@at before `return None;`
    proof {
        let n = rule_name@;
        let i = choose|i: int| 0 <= i < rules@.len() && (#[trigger] rules@[i])@ == n;
        assert(sviews(rules@)[i] == n);
        assert(names_rule(prev_line_text@, n));
        let ls = choose|ls: Seq<Seq<char>>| #[trigger] is_lines(content@, ls) && insert_point.line - 1 < ls.len() && prev_line_text@ == ls[insert_point.line - 1];
        assert(has_comment(*snapshot, n));
    }
//@at before let text_edit
    proof {
        if !insert_point.needs_leading_newline { lemma_line_start(snapshot.text(), insert_point, snapshot.enc()); }
    }
//@at before let workspace_edit
    proof {
        assert(changes.m().dom() =~= set![snapshot.at()]);
        assert(edits_text(changes.m()[snapshot.at()]@, *snapshot, insert_point.offset as int, insert_point.offset as int, inserted(insert_point.indent@, seq![rule_name@], "<reason>"@, insert_point.needs_leading_newline)));
    }
//@end
}
pub trait VxFindItem<'a, T>: Sized {
    spec fn vx_f(&self) -> Seq<&'a T>;
    fn vx_find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires forall|i: int| 0 <= i < self.vx_f().len() ==> call_requires(f, (&#[trigger] self.vx_f()[i],)),
        ensures self.vx_f().len() >= 0, match r {
            Some(x) => exists|i: int| 0 <= i < self.vx_f().len() && #[trigger] self.vx_f()[i] == x && call_ensures(f, (&self.vx_f()[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.vx_f()[j],), false),
            None => forall|i: int| 0 <= i < self.vx_f().len() ==> call_ensures(f, (&#[trigger] self.vx_f()[i],), false),
        };
}
impl<'a, T> VxFindItem<'a, T> for Vec<&'a T> {
    open spec fn vx_f(&self) -> Seq<&'a T> { self@ }
    #[verifier::external_body]
    fn vx_find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>) { unimplemented!() }
}

/// the comment that ignores the rule in a whole chunk
pub open spec fn chunk_comment(n: Seq<char>) -> Seq<char> { "#| jarl-ignore-chunk:\n#|   - "@ + n + ": <reason>\n"@ }
#[verifier::external_body]
pub fn vx_chunk_comment(n: &String) -> (r: String) ensures r@ == chunk_comment(n@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: &str, n: &String, b: &str) -> (r: String) ensures r@ == a@ + n@ + b@ { unimplemented!() }
/// the chunk the diagnostic is in
pub open spec fn chunk_of(snap: DocumentSnapshot, f: Data, c: (Seq<char>, int)) -> bool {
    exists|cs: Seq<(Seq<char>, int)>, i: int| #[trigger] chunks_of(snap.text(), cs) && 0 <= i < cs.len() && #[trigger] cs[i] == c && c.1 <= f.diagnostic_start <= c.1 + encode_utf8(c.0).len()
}
pub open spec fn mentions(c: Seq<char>, n: Seq<char>) -> bool { part_of("jarl-ignore-chunk "@ + n + ""@, c) || part_of("- "@ + n + ":"@, c) }
pub open spec fn inserts_chunk_comment(a: CodeAction, snap: DocumentSnapshot, f: Data) -> bool {
    exists|c: (Seq<char>, int)| #[trigger] chunk_of(snap, f, c) && !mentions(c.0, f.rule_name) && one_edit(a, snap, c.1, c.1, chunk_comment(f.rule_name))
}
pub open spec fn nothing_to_do(snap: DocumentSnapshot, f: Data) -> bool {
    (exists|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(snap.text(), cs) && forall|i: int| 0 <= i < cs.len() ==> !((#[trigger] cs[i]).1 <= f.diagnostic_start <= cs[i].1 + encode_utf8(cs[i].0).len()))
    || exists|c: (Seq<char>, int)| #[trigger] chunk_of(snap, f, c) && mentions(c.0, f.rule_name)
}
pub open spec fn holds(c: RCodeChunk, o: usize) -> bool { c.start_byte <= o <= c.start_byte + encode_utf8(c.code@).len() }
impl Server {
//@fn crates/jarl-lsp/src/server.rs Server::diagnostic_to_jarl_ignore_chunk_action attr=#[verifier::rlimit(100)]
//@subst `jarl_core::rmd::extract_r_chunks` => `extract_r_chunks`
//@subst `format!("jarl-ignore-chunk {rule_name}")` => `vx_cat("jarl-ignore-chunk ", rule_name, "")`
//@subst `format!("- {rule_name}:")` => `vx_cat("- ", rule_name, ":")`
//@subst `format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n")` => `vx_chunk_comment(rule_name)`
//@subst `.contains(` => `.as_str().vx_has_text(`
//@subst `snapshot.file_path().as_deref().is_some_and(jarl_core::fs::has_rmd_extension)` => `snapshot.vx_is_rmd()`
//@subst `crate::lint::DiagnosticFix` => `DiagnosticFix`
//@subst `crate::lint::byte_offset_to_lsp_position` => `byte_offset_to_lsp_position`
//@subst `std::collections::HashMap::new()` => `Changes::new()`
//@subst `..Default::default()` => `..vx_no_edit()`
//@subst `types::CodeActionKind::QUICKFIX` => `types::CodeActionKind::vx_quickfix()`
//@ret r
//@contract
    requires
        encode_utf8(snapshot.text()).len() <= i32::MAX,
    ensures match data_of(*diagnostic) {
        None => r is None,
        Some(f) => if !snapshot.rmd() { r is None } else { match r { Some(a) => inserts_chunk_comment(a, *snapshot, f), None => nothing_to_do(*snapshot, f) } },
    },
//@closure 0 (c: &&RCodeChunk) -> b: bool
    requires c.start_byte + encode_utf8(c.code@).len() <= usize::MAX,
    ensures b == holds(**c, fix.diagnostic_start),
//@at after let chunks
    let ghost cs = cviews(chunks@);
    proof {
        assert(chunks_of(content@, cs));
        assert(content.spec_bytes().len() <= isize::MAX);
        assert forall|i: int| 0 <= i < chunks@.len() implies (#[trigger] chunks@[i]).start_byte + encode_utf8(chunks@[i].code@).len() <= usize::MAX by { assert(verbatim(content@, cs[i])); }
        if forall|i: int| 0 <= i < chunks@.len() ==> !holds(#[trigger] chunks@[i], fix.diagnostic_start) {
            assert forall|i: int| 0 <= i < cs.len() implies !((#[trigger] cs[i]).1 <= fix.diagnostic_start <= cs[i].1 + encode_utf8(cs[i].0).len()) by { assert(!holds(chunks@[i], fix.diagnostic_start)); }
        }
    }
//@at after let chunk
    let ghost c = (chunk.code@, chunk.start_byte as int);
    proof {
        let i = choose|i: int| 0 <= i < chunks@.len() && #[trigger] chunks@[i] == *chunk && holds(*chunk, fix.diagnostic_start);
        assert(cs[i] == c);
        assert(chunk_of(*snapshot, fix.data(), c));
        let ls = choose|ls: Seq<Seq<char>>| #[trigger] is_split_inclusive(content@, '\n', ls) && cs == chunks_from(ls, 0);
        lemma_chunk_at(ls, 0, i);
        let a = choose|a: int| #[trigger] chunk_at(content@, chunk.code@, chunk.start_byte as int, a);
        lemma_bo(content@, a, a);
        assert(fits(content@, chunk.start_byte as int));
    }
//@at before let workspace_edit
    proof {
        assert(changes.m().dom() =~= set![snapshot.at()]);
        assert(edits_text(changes.m()[snapshot.at()]@, *snapshot, chunk.start_byte as int, chunk.start_byte as int, chunk_comment(rule_name@)));
    }
//@end
}

// ---- which actions are offered ----
/// p is before or at q (lsp_types: derived, line first)
pub open spec fn le(p: Position, q: Position) -> bool { p.line < q.line || (p.line == q.line && p.character <= q.character) }
pub open spec fn order(p: Position, q: Position) -> core::cmp::Ordering { if p == q { core::cmp::Ordering::Equal } else if le(p, q) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Position {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Position) -> bool { self.line == o.line && self.character == o.character }
}
impl PartialEq for Position {
    fn eq(&self, o: &Position) -> (r: bool) { self.line == o.line && self.character == o.character }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Position {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Position) -> Option<core::cmp::Ordering> { Some(order(*self, *o)) }
}
impl PartialOrd for Position {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Position) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
/// the ranges share a position (ranges that only touch do)
pub open spec fn overlap(a: Range, b: Range) -> bool { le(a.start, b.end) && le(b.start, a.end) }
/// for ranges that are not inverted this is: some position is in both
pub proof fn p14_overlap(a: Range, b: Range)
    requires le(a.start, a.end), le(b.start, b.end),
    ensures overlap(a, b) <==> exists|p: Position| #[trigger] le(a.start, p) && le(p, a.end) && le(b.start, p) && le(p, b.end),
{
    if overlap(a, b) {
        let p = if le(a.start, b.start) { b.start } else { a.start };
        assert(le(a.start, p) && le(p, a.end) && le(b.start, p) && le(p, b.end));
    }
}
//@fn crates/jarl-lsp/src/server.rs ranges_overlap
//@ret r
//@contract
    ensures r == overlap(*a, *b),
//@end

pub struct LintOutput { pub diagnostics: Vec<Diagnostic>, pub unused_fn_hidden_count: usize }
pub struct LintInternalOutput { pub diagnostics: Vec<JarlDiagnostic>, pub unused_fn_hidden_count: usize }
/// what the linter finds in a document
pub uninterp spec fn linted(snap: DocumentSnapshot) -> Option<Seq<JarlDiagnostic>>;
pub open spec fn in_text(snap: DocumentSnapshot, d: JarlDiagnostic) -> bool {
    let s = snap.text();
    fits(s, d.range.s as int) && fits(s, d.range.e as int) && fits(s, d.fix.start as int) && fits(s, d.fix.end as int) && d.range.e <= encode_utf8(s).len() && d.range.s <= d.range.e
    && found(snap, Data { content: d.fix.content@, start: d.fix.start, end: d.fix.end, is_safe: d.safe(), rule_name: d.message.name@, diagnostic_start: d.range.s as usize, diagnostic_end: d.range.e as usize })
}
/// run_jarl_linting(content, file_path.as_deref()) (ASSUMED: the ranges are those of pieces of the text)
#[verifier::external_body]
pub fn vx_lint(snapshot: &DocumentSnapshot) -> (r: Result<LintInternalOutput>)
    ensures match r { Ok(o) => linted(*snapshot) == Some(o.diagnostics@) && forall|i: int| 0 <= i < o.diagnostics@.len() ==> in_text(*snapshot, #[trigger] o.diagnostics@[i]), Err(_) => linted(*snapshot) is None }
{ unimplemented!() }
#[verifier::opaque]
pub open spec fn ready(snap: DocumentSnapshot, d: JarlDiagnostic, p: Diagnostic) -> bool { in_text(snap, d) && published(d, snap.text(), snap.enc(), p) }
pub proof fn lemma_ready(snap: DocumentSnapshot, d: JarlDiagnostic, p: Diagnostic)
    requires ready(snap, d, p),
    ensures data_of(p) is Some, found(snap, data_of(p)->0), fits(snap.text(), data_of(p)->0.start as int), fits(snap.text(), data_of(p)->0.end as int),
{ reveal(ready); }
pub open spec fn all_published(js: Seq<JarlDiagnostic>, snap: DocumentSnapshot, ps: Seq<Diagnostic>, n: int) -> bool {
    ps.len() == n && forall|i: int| 0 <= i < n ==> published(js[i], snap.text(), snap.enc(), #[trigger] ps[i])
}
//@fn crates/jarl-lsp/src/lint.rs lint_document
//@subst `let file_path = snapshot.file_path();` => ``
//@subst `run_jarl_linting(content, file_path.as_deref())` => `vx_lint(snapshot)`
//@ret r
//@contract
    requires encode_utf8(snapshot.text()).len() <= i32::MAX,
    ensures match r { Ok(o) => linted(*snapshot) is Some && all_published(linted(*snapshot)->0, *snapshot, o.diagnostics@, linted(*snapshot)->0.len() as int)
            && forall|i: int| 0 <= i < o.diagnostics@.len() ==> ready(*snapshot, linted(*snapshot)->0[i], #[trigger] o.diagnostics@[i]),
        Err(_) => linted(*snapshot) is None },
//@loop 0 it
    invariant
        encode_utf8(content@).len() <= i32::MAX, content@ == snapshot.text(), encoding == snapshot.enc(), linted(*snapshot) == Some(it.seq()),
        forall|i: int| 0 <= i < it.seq().len() ==> in_text(*snapshot, #[trigger] it.seq()[i]),
        all_published(it.seq(), *snapshot, lsp_diagnostics@, it.index() as int),
        forall|i: int| 0 <= i < it.index() ==> ready(*snapshot, it.seq()[i], #[trigger] lsp_diagnostics@[i]),
//@at loop 0 start
    let ghost k = it.index() as int;
    proof { assert(in_text(*snapshot, it.seq()[k])); reveal(ready); }
//@end

#[verifier::external_body]
pub struct CodeActionParamsRest { e: () }
pub struct CodeActionParams { pub range: Range, pub rest: CodeActionParamsRest }
pub enum CodeActionOrCommand { CodeAction(CodeAction), Command(()) }
pub type LspResult<T> = Result<T>;
/// a is an action for the diagnostic
pub open spec fn action_for(a: CodeAction, snap: DocumentSnapshot, f: Data) -> bool {
    (!no_fix(f) && a.is_preferred == Some(f.is_safe) && one_edit(a, snap, f.start as int, f.end as int, f.content)) || inserts_comment(a, snap, f.rule_name) || (snap.rmd() && inserts_chunk_comment(a, snap, f))
}
/// the j-th diagnostic is in the requested range, and a is an action for it
pub open spec fn offered(snap: DocumentSnapshot, ps: Seq<Diagnostic>, want: Range, a: CodeActionOrCommand, n: int) -> bool {
    a is CodeAction && exists|j: int| 0 <= j < n && overlap((#[trigger] ps[j]).range, want) && data_of(ps[j]) is Some && action_for(a->CodeAction_0, snap, data_of(ps[j])->0)
}
/// the fix of diagnostic p is among the actions
pub open spec fn fix_among(snap: DocumentSnapshot, acts: Seq<CodeActionOrCommand>, f: Data) -> bool {
    exists|m: int| 0 <= m < acts.len() && (#[trigger] acts[m]) is CodeAction && acts[m]->CodeAction_0.is_preferred == Some(f.is_safe) && one_edit(acts[m]->CodeAction_0, snap, f.start as int, f.end as int, f.content)
}
pub open spec fn fixable(snap: DocumentSnapshot, p: Diagnostic, want: Range) -> bool {
    overlap(p.range, want) && data_of(p) is Some && !no_fix(data_of(p)->0) && data_of(p)->0.start <= encode_utf8(snap.text()).len() && data_of(p)->0.end <= encode_utf8(snap.text()).len()
}
pub proof fn lemma_fix_kept(snap: DocumentSnapshot, a: Seq<CodeActionOrCommand>, b: Seq<CodeActionOrCommand>, f: Data)
    requires fix_among(snap, a, f), a.len() <= b.len(), forall|m: int| 0 <= m < a.len() ==> b[m] == #[trigger] a[m],
    ensures fix_among(snap, b, f),
{ let m = choose|m: int| 0 <= m < a.len() && (#[trigger] a[m]) is CodeAction && a[m]->CodeAction_0.is_preferred == Some(f.is_safe) && one_edit(a[m]->CodeAction_0, snap, f.start as int, f.end as int, f.content); assert(b[m] == a[m]); }
pub proof fn lemma_offered_more(snap: DocumentSnapshot, ps: Seq<Diagnostic>, want: Range, a: CodeActionOrCommand, n: int, m: int)
    requires offered(snap, ps, want, a, n), n <= m,
    ensures offered(snap, ps, want, a, m),
{ }
impl Server {
//@fn crates/jarl-lsp/src/server.rs Server::generate_code_actions attr=#[verifier::rlimit(100)]
//@subst `use crate::lint::lint_document;` => ``
//@subst `types::CodeActionParams` => `CodeActionParams`
//@subst `types::CodeActionOrCommand` => `CodeActionOrCommand`
//@ret r
//@contract
    requires encode_utf8(snapshot.text()).len() <= i32::MAX,
    ensures match r { Err(_) => linted(*snapshot) is None, Ok(acts) => exists|ps: Seq<Diagnostic>| linted(*snapshot) is Some && #[trigger] all_published(linted(*snapshot)->0, *snapshot, ps, linted(*snapshot)->0.len() as int)
        && (forall|m: int| 0 <= m < acts@.len() ==> offered(*snapshot, ps, params.range, #[trigger] acts@[m], ps.len() as int))
        && (forall|j: int| 0 <= j < ps.len() && fixable(*snapshot, #[trigger] ps[j], params.range) ==> fix_among(*snapshot, acts@, data_of(ps[j])->0)) },
//@at start
    hide(inserts_comment); hide(inserts_chunk_comment); hide(one_edit); hide(found); hide(has_comment); hide(nothing_to_do); hide(published); hide(all_published); hide(action_for); hide(fits); hide(overlap);
//@loop 0 it
    invariant
        encode_utf8(snapshot.text()).len() <= i32::MAX, linted(*snapshot) is Some,
        all_published(linted(*snapshot)->0, *snapshot, it.seq(), linted(*snapshot)->0.len() as int),
        forall|i: int| 0 <= i < it.seq().len() ==> ready(*snapshot, linted(*snapshot)->0[i], #[trigger] it.seq()[i]),
        forall|m: int| 0 <= m < actions@.len() ==> offered(*snapshot, it.seq(), params.range, #[trigger] actions@[m], it.index() as int),
        forall|j: int| 0 <= j < it.index() && fixable(*snapshot, #[trigger] it.seq()[j], params.range) ==> fix_among(*snapshot, actions@, data_of(it.seq()[j])->0),
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost acts0 = actions@;
    let ghost ps = it.seq();
    let ghost mut acts1 = actions@;
    proof { assert(ready(*snapshot, linted(*snapshot)->0[k], ps[k])); lemma_ready(*snapshot, linted(*snapshot)->0[k], ps[k]); assert(diagnostic == ps[k]); }
//@at before `if let Some(action) = Self::diagnostic_to_jarl_ignore_rule_action`
    proof {
        acts1 = actions@;
    }
    proof {
        if fixable(*snapshot, diagnostic, params.range) {
            let m = acts1.len() - 1; let f = data_of(diagnostic)->0;
            assert(acts1[m] is CodeAction);
            assert(fix_among(*snapshot, acts1, f));
        }
    }
//@at loop 0 end
    proof {
        assert forall|m: int| 0 <= m < actions@.len() implies offered(*snapshot, ps, params.range, #[trigger] actions@[m], k + 1) by {
            if m < acts0.len() { assert(actions@[m] == acts0[m]); lemma_offered_more(*snapshot, ps, params.range, acts0[m], k, k + 1); }
            else { assert(overlap(ps[k].range, params.range)); reveal(action_for); assert(action_for(actions@[m]->CodeAction_0, *snapshot, data_of(ps[k])->0)); }
        }
        assert forall|j: int| 0 <= j < k + 1 && fixable(*snapshot, #[trigger] ps[j], params.range) implies fix_among(*snapshot, actions@, data_of(ps[j])->0) by {
            if j < k { lemma_fix_kept(*snapshot, acts0, actions@, data_of(ps[j])->0); } else { lemma_fix_kept(*snapshot, acts1, actions@, data_of(ps[j])->0); }
        }
    }
//@end
}
}
fn main() {}
