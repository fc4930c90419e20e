// P11: where ignore comments are inserted, and what is inserted
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
//@include vlib_line.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@include ignores.rs
// ---- adding the comments of a file: a slice of add_jarl_ignore_comments ----
#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub struct Location { e: () }
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
pub uninterp spec fn is_rmd(p: PathBuf) -> bool;
#[verifier::external_body]
pub fn has_rmd_extension(p: &PathBuf) -> (r: bool) ensures r == is_rmd(*p) { unimplemented!() }
/// the order a sort by f leaves: n items, item i is the old item p[i]
pub open spec fn permutation(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]) && (forall|j: int| 0 <= j < n ==> p.contains(j))
}
pub open spec fn reordered<T>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>| #[trigger] permutation(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
pub trait VxSort<T>: Sized {
    spec fn vx_x(&self) -> Seq<T>;
    fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| call_requires(f, (a, b)),
        ensures reordered(old(self).vx_x(), final(self).vx_x()),
            forall|i: int, j: int| 0 <= i < j < final(self).vx_x().len() ==> in_this_order(f, #[trigger] final(self).vx_x()[i], #[trigger] final(self).vx_x()[j]);
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => old(self).vx_x().len() > 0 && *x == old(self).vx_x().last() && final(self).vx_x() == old(self).vx_x().drop_last().push(*final(x)),
            None => old(self).vx_x().len() == 0 && final(self).vx_x() == old(self).vx_x() };
}
pub open spec fn in_this_order<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| call_ensures(f, (&a, &b), o) && o != core::cmp::Ordering::Greater }
impl<T> VxSort<T> for Vec<T> {
    open spec fn vx_x(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.sort_by(f) }
    #[verifier::external_body]
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>) { self.last_mut() }
}
pub trait VxNames { spec fn vx_ns(&self) -> Seq<Seq<char>>; fn vx_has(&self, x: &String) -> (r: bool) ensures r == self.vx_ns().contains(x@); }
impl VxNames for Vec<String> {
    open spec fn vx_ns(&self) -> Seq<Seq<char>> { sviews(self@) }
    #[verifier::external_body]
    fn vx_has(&self, x: &String) -> (r: bool) { self.contains(x) }
}
pub trait VxInsert {
    spec fn vx_i(&self) -> Seq<char>;
    /// panics unless at a character boundary
    fn vx_insert_str(&mut self, o: usize, t: &str)
        requires whole(old(self).vx_i(), o as int),
        ensures forall|k: int| #[trigger] at_char(old(self).vx_i(), o as int, k) ==> final(self).vx_i() == old(self).vx_i().take(k) + t@ + old(self).vx_i().skip(k);
    fn vx_has_any(&self, c: [char; 2]) -> (r: bool) ensures r == exists|i: int| 0 <= i < self.vx_i().len() && (#[trigger] self.vx_i()[i] == c[0] || self.vx_i()[i] == c[1]);
}
impl VxInsert for str {
    open spec fn vx_i(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_insert_str(&mut self, o: usize, t: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_has_any(&self, c: [char; 2]) -> (r: bool) { self.contains(c) }
}
impl VxInsert for String {
    open spec fn vx_i(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_insert_str(&mut self, o: usize, t: &str) { self.insert_str(o, t) }
    #[verifier::external_body]
    fn vx_has_any(&self, c: [char; 2]) -> (r: bool) { self.contains(c) }
}
/// o is a place for comments with this indentation
pub open spec fn spot(s: Seq<char>, o: int, indent: Seq<char>, nl: bool) -> bool { blanks(indent) && exists|k: int| #[trigger] at_char(s, o, k) && (nl || line_start(s, k)) }
pub proof fn lemma_spot(s: Seq<char>, p: SuppressionInsertPoint)
    requires some_place(s, p),
    ensures spot(s, p.offset as int, p.indent@, p.needs_leading_newline),
{ let k = choose|k: int| #[trigger] place(s, k, p); assert(at_char(s, p.offset as int, k)); }
/// and no token is cut there
pub open spec fn cuts_nothing(s: Seq<char>, rmd: bool, o: int) -> bool {
    if rmd { exists|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(s, cs) && good_in_chunk(cs, o) } else { parses(s) ==> !inside(s, o) }
}
pub open spec fn diag_found(s: Seq<char>, rmd: bool, d: Diagnostic) -> bool {
    if rmd { forall|cs: Seq<(Seq<char>, int)>| #[trigger] chunks_of(s, cs) ==> found_in_chunk(cs, d.range.s as int, d.range.e as int) } else { found_at(s, d.range.s as int, d.range.e as int) }
}
/// the comments to insert at one place
pub type Edit = (usize, String, bool, Vec<String>);
pub open spec fn named(ds: Seq<&Diagnostic>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).message.name@ == n }
pub open spec fn edit_ok(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, e: Edit) -> bool {
    &&& spot(s, e.0 as int, e.1@, e.2) && cuts_nothing(s, rmd, e.0 as int)
    &&& e.3@.len() > 0
    &&& forall|i: int| 0 <= i < e.3@.len() ==> named(ds, #[trigger] sviews(e.3@)[i])
    &&& forall|i: int, j: int| 0 <= i < j < e.3@.len() ==> sviews(e.3@)[i] != sviews(e.3@)[j]
}
/// a comment for the rule n at o
pub open spec fn covers(es: Seq<Edit>, o: usize, n: Seq<char>) -> bool { exists|m: int| 0 <= m < es.len() && (#[trigger] es[m]).0 == o && sviews(es[m].3@).contains(n) }
/// one comment for the rule n
pub open spec fn covered(es: Seq<Edit>, n: Seq<char>) -> bool { exists|m: int| 0 <= m < es.len() && sviews((#[trigger] es[m]).3@).contains(n) }
pub open spec fn char_of(s: Seq<char>, o: int) -> int { choose|k: int| at_char(s, o, k) }
pub proof fn lemma_char_of(s: Seq<char>, o: int, k: int)
    requires at_char(s, o, k),
    ensures char_of(s, o) == k, at_char(s, o, char_of(s, o)),
{ assert(at_char(s, o, char_of(s, o))); lemma_bo_inj(s, k, char_of(s, o)); }
/// the text from the i-th last insertion on
pub open spec fn woven_from(s: Seq<char>, es: Seq<(int, Seq<char>)>, i: int) -> Seq<char>
    decreases i,
{ if i <= 0 { Seq::empty() } else { es[i - 1].1 + s.subrange(es[i - 1].0, bound(s, es, i - 1)) + woven_from(s, es, i - 1) } }
pub open spec fn bound(s: Seq<char>, es: Seq<(int, Seq<char>)>, i: int) -> int { if i <= 0 { s.len() as int } else { es[i - 1].0 } }
/// the text with the insertions, the last one in the file first
pub open spec fn woven(s: Seq<char>, es: Seq<(int, Seq<char>)>) -> Seq<char> { s.take(bound(s, es, es.len() as int)) + woven_from(s, es, es.len() as int) }
/// without what was inserted it is the original text
pub proof fn p11_original(s: Seq<char>, es: Seq<(int, Seq<char>)>, i: int)
    requires 0 <= i <= es.len(), forall|j: int| 0 <= j < es.len() ==> 0 <= (#[trigger] es[j]).0 <= bound(s, es, j) && es[j].1.len() == 0,
    ensures 0 <= bound(s, es, i) <= s.len(), woven_from(s, es, i) == s.skip(bound(s, es, i)), i == es.len() ==> woven(s, es) == s,
    decreases i,
{
    if i > 0 { p11_original(s, es, i - 1); assert(0 <= es[i - 1].0 <= bound(s, es, i - 1)); assert(woven_from(s, es, i) =~= s.skip(bound(s, es, i))); } else { assert(woven_from(s, es, i) =~= s.skip(bound(s, es, i))); }
    if i == es.len() { assert(woven(s, es) =~= s); }
}
pub open spec fn insertion(s: Seq<char>, why: Seq<char>, e: Edit) -> (int, Seq<char>) { (char_of(s, e.0 as int), inserted(e.1@, sviews(e.3@), why, e.2)) }
pub open spec fn insertions(s: Seq<char>, why: Seq<char>, es: Seq<Edit>) -> Seq<(int, Seq<char>)> { es.map_values(|e: Edit| insertion(s, why, e)) }


pub type Raw = (usize, String, bool, String);
pub open spec fn raw_ok(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, e: Raw) -> bool { spot(s, e.0 as int, e.1@, e.2) && cuts_nothing(s, rmd, e.0 as int) && named(ds, e.3@) }
pub open spec fn raw_has(raw: Seq<Raw>, n: Seq<char>) -> bool { exists|j: int| 0 <= j < raw.len() && (#[trigger] raw[j]).3@ == n }
#[verifier::opaque]
pub open spec fn merged_ok(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, raw: Seq<Raw>, n: int, es: Seq<Edit>) -> bool {
    &&& forall|m: int| 0 <= m < es.len() ==> edit_ok(s, rmd, ds, #[trigger] es[m])
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 < (#[trigger] es[j]).0
    &&& (n > 0 ==> es.len() > 0 && es.last().0 == raw[n - 1].0) && (n == 0 ==> es.len() == 0)
    &&& forall|j: int| 0 <= j < n ==> covers(es, (#[trigger] raw[j]).0, raw[j].3@)
}
pub open spec fn raw_sorted(raw: Seq<Raw>) -> bool { forall|i: int, j: int| 0 <= i < j < raw.len() ==> (#[trigger] raw[i]).0 <= (#[trigger] raw[j]).0 }
pub proof fn lemma_merge_new(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, raw: Seq<Raw>, n: int, es: Seq<Edit>, e: Edit)
    requires merged_ok(s, rmd, ds, raw, n, es), 0 <= n < raw.len(), raw_sorted(raw), raw_ok(s, rmd, ds, raw[n]), es.len() == 0 || es.last().0 != raw[n].0,
        e.0 == raw[n].0, e.1@ == raw[n].1@, e.2 == raw[n].2, e.3@.len() == 1, e.3@[0]@ == raw[n].3@,
    ensures merged_ok(s, rmd, ds, raw, n + 1, es.push(e)),
{
    reveal(merged_ok);
    let f = es.push(e);
    assert(sviews(e.3@)[0] == raw[n].3@);
    assert(edit_ok(s, rmd, ds, e));
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 < (#[trigger] f[j]).0 by {
        if j == es.len() { assert(raw[n - 1].0 <= raw[n].0); assert(es[i].0 <= es.last().0); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies covers(f, (#[trigger] raw[j]).0, raw[j].3@) by {
        if j < n { let m = choose|m: int| 0 <= m < es.len() && (#[trigger] es[m]).0 == raw[j].0 && sviews(es[m].3@).contains(raw[j].3@); assert(f[m] == es[m]); }
        else { assert(f[es.len() as int] == e); }
    }
}
pub proof fn lemma_merge_same(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, raw: Seq<Raw>, n: int, es: Seq<Edit>, e: Edit)
    requires merged_ok(s, rmd, ds, raw, n, es), 0 <= n < raw.len(), raw_sorted(raw), raw_ok(s, rmd, ds, raw[n]), es.len() > 0, es.last().0 == raw[n].0,
        e.0 == es.last().0, e.1@ == es.last().1@, e.2 == es.last().2,
        sviews(e.3@) == (if sviews(es.last().3@).contains(raw[n].3@) { sviews(es.last().3@) } else { sviews(es.last().3@).push(raw[n].3@) }),
    ensures merged_ok(s, rmd, ds, raw, n + 1, es.drop_last().push(e)),
{
    reveal(merged_ok);
    let f = es.drop_last().push(e);
    let l = es.last();
    let old = sviews(l.3@); let new = sviews(e.3@);
    assert(edit_ok(s, rmd, ds, es[es.len() - 1]));
    assert(new.len() == e.3@.len() && old.len() == l.3@.len());
    assert forall|i: int| 0 <= i < e.3@.len() implies named(ds, #[trigger] sviews(e.3@)[i]) by { if i < old.len() { assert(new[i] == old[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < e.3@.len() implies sviews(e.3@)[i] != sviews(e.3@)[j] by { assert(new[i] == old[i]); if j < old.len() { assert(new[j] == old[j]); } }
    assert(edit_ok(s, rmd, ds, e));
    assert forall|m: int| 0 <= m < f.len() implies edit_ok(s, rmd, ds, #[trigger] f[m]) by { if m < f.len() - 1 { assert(f[m] == es[m]); } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 < (#[trigger] f[j]).0 by { assert(es[i].0 < es[j].0); }
    assert forall|j: int| 0 <= j < n + 1 implies covers(f, (#[trigger] raw[j]).0, raw[j].3@) by {
        let last = es.len() - 1;
        assert(f[last] == e);
        if j < n {
            let m = choose|m: int| 0 <= m < es.len() && (#[trigger] es[m]).0 == raw[j].0 && sviews(es[m].3@).contains(raw[j].3@);
            if m < last { assert(f[m] == es[m]); } else { let x = choose|x: int| 0 <= x < old.len() && old[x] == raw[j].3@; assert(new[x] == old[x]); }
        } else if old.contains(raw[n].3@) { } else { assert(new[old.len() as int] == raw[n].3@); }
    }
}
pub proof fn lemma_back<T>(a: Seq<T>, b: Seq<T>, i: int)
    requires reordered(a, b), 0 <= i < a.len(),
    ensures exists|j: int| 0 <= j < a.len() && b[i] == #[trigger] a[j], exists|j: int| 0 <= j < a.len() && a[i] == #[trigger] b[j],
{
    let p = choose|p: Seq<int>| #[trigger] permutation(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]];
    assert(b[i] == a[p[i]]);
    assert(p.contains(i));
    let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
    assert(b[j] == a[p[j]]);
}
pub proof fn lemma_raw_sorted(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, a: Seq<Raw>, b: Seq<Raw>)
    requires reordered(a, b), forall|i: int| 0 <= i < a.len() ==> raw_ok(s, rmd, ds, #[trigger] a[i]),
    ensures forall|i: int| 0 <= i < b.len() ==> raw_ok(s, rmd, ds, #[trigger] b[i]), forall|n: Seq<char>| raw_has(a, n) ==> #[trigger] raw_has(b, n),
{
    assert forall|i: int| 0 <= i < b.len() implies raw_ok(s, rmd, ds, #[trigger] b[i]) by { lemma_back(a, b, i); }
    assert forall|n: Seq<char>| raw_has(a, n) implies #[trigger] raw_has(b, n) by { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).3@ == n; lemma_back(a, b, j); }
}
/// what holds of the merged edits once they are in descending order
pub proof fn lemma_edits(s: Seq<char>, rmd: bool, ds: Seq<&Diagnostic>, raw: Seq<Raw>, a: Seq<Edit>, b: Seq<Edit>)
    requires merged_ok(s, rmd, ds, raw, raw.len() as int, a), reordered(a, b), forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 >= (#[trigger] b[j]).0,
    ensures
        forall|i: int| 0 <= i < b.len() ==> edit_ok(s, rmd, ds, #[trigger] b[i]),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 > (#[trigger] b[j]).0,
        forall|n: Seq<char>| raw_has(raw, n) ==> #[trigger] covered(b, n),
{
    reveal(merged_ok);
    let p = choose|p: Seq<int>| #[trigger] permutation(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 > (#[trigger] b[j]).0 by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]);
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(a[p[i]].0 < a[p[j]].0); } else { assert(a[p[j]].0 < a[p[i]].0); }
    }
    assert forall|n: Seq<char>| raw_has(raw, n) implies #[trigger] covered(b, n) by {
        let j = choose|j: int| 0 <= j < raw.len() && (#[trigger] raw[j]).3@ == n;
        assert(covers(a, raw[j].0, raw[j].3@));
        let m = choose|m: int| 0 <= m < a.len() && (#[trigger] a[m]).0 == raw[j].0 && sviews(a[m].3@).contains(n);
        lemma_back(a, b, m);
    }
}
/// a reason that cannot end the comment is the only one accepted
//@fn crates/jarl/src/commands/check.rs add_jarl_ignore_comments
//@sig fn accepted(reason: &str) -> Result<()>
//@ret r
//@from `if reason.contains`
//@upto `if all_diagnostics.is_empty()`
//@subst `.contains(` => `.vx_has_any(`
//@contract
    ensures r is Ok <==> !reason@.contains('\n') && !reason@.contains('\r'),
//@at start
    proof {
        assert(reason@.contains('\n') ==> exists|i: int| 0 <= i < reason@.len() && #[trigger] reason@[i] == '\n');
    }
//@at end
    Ok(())
//@end
//@methods into iter map sort_by last_mut insert_str collect
//@fn crates/jarl/src/commands/check.rs add_jarl_ignore_comments
//@sig fn add_ignores<'a>(path: PathBuf, content: String, diagnostics: Vec<&'a Diagnostic>, reason: &str) -> Option<(String, Vec<Edit>)>
//@ret r
//@from `let mut raw_edits` nested
//@upto `let num_suppressions`
//@subst `if raw_edits.is_empty() { continue; }` => `if raw_edits.is_empty() { return None; }`
//@subst `.contains(` => `.vx_has(`
//@subst `last.3.push(rule_name)` => `last.3.push(rule_name.clone())`
//@subst `.map(|s| s.as_str()).collect()` => `.map(|s| s.as_str())`
//@contract
    requires
        forall|i: int| 0 <= i < diagnostics@.len() ==> diag_found(content@, is_rmd(path), *#[trigger] diagnostics@[i]),
    ensures match r {
        None => diagnostics@.len() == 0,
        Some((text, es)) => {
            &&& text@ == woven(content@, insertions(content@, reason@, es@))
            &&& forall|i: int| 0 <= i < es@.len() ==> edit_ok(content@, is_rmd(path), diagnostics@, #[trigger] es@[i])
            &&& forall|i: int, j: int| 0 <= i < j < es@.len() ==> (#[trigger] es@[i]).0 > (#[trigger] es@[j]).0
            &&& forall|i: int| 0 <= i < diagnostics@.len() ==> covered(es@, (#[trigger] diagnostics@[i]).message.name@)
        } },
//@closure 0 (a: &(usize, String, bool, String), b: &(usize, String, bool, String)) -> o: core::cmp::Ordering
    ensures o == core::cmp::Ordering::Greater <==> a.0 > b.0,
//@closure 1 (a: &(usize, String, bool, Vec<String>), b: &(usize, String, bool, Vec<String>)) -> o: core::cmp::Ordering
    ensures o == core::cmp::Ordering::Greater <==> a.0 < b.0,
//@closure 2 (s: &String) -> t: &str
    ensures t@ == s@,
//@loop 0 it
    invariant
        is_rmd == self::is_rmd(path), it.seq().len() == diagnostics@.len(), forall|i: int| 0 <= i < diagnostics@.len() ==> *#[trigger] it.seq()[i] == diagnostics@[i],
        forall|i: int| 0 <= i < diagnostics@.len() ==> diag_found(content@, is_rmd, *#[trigger] diagnostics@[i]),
        raw_edits@.len() == it.index(),
        forall|i: int| 0 <= i < raw_edits@.len() ==> raw_ok(content@, is_rmd, diagnostics@, #[trigger] raw_edits@[i]),
        forall|i: int| 0 <= i < it.index() ==> raw_has(raw_edits@, (#[trigger] diagnostics@[i]).message.name@),
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost raw0 = raw_edits@;
    proof { assert(diag_found(content@, is_rmd, *diagnostics@[k])); assert(*diagnostic == diagnostics@[k]); }
//@at before `if let Some(edit)`
    proof { lemma_spot(content@, edit->0.insert_point); }
//@at loop 0 end
    proof {
        assert(raw_edits@.len() == k + 1);
        let e = raw_edits@[k];
        assert(e.3@ == diagnostics@[k].message.name@);
        assert(named(diagnostics@, e.3@));
        assert(spot(content@, e.0 as int, e.1@, e.2));
        assert(cuts_nothing(content@, is_rmd, e.0 as int));
        assert(raw_ok(content@, is_rmd, diagnostics@, e));
        assert forall|i: int| 0 <= i < k implies raw_edits@[i] == #[trigger] raw0[i] by { }
        assert forall|i: int| 0 <= i < k + 1 implies raw_has(raw_edits@, (#[trigger] diagnostics@[i]).message.name@) by {
            if i < k { let j = choose|j: int| 0 <= j < raw0.len() && (#[trigger] raw0[j]).3@ == diagnostics@[i].message.name@; assert(raw_edits@[j] == raw0[j]); }
        }
    }
//@at before `raw_edits.vx_sort_by`
    let ghost raw1 = raw_edits@;
//@at before let merged_edits
    let ghost raw = raw_edits@;
    proof { lemma_raw_sorted(content@, is_rmd, diagnostics@, raw1, raw); }
//@at before loop 1
    proof { reveal(merged_ok); }
//@loop 1 it2
    invariant
        it2.seq() == raw, raw_sorted(raw), forall|i: int| 0 <= i < raw.len() ==> raw_ok(content@, is_rmd, diagnostics@, #[trigger] raw[i]),
        merged_ok(content@, is_rmd, diagnostics@, raw, it2.index() as int, merged_edits@),
//@at loop 1 start
    let ghost k = it2.index() as int;
    let ghost es = merged_edits@;
//@at loop 1 end
    proof {
        if vx_more { assert(merged_edits@ =~= es.push(merged_edits@.last())); lemma_merge_new(content@, is_rmd, diagnostics@, raw, k, es, merged_edits@.last()); }
        else { assert(merged_edits@ =~= es.drop_last().push(merged_edits@.last()));
            let l = es.last(); let m = merged_edits@.last();
            if sviews(l.3@).contains(raw[k].3@) { assert(sviews(m.3@) =~= sviews(l.3@)); } else { assert(m.3@.drop_last() =~= l.3@); assert(m.3@.last()@ == raw[k].3@); assert(sviews(m.3@) =~= sviews(l.3@).push(raw[k].3@)); }
            lemma_merge_same(content@, is_rmd, diagnostics@, raw, k, es, merged_edits@.last()); }
    }
//@at before `merged_edits.vx_sort_by`
    let ghost up = merged_edits@;
//@at before let modified_content
    proof { lemma_edits(content@, is_rmd, diagnostics@, raw, up, merged_edits@); }
    let ghost es = merged_edits@;
    let ghost ins = insertions(content@, reason@, es);
//@loop 2 it3
    invariant
        it3.seq().len() == es.len(), forall|i: int| 0 <= i < es.len() ==> *#[trigger] it3.seq()[i] == es[i],
        forall|i: int| 0 <= i < es.len() ==> edit_ok(content@, is_rmd, diagnostics@, #[trigger] es[i]),
        forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 > (#[trigger] es[j]).0,
        ins == insertions(content@, reason@, es),
        0 <= bound(content@, ins, it3.index() as int) <= content@.len(),
        modified_content@ == content@.take(bound(content@, ins, it3.index() as int)) + woven_from(content@, ins, it3.index() as int),
//@at loop 2 start
    let ghost k = it3.index() as int;
    let ghost m0 = modified_content@;
    let ghost c = content@;
    let ghost b = bound(c, ins, k);
    let ghost x = char_of(c, *offset as int);
    proof {
        assert(ins[k] == insertion(c, reason@, es[k]));
        let y = choose|y: int| #[trigger] at_char(c, *offset as int, y) && (*needs_leading_newline || line_start(c, y));
        lemma_char_of(c, *offset as int, y);
        if k > 0 {
            assert(ins[k - 1] == insertion(c, reason@, es[k - 1]));
            assert(edit_ok(c, is_rmd, diagnostics@, es[k - 1]));
            let z = choose|z: int| #[trigger] at_char(c, es[k - 1].0 as int, z) && (es[k - 1].2 || line_start(c, z));
            lemma_char_of(c, es[k - 1].0 as int, z);
            if x > z { lemma_bo(c, z, x); }
        }
        assert(0 <= x <= b);
        assert(m0.take(x) =~= c.take(x));
        assert(at_char(m0, *offset as int, x));
        assert(m0.skip(x) =~= c.subrange(x, b) + woven_from(c, ins, k));
    }
//@at before `modified_content.vx_insert_str`
    proof { assert(views(rule_refs@) =~= sviews(rule_names@)); }
//@at loop 2 end
    proof {
        assert(modified_content@ == m0.take(x) + ins[k].1 + m0.skip(x));
        assert(ins[k].0 == x);
        assert(bound(c, ins, k + 1) == x);
        assert(woven_from(c, ins, k + 1) == ins[k].1 + c.subrange(x, b) + woven_from(c, ins, k));
        assert(modified_content@ =~= c.take(x) + woven_from(c, ins, k + 1));
    }
//@at end
    Some((modified_content, merged_edits))
//@end
}
fn main() {}
