// P04: line and column of a diagnostic
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods iter into_iter map filter collect into match_indices

// ---- what the property says, on the bytes of the file ----
pub open spec fn nl(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && b[i] == 10 }
/// newlines before offset n
pub open spec fn newlines(b: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { newlines(b, n - 1) + if nl(b, n - 1) { 1int } else { 0 } } }
/// the last newline before offset n, or -1
pub open spec fn last_nl(b: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { -1 } else if nl(b, n - 1) { n - 1 } else { last_nl(b, n - 1) } }
pub open spec fn row(b: Seq<u8>, n: int) -> int { 1 + newlines(b, n) }
pub open spec fn col(b: Seq<u8>, n: int) -> int { n - last_nl(b, n) - 1 }
/// KNOWN FINDING (see known_findings.txt): if the last newline before the start is the first byte of the file, the
/// column is reported as the offset itself
pub open spec fn col_known(b: Seq<u8>, n: int) -> bool { last_nl(b, n) == 0 }
pub open spec fn right(b: Seq<u8>, n: int, l: Location) -> bool {
    l.row == row(b, n) && (l.column == col(b, n) || (col_known(b, n) && l.column == n))
}

// ---- the positions of the newlines ----
pub open spec fn positions(v: Seq<usize>, b: Seq<u8>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j])
    && (forall|i: int| 0 <= i < v.len() ==> nl(b, #[trigger] v[i] as int))
    && (forall|p: int| nl(b, p) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == p)
}
/// the entries below n, as the code selects them
pub open spec fn below(v: Seq<usize>, n: int) -> Seq<usize> { v.filter(|x: usize| x < n) }
pub proof fn lemma_filter_prefix(v: Seq<usize>, b: Seq<u8>, n: int, k: int)
    requires positions(v, b), 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> (v[i] < n <==> i < k),
    ensures below(v, n) == v.take(k),
{
    let p = |x: usize| x < n;
    lemma_take(v, k, v.len() as int, n);
    assert(v.take(v.len() as int) =~= v);
}
pub proof fn lemma_take(v: Seq<usize>, k: int, m: int, n: int)
    requires 0 <= k <= v.len(), 0 <= m <= v.len(), forall|i: int| 0 <= i < v.len() ==> (v[i] < n <==> i < k),
    ensures below(v.take(m), n) == (if m <= k { v.take(m) } else { v.take(k) }),
    decreases m,
{
    reveal_with_fuel(Seq::filter, 2);
    if m > 0 {
        lemma_take(v, k, m - 1, n);
        assert(v.take(m).drop_last() =~= v.take(m - 1));
        assert(v.take(m).last() == v[m - 1]);
        if m <= k { assert(v.take(m - 1).push(v[m - 1]) =~= v.take(m)); }
    } else { assert(v.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_below(v: Seq<usize>, b: Seq<u8>, n: int) -> (k: int)
    requires positions(v, b), 0 <= n,
    ensures 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> (v[i] < n <==> i < k), k == newlines(b, n),
        last_nl(b, n) == (if k > 0 { v[k - 1] as int } else { -1 }),
    decreases n,
{
    if n == 0 { 0 } else {
        let k = lemma_below(v, b, n - 1);
        if nl(b, n - 1) {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == n - 1;
            assert(i == k) by { if i > k { assert(v[k] < v[i]); } }
            assert forall|j: int| 0 <= j < v.len() implies (v[j] < n <==> j < k + 1) by { if j > k { assert(v[k] < v[j]); } if j < k { assert(v[j] < v[k]); } }
            k + 1
        } else {
            assert forall|j: int| 0 <= j < v.len() implies (v[j] < n <==> j < k) by { assert(nl(b, v[j] as int)); }
            k
        }
    }
}
pub proof fn lemma_positions(v: Seq<usize>, b: Seq<u8>, n: int)
    requires positions(v, b), 0 <= n,
    ensures below(v, n).len() == newlines(b, n), last_nl(b, n) == (if below(v, n).len() > 0 { below(v, n).last() as int } else { -1 }), last_nl(b, n) < n,
{
    let k = lemma_below(v, b, n);
    lemma_filter_prefix(v, b, n, k);
    if k > 0 { assert(below(v, n).last() == v[k - 1]); }
}

pub trait VxMatchIdx {
    spec fn vx_m(&self) -> Seq<char>;
    /// (TRUSTED: str::match_indices of a newline yields the byte offsets of the newlines in ascending order)
    fn vx_match_indices<P: VxNl>(&self, p: P) -> (r: Vec<(usize, ())>)
        requires p.vx_nl()
        ensures positions(r@.map_values(|x: (usize, ())| x.0), encode_utf8(self.vx_m()));
}
pub trait VxNl: Sized { spec fn vx_nl(self) -> bool; }
impl VxNl for char { open spec fn vx_nl(self) -> bool { self == '\n' } }
impl VxNl for &str { open spec fn vx_nl(self) -> bool { self@ == seq!['\n'] } }
impl VxMatchIdx for str {
    open spec fn vx_m(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_match_indices<P: VxNl>(&self, p: P) -> (r: Vec<(usize, ())>) { unimplemented!() }
}

// ---- what the code works with ----
//@item crates/jarl-core/src/location.rs struct Location
impl Location {
//@fn crates/jarl-core/src/location.rs Location::new
//@ret r
//@contract
    ensures r.row == row, r.column == column,
//@end
//@fn crates/jarl-core/src/location.rs Location::row
//@ret r
//@contract
    ensures r == self.row,
//@end
//@fn crates/jarl-core/src/location.rs Location::column
//@ret r
//@contract
    ensures r == self.column,
//@end
}
#[verifier::external_body]
pub struct PathBuf { e: () }
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic
/// entries of v are at least their index
pub proof fn lemma_len(v: Seq<usize>, b: Seq<u8>, i: int)
    requires positions(v, b), 0 <= i < v.len(),
    ensures i <= v[i] < b.len(),
    decreases i,
{ assert(nl(b, v[i] as int)); if i > 0 { lemma_len(v, b, i - 1); assert(v[i - 1] < v[i]); } }
pub proof fn lemma_len_all(v: Seq<usize>, b: Seq<u8>)
    requires positions(v, b),
    ensures v.len() <= b.len(),
{ if v.len() > 0 { lemma_len(v, b, v.len() - 1); } }
/// what the code computes from the list of positions
pub open spec fn located(v: Seq<usize>, start: int, row: int, column: int) -> bool {
    let w = below(v, start);
    row == 1 + w.len() && column == (if w.len() == 0 || w.last() == 0 { start } else { start - w.last() - 1 })
}
pub proof fn lemma_right(v: Seq<usize>, b: Seq<u8>, n: int, l: Location)
    requires positions(v, b), 0 <= n, located(v, n, l.row as int, l.column as int),
    ensures right(b, n, l),
{ lemma_positions(v, b, n); }

//@fn crates/jarl-core/src/utils.rs find_new_lines_from_content
//@subst `content.match_indices('\n').map(|(i, _)| i).collect()` => `let vx_m = content.match_indices('\n'); let vx_r = vx_m.map(|x| x.0); `
//@closure 0 (x: (usize, ())) -> i: usize
    ensures i == x.0
//@at end
    proof { assert(vx_r@ =~= vx_m@.map_values(|x: (usize, ())| x.0)); assert(content.spec_bytes().len() <= isize::MAX); lemma_len_all(vx_r@, encode_utf8(content@)); } vx_r
//@ret r
//@contract
    ensures positions(r@, encode_utf8(content@)), r@.len() < usize::MAX,
//@end
//@fn crates/jarl-core/src/utils.rs find_row_col
//@subst `loc_new_lines.iter().filter(|x| *x < &start).collect::<Vec<&usize>>();` => `vx_all.clone().filter(|x| **x < start);`
//@closure 0 (x: &&usize) -> r: bool
    ensures r == (**x < start)
//@at before let new_lines_before
    let vx_all = loc_new_lines.vx_iter();
//@at before let n_new_lines
    proof {
        let o = choose|o: Seq<Option<&usize>>| new_lines_before@ == #[trigger] somes(o) && o.len() == loc_new_lines@.len()
            && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i] == kept(vx_all@[i], o[i] is Some) && (o[i] is Some == (*vx_all@[i] < start)));
        let w = loc_new_lines@.map_values(|x: usize| kept(x, x < start));
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] w[i] == (match o[i] { Some(x) => Some(*x), None => None }) by { assert(*vx_all@[i] == loc_new_lines@[i]); }
        lemma_somes_map(o, w, |x: &usize| *x);
        lemma_somes_filter(loc_new_lines@, w, |x: usize| x < start);
        assert(new_lines_before@.map_values(|x: &usize| *x) == below(loc_new_lines@, start as int));
        below_len(loc_new_lines@, start as int);
    }
//@ret r
//@contract
    requires loc_new_lines@.len() < usize::MAX,
    ensures located(loc_new_lines@, start as int, r.0 as int, r.1 as int),
//@end
pub proof fn below_len(v: Seq<usize>, n: int)
    ensures below(v, n).len() <= v.len(), below(v, n).len() > 0 ==> below(v, n).last() < n,
    decreases v.len(),
{ reveal_with_fuel(Seq::filter, 2); if v.len() > 0 { below_len(v.drop_last(), n); } }

/// d with its location computed from the positions
pub open spec fn with_location(d: Diagnostic, e: Diagnostic, v: Seq<usize>) -> bool {
    e.location is Some && located(v, d.range.s as int, e.location->0.row as int, e.location->0.column as int)
    && e.message == d.message && e.filename == d.filename && e.range == d.range && e.fix == d.fix
}
//@fn crates/jarl-core/src/utils.rs compute_lints_location
//@subst `|mut diagnostic| {` => `|diagnostic| { let mut diagnostic = diagnostic;`
//@subst `.collect()` => ``
//@closure 0 (diagnostic: Diagnostic) -> r: Diagnostic
    requires loc_new_lines@.len() < usize::MAX
    ensures with_location(diagnostic, r, loc_new_lines@)
//@ret r
//@contract
    requires loc_new_lines@.len() < usize::MAX,
    ensures r@.len() == diagnostics@.len(), forall|i: int| 0 <= i < r@.len() ==> with_location(diagnostics@[i], #[trigger] r@[i], loc_new_lines@),
//@end

/// the property: r is d with every diagnostic located in the text t
pub open spec fn all_located(d: Seq<Diagnostic>, r: Seq<Diagnostic>, t: Seq<char>) -> bool {
    r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> same_but_location(d[i], #[trigger] r[i]) && r[i].location is Some && right(encode_utf8(t), d[i].range.s as int, r[i].location->0)
}
pub open spec fn same_but_location(d: Diagnostic, e: Diagnostic) -> bool { e.message == d.message && e.filename == d.filename && e.range == d.range && e.fix == d.fix }
pub proof fn lemma_all(d: Seq<Diagnostic>, r: Seq<Diagnostic>, v: Seq<usize>, t: Seq<char>)
    requires positions(v, encode_utf8(t)), r.len() == d.len(), forall|i: int| 0 <= i < r.len() ==> with_location(d[i], #[trigger] r[i], v),
    ensures all_located(d, r, t),
{
    assert forall|i: int| 0 <= i < r.len() implies same_but_location(d[i], #[trigger] r[i]) && r[i].location is Some && right(encode_utf8(t), d[i].range.s as int, r[i].location->0) by {
        lemma_right(v, encode_utf8(t), d[i].range.s as int, r[i].location->0);
    }
}
// where a file is checked
//@count crates/jarl-core/src/check.rs `compute_lints_location(` 2
//@fn crates/jarl-core/src/check.rs get_checks as=get_checks_end
//@sig fn get_checks(contents: &str, diagnostics: Vec<Diagnostic>) -> Result<Vec<Diagnostic>>
//@from `let loc_new_lines`
//@ret r
//@contract
    ensures r is Ok && all_located(diagnostics@, r->Ok_0@, contents@),
//@at before `Ok(diagnostics)`
    proof { lemma_all(vx_d, diagnostics@, loc_new_lines@, contents@); }
//@at start
    let ghost vx_d = diagnostics@;
//@end
//@fn crates/jarl-core/src/check.rs get_checks_rmd as=get_checks_rmd_end
//@sig fn get_checks_rmd(contents: &str, all_diagnostics: Vec<Diagnostic>) -> Result<Vec<Diagnostic>>
//@from `let loc_new_lines`
//@subst `crate::utils::` => ``
//@subst `Ok(compute_lints_location(all_diagnostics, &loc_new_lines))` => `let vx_r = compute_lints_location(all_diagnostics, &loc_new_lines); proof { lemma_all(vx_d, vx_r@, loc_new_lines@, contents@); } Ok(vx_r)`
//@at start
    let ghost vx_d = all_diagnostics@;
//@ret r
//@contract
    ensures r is Ok && all_located(all_diagnostics@, r->Ok_0@, contents@),
//@end
}
fn main() {}
