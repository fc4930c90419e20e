// P01: applying the fixes of one pass
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
//@include vlib_text.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods iter map collect replace_range

#[verifier::external_body]
pub struct PathBuf { e: () }
#[verifier::external_body]
pub struct Location { e: () }
//@item crates/jarl-core/src/diagnostic.rs struct Fix
//@item crates/jarl-core/src/diagnostic.rs struct ViolationData
//@item crates/jarl-core/src/diagnostic.rs struct Diagnostic

// ---- what the property says, in bytes of the original file ----
pub ghost struct Edit { pub start: int, pub end: int, pub text: Seq<u8> }
pub open spec fn edit(f: Fix) -> Edit { Edit { start: f.start as int, end: f.end as int, text: encode_utf8(f.content@) } }
pub open spec fn edits(ds: Seq<Diagnostic>) -> Seq<Edit> { ds.map_values(|d: Diagnostic| edit(d.fix)) }
/// a range of whole characters of the file
pub open spec fn valid(b: Seq<u8>, e: Edit) -> bool {
    0 <= e.start <= e.end <= b.len() && is_char_boundary(b, e.start) && is_char_boundary(b, e.end) && valid_utf8(e.text)
}
/// end of the last fix applied among the first k
pub open spec fn last(fs: Seq<Edit>, k: int) -> int
    decreases k, 0int,
{ if k <= 0 { 0 } else if left_out(fs, k - 1) { last(fs, k - 1) } else { fs[k - 1].end } }
/// fix k starts before the end of a fix already applied
pub open spec fn left_out(fs: Seq<Edit>, k: int) -> bool
    decreases k, 1int,
{ fs[k].start < last(fs, k) }
/// the file up to the end of the last fix applied among the first k, rewritten
pub open spec fn done(b: Seq<u8>, fs: Seq<Edit>, k: int) -> Seq<u8>
    decreases k,
{ if k <= 0 { Seq::empty() } else if left_out(fs, k - 1) { done(b, fs, k - 1) } else { done(b, fs, k - 1) + b.subrange(last(fs, k - 1), fs[k - 1].start) + fs[k - 1].text } }
pub open spec fn rewritten(b: Seq<u8>, fs: Seq<Edit>, k: int) -> Seq<u8> { done(b, fs, k) + b.skip(last(fs, k)) }
pub open spec fn any_left_out(fs: Seq<Edit>, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] left_out(fs, i) }
/// size of the file and of everything that may be inserted by the first k
pub open spec fn size(b: Seq<u8>, fs: Seq<Edit>, k: int) -> int
    decreases k,
{ if k <= 0 { b.len() as int } else { size(b, fs, k - 1) + fs[k - 1].text.len() } }

/// the fixes applied are pairwise disjoint and in order (`done` replaces exactly these ranges)
pub proof fn p01_disjoint(b: Seq<u8>, fs: Seq<Edit>, i: int, j: int)
    requires 0 <= i < j <= fs.len(), forall|k: int| 0 <= k < fs.len() ==> valid(b, #[trigger] fs[k]), !left_out(fs, i),
    ensures fs[i].end <= last(fs, j), j < fs.len() && !left_out(fs, j) ==> fs[i].end <= fs[j].start,
    decreases j,
{ if j > i + 1 { p01_disjoint(b, fs, i, j - 1); } }
/// with nothing left out every fix is applied
pub proof fn p01_order(b: Seq<u8>, fs: Seq<Edit>, k: int)
    requires 0 <= k <= fs.len(), forall|i: int| 0 <= i < fs.len() ==> valid(b, #[trigger] fs[i]),
    ensures 0 <= last(fs, k) <= b.len(), is_char_boundary(b, last(fs, k)) || last(fs, k) == 0,
    decreases k,
{ if k > 0 { p01_order(b, fs, k - 1); assert(valid(b, fs[k - 1])); } }
pub proof fn lemma_size(b: Seq<u8>, fs: Seq<Edit>, k: int)
    requires 0 <= k <= fs.len(), forall|i: int| 0 <= i < fs.len() ==> valid(b, #[trigger] fs[i]),
    ensures done(b, fs, k).len() + (b.len() - last(fs, k)) <= size(b, fs, k), size(b, fs, k) <= size(b, fs, fs.len() as int),
        0 <= last(fs, k) <= b.len(),
    decreases fs.len() - k,
{ lemma_size_low(b, fs, k); lemma_size_up(b, fs, k, fs.len() as int); }
pub proof fn lemma_size_up(b: Seq<u8>, fs: Seq<Edit>, k: int, n: int)
    requires 0 <= k <= n <= fs.len(),
    ensures size(b, fs, k) <= size(b, fs, n),
    decreases n,
{ if k < n { lemma_size_up(b, fs, k, n - 1); } }
pub proof fn lemma_size_low(b: Seq<u8>, fs: Seq<Edit>, k: int)
    requires 0 <= k <= fs.len(), forall|i: int| 0 <= i < fs.len() ==> valid(b, #[trigger] fs[i]),
    ensures done(b, fs, k).len() + (b.len() - last(fs, k)) <= size(b, fs, k), 0 <= last(fs, k) <= b.len(),
    decreases k,
{ if k > 0 { lemma_size_low(b, fs, k - 1); assert(valid(b, fs[k - 1])); } }
pub proof fn lemma_step(b: Seq<u8>, fs: Seq<Edit>, k: int)
    requires 0 <= k < fs.len(), valid_utf8(b), forall|i: int| 0 <= i < fs.len() ==> valid(b, #[trigger] fs[i]),
        valid_utf8(done(b, fs, k)), is_char_boundary(b, last(fs, k)), !left_out(fs, k),
    ensures ({
        let d = done(b, fs, k); let cur = rewritten(b, fs, k);
        let s = d.len() + fs[k].start - last(fs, k); let e = d.len() + fs[k].end - last(fs, k);
        &&& 0 <= s <= e <= cur.len() && is_char_boundary(cur, s) && is_char_boundary(cur, e)
        &&& splice(cur, s, e, fs[k].text) == rewritten(b, fs, k + 1)
        &&& valid_utf8(done(b, fs, k + 1)) && is_char_boundary(b, last(fs, k + 1))
    }),
{
    let d = done(b, fs, k); let l = last(fs, k); let t = b.skip(l); let cur = rewritten(b, fs, k);
    let st = fs[k].start; let en = fs[k].end;
    assert(valid(b, fs[k]));
    p01_order(b, fs, k);
    assert(t =~= b.subrange(l, b.len() as int));
    is_char_boundary_start_end_of_seq(b);
    lemma_valid_sub(b, l, b.len() as int);
    lemma_concat_boundary(d, t);
    assert(cur.subrange(d.len() as int, cur.len() as int) =~= t);
    lemma_boundary_suffix(cur, d.len() as int, d.len() + st - l);
    lemma_boundary_suffix(cur, d.len() as int, d.len() + en - l);
    lemma_boundary_suffix(b, l, st);
    lemma_boundary_suffix(b, l, en);
    lemma_valid_sub(b, l, st);
    lemma_concat_boundary(d, b.subrange(l, st));
    lemma_concat_boundary(d + b.subrange(l, st), fs[k].text);
    let s = d.len() + st - l; let e = d.len() + en - l;
    assert(cur.subrange(0, s) =~= d + b.subrange(l, st));
    assert(cur.subrange(e, cur.len() as int) =~= b.skip(en));
    assert(splice(cur, s, e, fs[k].text) =~= rewritten(b, fs, k + 1));
}

pub fn vx_i32(x: usize) -> (r: i32) requires x <= i32::MAX ensures r == x { x as i32 }

//@fn crates/jarl-core/src/fix.rs apply_fixes
//@subst `fixes.iter().map(|diagnostic| &diagnostic.fix).collect::<Vec<_>>()` => `vx_all.map(|diagnostic| &diagnostic.fix)`
//@subst `old_content.to_string()` => `vx_string_from(old_content)`
//@subst `fix.start.try_into().unwrap()` => `vx_i32(fix.start)`
//@subst `fix.end.try_into().unwrap()` => `vx_i32(fix.end)`
//@closure 0 (diagnostic: &Diagnostic) -> r: &Fix
    ensures *r == diagnostic.fix
//@ret r
//@contract
    requires
        forall|i: int| 0 <= i < fixes@.len() ==> valid(encode_utf8(contents@), #[trigger] edits(fixes@)[i]),
        size(encode_utf8(contents@), edits(fixes@), fixes@.len() as int) <= i32::MAX,
    ensures
        encode_utf8(r.1@) == rewritten(encode_utf8(contents@), edits(fixes@), fixes@.len() as int),
        r.0 == any_left_out(edits(fixes@), fixes@.len() as int),
//@at start
    let ghost b = encode_utf8(contents@);
    let ghost fs = edits(fixes@);
    let vx_all = fixes.vx_iter();
//@at before loop 0
    proof {
        assert(rewritten(b, fs, 0) =~= b);
        assert forall|i: int| 0 <= i < fs.len() implies edit(*(#[trigger] fixes@[i])) == fs[i] by { }
        lemma_size(b, fs, 0);
        encode_utf8_valid_utf8(contents@);
        is_char_boundary_start_end_of_seq(b);
        assert(done(b, fs, 0) =~= Seq::<u8>::empty());
        encode_utf8_valid_utf8(Seq::<char>::empty());
    }
//@loop 0 it
    invariant
        it.seq().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> edit(*(#[trigger] it.seq()[i])) == fs[i],
        forall|i: int| 0 <= i < fs.len() ==> valid(b, #[trigger] fs[i]),
        valid_utf8(b), valid_utf8(done(b, fs, it.index@)), is_char_boundary(b, last(fs, it.index@)),
        encode_utf8(new_content@) == rewritten(b, fs, it.index@),
        old_length == b.len(), new_length == encode_utf8(new_content@).len(),
        last_modified_pos == done(b, fs, it.index@).len(),
        has_skipped_fixes == any_left_out(fs, it.index@),
        size(b, fs, fs.len() as int) <= i32::MAX,
//@at loop 0 start
    let ghost k = it.index@;
    proof {
        lemma_size(b, fs, k); lemma_size(b, fs, k + 1);
        assert(edit(*it.seq()[k]) == fs[k]); assert(valid(b, fs[k]));
        if !left_out(fs, k) { lemma_step(b, fs, k); }
        assert(any_left_out(fs, k + 1) == (any_left_out(fs, k) || left_out(fs, k)));
    }
//@end

// ---- the passes over one file: what is on disk when a file has been fixed ----
#[verifier::external_body]
pub struct PackageAnalysis { e: () }
pub struct Config { pub apply_fixes: bool, pub apply_unsafe_fixes: bool }
pub type Arc<T> = T;
impl PathBuf { pub uninterp spec fn rmd(&self) -> bool; }
#[verifier::external_body]
pub fn vx_has_rmd_extension(p: &PathBuf) -> (r: bool) ensures r == p.rmd() { unimplemented!() }
#[verifier::external_body]
pub fn relativize_path(p: &PathBuf) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pathbuf(p: &String) -> (r: PathBuf) { unimplemented!() }
/// the file being checked (nothing else writes to it meanwhile)
pub tracked struct Disk { ghost bytes: Seq<u8> }
impl Disk { pub closed spec fn view(&self) -> Seq<u8> { self.bytes } }
/// (TRUSTED: fs::read_to_string and fs::write on the path)
#[verifier::external_body]
pub fn vx_read(p: &String, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<String>)
    ensures final(disk)@ == old(disk)@, match r { Ok(s) => encode_utf8(s@) == old(disk)@, Err(_) => true } { unimplemented!() }
#[verifier::external_body]
pub fn vx_write(p: &String, text: String, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<()>)
    ensures match r { Ok(_) => final(disk)@ == encode_utf8(text@), Err(_) => true } { unimplemented!() }
/// ds are the diagnostics found in a file with these bytes
pub uninterp spec fn found(b: Seq<u8>, ds: Seq<Diagnostic>) -> bool;
/// (ASSUMED: the ranges of the fixes lie in the file on character boundaries; the file stays below 2 GiB)
#[verifier::external_body]
pub fn get_checks(contents: &str, file: &PathBuf, config: &Config, pkg: &PackageAnalysis) -> (r: Result<Vec<Diagnostic>>)
    ensures match r { Ok(ds) => found(encode_utf8(contents@), ds@)
        && (forall|i: int| 0 <= i < ds@.len() ==> valid(encode_utf8(contents@), #[trigger] edits(ds@)[i]))
        && size(encode_utf8(contents@), edits(ds@), ds@.len() as int) <= i32::MAX, Err(_) => true } { unimplemented!() }
/// y is x after one pass
pub open spec fn pass(x: Seq<u8>, ds: Seq<Diagnostic>, y: Seq<u8>) -> bool { found(x, ds) && y == rewritten(x, edits(ds), ds.len() as int) }
/// y is x after n passes, the last of which left nothing out
pub open spec fn passes(x: Seq<u8>, y: Seq<u8>, n: int, complete: bool) -> bool
    decreases n,
{ if n <= 0 { x == y } else { exists|m: Seq<u8>, ds: Seq<Diagnostic>| passes(x, m, n - 1, false) && #[trigger] pass(m, ds, y) && (complete ==> !any_left_out(edits(ds), ds.len() as int)) } }
pub proof fn lemma_pass(x: Seq<u8>, m: Seq<u8>, ds: Seq<Diagnostic>, y: Seq<u8>, n: int, complete: bool)
    requires n >= 0, passes(x, m, n, false), pass(m, ds, y), complete ==> !any_left_out(edits(ds), ds.len() as int),
    ensures passes(x, y, n + 1, complete),
{ }
//@count crates/jarl-core/src/check.rs `fs::write(` 1
//@count crates/jarl-core/src/check.rs `apply_fixes(&` 1
//@fn crates/jarl-core/src/check.rs lint_only
//@subst `pkg: Arc<PackageAnalysis>,` => `pkg: Arc<PackageAnalysis>, Tracked(disk): Tracked<&mut Disk>,`
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `fs::read_to_string(Path::new(&path)).with_context(|| format!("Failed to read file: {path}"))` => `vx_read(&path, Tracked(disk))`
//@subst `&PathBuf::from(&path)` => `&vx_pathbuf(&path)`
//@subst `.with_context(|| format!("Failed to get checks for file: {path}"))` => ``
//@ret r
//@contract
    ensures final(disk)@ == old(disk)@, match r { Ok(ds) => found(old(disk)@, ds@), Err(_) => true },
//@end
//@fn crates/jarl-core/src/check.rs lint_fix attr=#[verifier::exec_allows_no_decreases_clause]
//@subst `pkg: Arc<PackageAnalysis>,` => `pkg: Arc<PackageAnalysis>, Tracked(disk): Tracked<&mut Disk>,`
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `crate::fs::has_rmd_extension(path)` => `vx_has_rmd_extension(path)`
//@subst `return lint_only(path, config, pkg)` => `return lint_only(path, config, pkg, Tracked(disk))`
//@subst `fs::read_to_string(Path::new(&path)).with_context(|| format!("Failed to read file: {path}",))` => `vx_read(&vx_path, Tracked(disk))`
//@subst `&PathBuf::from(&path)` => `&vx_pathbuf(&vx_path)`
//@subst `.with_context(|| format!("Failed to get checks for file: {path}",))` => ``
//@subst `fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))` => `vx_write(&vx_path, fixed_text, Tracked(disk))`
//@subst `let path =` => `let vx_path =`
//@ret r
//@contract
    ensures
        path.rmd() ==> final(disk)@ == old(disk)@,
        match r { Ok(ds) => found(final(disk)@, ds@) && (!path.rmd() ==> exists|n: int| n >= 1 && passes(old(disk)@, final(disk)@, n, true)), Err(_) => true },
//@at start
    let ghost x = disk@;
    let ghost mut n: int = 0;
//@loop 0 -
    invariant_except_break
        n >= 0, !has_skipped_fixes ==> n >= 1, passes(x, disk@, n, false), !has_skipped_fixes ==> passes(x, disk@, n, true),
        !path.rmd(),
    ensures
        n >= 1, passes(x, disk@, n, true), found(disk@, checks@),
//@at loop 0 start
    let ghost m = disk@;
//@at loop 0 end
    proof { lemma_pass(x, m, checks@, disk@, n, false); if !has_skipped_fixes { lemma_pass(x, m, checks@, disk@, n, true); } n = n + 1; }
//@end
// without --fix no file is changed
//@fn crates/jarl-core/src/check.rs check_path
//@subst `pkg: Arc<PackageAnalysis>,` => `pkg: Arc<PackageAnalysis>, Tracked(disk): Tracked<&mut Disk>,`
//@subst `Result<Vec<Diagnostic>, anyhow::Error>` => `Result<Vec<Diagnostic>>`
//@subst `lint_fix(path, config, pkg)` => `lint_fix(path, config, pkg, Tracked(disk))`
//@subst `lint_only(path, config, pkg)` => `lint_only(path, config, pkg, Tracked(disk))`
//@ret r
//@contract
    ensures
        !(config.apply_fixes || config.apply_unsafe_fixes) || path.rmd() ==> final(disk)@ == old(disk)@,
        match r { Ok(ds) => found(final(disk)@, ds@) && (final(disk)@ == old(disk)@ || exists|n: int| n >= 1 && passes(old(disk)@, final(disk)@, n, true)), Err(_) => true },
//@end
}
fn main() {}
