// P08: the R version required by DESCRIPTION
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
}
use vx::*;
use vstd::utf8::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@methods split trim filter filter_map collect lines find starts_with
//@paths String::from=vx_string_from

// ---- what DESCRIPTION says ----
pub struct D { pub m: Map<Seq<char>, Seq<char>>, pub key: Option<Seq<char>>, pub val: Seq<char> }
pub open spec fn close_field(d: D) -> Map<Seq<char>, Seq<char>> {
    match d.key { Some(k) => d.m.insert(k, trim(d.val)), None => d.m }
}
pub open spec fn dcf_step(d: D, l: Seq<char>) -> D {
    if l.len() > 0 && ws(l[0]) { D { val: (d.val + trim(l)).push(' '), ..d } }
    else if find(l, ':') is Some {
        let k = find(l, ':')->0;
        let v = trim(l.skip(k + 1));
        D { m: close_field(d), key: Some(trim(l.take(k))), val: if v.len() == 0 { v } else { v.push(' ') } }
    } else { d }
}
pub open spec fn dcf(ls: Seq<Seq<char>>) -> D
    decreases ls.len(),
{ if ls.len() == 0 { D { m: Map::empty(), key: None, val: Seq::empty() } } else { dcf_step(dcf(ls.drop_last()), ls.last()) } }
pub open spec fn fields(ls: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>> { close_field(dcf(ls)) }

/// the version in parentheses of one entry
pub open spec fn entry_version(e: Seq<char>) -> Option<Seq<char>> {
    match find(e, '(') {
        None => None,
        Some(a) => match find(e.skip(a + 1), ')') {
            None => None,
            Some(n) => { let v = trim(remove2(e.subrange(a + 1, a + 1 + n), '>', '=')); if v.len() == 0 { None } else { Some(v) } }
        }
    }
}
pub open spec fn item_version(e: Seq<char>) -> Option<Seq<char>> {
    if has_prefix(trim(e), seq!['R', ' ']) { entry_version(trim(e)) } else { None }
}
pub open spec fn versions(deps: Seq<char>) -> Seq<Seq<char>> { somes(split(deps, ',').map_values(|e: Seq<char>| item_version(e))) }
pub open spec fn depends() -> Seq<char> { seq!['D', 'e', 'p', 'e', 'n', 'd', 's'] }

pub proof fn lemma_two_stages(es: Seq<Seq<char>>)
    ensures somes(es.map_values(|e: Seq<char>| item_version(e)))
        == somes(somes(es.map_values(|e: Seq<char>| kept(trim(e), has_prefix(trim(e), seq!['R', ' '])))).map_values(|e: Seq<char>| entry_version(e))),
    decreases es.len(),
{
    let f = |e: Seq<char>| item_version(e);
    let g = |e: Seq<char>| kept(trim(e), has_prefix(trim(e), seq!['R', ' ']));
    let h = |e: Seq<char>| entry_version(e);
    if es.len() > 0 {
        let p = es.drop_last(); let l = es.last();
        lemma_two_stages(p);
        assert(es.map_values(f).drop_last() =~= p.map_values(f));
        assert(es.map_values(g).drop_last() =~= p.map_values(g));
        if g(l) is Some {
            assert(somes(es.map_values(g)).map_values(h) =~= somes(p.map_values(g)).map_values(h).push(h(trim(l))));
            lemma_somes_push(somes(p.map_values(g)).map_values(h), h(trim(l)));
        }
    } else { assert(es.map_values(f) =~= Seq::empty()); assert(es.map_values(g) =~= Seq::empty()); assert(somes(es.map_values(g)).map_values(h) =~= Seq::empty()); }
}

// ---- the map of fields (TRUSTED: std HashMap<String, String>) ----
#[verifier::external_body]
pub struct VxFields { e: () }
impl VxFields {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: VxFields) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&String>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
}

//@fn crates/jarl-core/src/description.rs extract_version_from_dependency
//@subst `.replace(">=", "")` => `.vx_remove_ge()`
//@ret r
//@contract
    ensures match r { Some(v) => entry_version(dep@) == Some(v@), None => entry_version(dep@) is None },
//@at start
    proof {
        let s = dep@;
        assert(dep.spec_bytes().len() <= isize::MAX);
        encode_utf8_valid_utf8(s);
        lemma_find(s, '(');
        if find(s, '(') is Some {
            let a = find(s, '(')->0;
            lemma_bo_next(s, a);
            lemma_bo(s, a + 1, s.len() as int);
            let t = s.skip(a + 1);
            assert(t =~= s.subrange(a + 1, s.len() as int));
            lemma_find(t, ')');
            if find(t, ')') is Some {
                let n = find(t, ')')->0;
                lemma_bo(s, a + 1, a + 1 + n);
                lemma_bo(s, a + 1 + n, s.len() as int);
                assert(t.take(n) =~= s.subrange(a + 1, a + 1 + n));
                lemma_bo_next(t, n);
                lemma_bo(t, n, t.len() as int);
            }
        }
    }
//@end

//@fn crates/jarl-core/src/description.rs parse_dcf
//@subst `HashMap<String, String>` => `VxFields`
//@subst `HashMap::new` => `VxFields::new`
//@subst `starts_with(char::is_whitespace)` => `vx_starts_ws()`
//@subst `.contains(` => `.vx_contains_char(`
//@ret r
//@contract
    ensures exists|ls: Seq<Seq<char>>| #[trigger] is_lines(input@, ls) && r@ == fields(ls),
//@at before loop 0
    let ghost ls = views(vx_lines@);
    proof { assert(ls.take(0) =~= Seq::<Seq<char>>::empty()); }
//@loop 0 it hoist=vx_lines
    invariant
        it.seq() == vx_lines@, ls == views(vx_lines@),
        dcf(ls.take(it.index() as int)).m == fields@,
        dcf(ls.take(it.index() as int)).val == current_value@,
        match current_key { Some(k) => dcf(ls.take(it.index() as int)).key == Some(k@), None => dcf(ls.take(it.index() as int)).key is None },
//@at loop 0 start
    proof {
        let k = it.index() as int;
        assert(ls.take(k + 1).drop_last() =~= ls.take(k));
        assert(ls.take(k + 1).last() == line@);
        let s = line@;
        assert(line.spec_bytes().len() <= isize::MAX);
        encode_utf8_valid_utf8(s);
        lemma_find(s, ':');
        if find(s, ':') is Some {
            let a = find(s, ':')->0;
            assert(s[a] == ':');
            lemma_bo_next(s, a);
            lemma_bo(s, 0, a);
            lemma_bo(s, a + 1, s.len() as int);
            assert(s.skip(a + 1) =~= s.subrange(a + 1, s.len() as int));
            assert(s.take(a) =~= s.subrange(0, a));
        }
    }
//@at after loop 0
    proof { assert(ls.take(ls.len() as int) =~= ls); }
//@end

impl VxDesc {
//@fn crates/jarl-core/src/description.rs Description::get_depend_r_version
//@subst `anyhow::Result<Vec<String>>` => `Result<Vec<String>>`
//@subst `deps.split(',')` => `let vx_1 = deps.split(','); let vx_2 = vx_1`
//@subst `.map(|s| s.trim())` => `.vx_map(|s| s.trim()); let vx_3 = vx_2.clone()`
//@subst `.filter_map(` => `; let vx_4 = vx_3.clone().filter_map(`
//@subst `.collect::<Vec<String>>()` => `; vx_4.collect::<Vec<String>>()`
//@ret r
//@contract
    ensures r is Ok, exists|ls: Seq<Seq<char>>| #[trigger] is_lines(contents@, ls)
        && sviews(r->Ok_0@) == (if fields(ls).contains_key(depends()) { versions(fields(ls)[depends()]) } else { Seq::empty() }),
//@at start
    proof { reveal_strlit("Depends"); assert("Depends"@ =~= depends()); reveal_strlit("R "); assert("R "@ =~= seq!['R', ' ']); }
//@closure 0 (deps: &String) -> r: Vec<String>
    ensures sviews(r@) == versions(deps@)
//@closure 1 (s: &str) -> r: &str
    ensures r@ == trim(s@)
//@closure 2 (s: &&str) -> r: bool
    ensures r == has_prefix(s@, "R "@)
//@at before `vx_4.vx_collect`
    proof {
        let es = split(deps@, ',');
        let o3 = choose|o: Seq<Option<&str>>| vx_3@ == #[trigger] somes(o) && o.len() == vx_2@.len()
            && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) == kept(vx_2@[i], o[i] is Some) && (o[i] is Some <==> has_prefix(vx_2@[i]@, "R "@));
        let o4 = choose|o: Seq<Option<String>>| vx_4@ == #[trigger] somes(o) && o.len() == vx_3@.len()
            && forall|i: int| 0 <= i < o.len() ==> (match #[trigger] o[i] { Some(v) => entry_version(vx_3@[i]@) == Some(v@), None => entry_version(vx_3@[i]@) is None });
        let w3 = es.map_values(|e: Seq<char>| kept(trim(e), has_prefix(trim(e), "R "@)));
        assert forall|i: int| 0 <= i < es.len() implies #[trigger] w3[i] == (match o3[i] { Some(x) => Some(x@), None => None }) by {
            assert(es[i] == vx_1@[i]@); assert(vx_2@[i]@ == trim(es[i])); }
        lemma_somes_map(o3, w3, |x: &str| x@);
        let w4 = somes(w3).map_values(|e: Seq<char>| entry_version(e));
        assert forall|i: int| 0 <= i < o4.len() implies #[trigger] w4[i] == (match o4[i] { Some(x) => Some(x@), None => None }) by {
            assert(somes(w3)[i] == vx_3@[i]@); }
        lemma_somes_map(o4, w4, |x: String| x@);
        lemma_two_stages(es);
    }
//@end
}
pub struct VxDesc { }
}
fn main() {}
