// P07: rules needing a newer R than the project supports
use vstd::prelude::*;
verus! {
mod vx {
use vstd::prelude::*;
//@include vlib.rs
//@include vlib_str.rs
//@include vlib_iter.rs
}
use vx::*;
use vstd::string::*;
broadcast use {vx_axioms, lemma_view_bytes};
//@include rules_common.rs
//@include cfg_common.rs

// ---- what the property says ----
pub open spec fn le3(a: (u32, u32, u32), b: (u32, u32, u32)) -> bool {
    a.0 < b.0 || (a.0 == b.0 && (a.1 < b.1 || (a.1 == b.1 && a.2 <= b.2)))
}
/// may the rule run when the project's minimum R version is v
pub open spec fn allowed(r: Rule, v: Option<(u32, u32, u32)>) -> bool {
    match r.d_min() { None => true, Some(m) => match v { None => false, Some(p) => le3(m, p) } }
}
pub open spec fn allowed_by(v: Option<(u32, u32, u32)>) -> spec_fn(Rule) -> bool { |x: Rule| allowed(x, v) }
/// Ord for (u32, u32, u32) (TRUSTED: lexicographic)
#[verifier::external_body]
pub fn vx_le3(a: (u32, u32, u32), b: (u32, u32, u32)) -> (r: bool) ensures r == le3(a, b) { a <= b }

//@fn crates/jarl-core/src/config.rs filter_rules_by_version
//@ret r
//@contract
    ensures r.rules@ == rules.rules@.filter(allowed_by(minimum_r_version)),
//@subst `rules.iter().filter(|rule| rule.minimum_r_version().is_none())` => `vx_filter_by(rules.iter(), Ghost(allowed_by(minimum_r_version)), |rule| rule.minimum_r_version().is_none())`
//@subst `rules.iter().filter(|rule| {` => `vx_filter_by(rules.iter(), Ghost(allowed_by(minimum_r_version)), |rule| {`
//@subst `.collect::<RuleSet>()` => `.vx_ruleset()`
//@subst `rule_min_version <= project_min_version` => `vx_le3(rule_min_version, project_min_version)`
//@closure 0 (rule: &&Rule) -> b: bool
    ensures b == allowed(**rule, minimum_r_version),
//@closure 1 (rule: &&Rule) -> b: bool
    ensures b == allowed(**rule, minimum_r_version),
//@end
/// what that means rule by rule: nothing is added, a rule stays exactly when it is allowed, order kept
pub proof fn p07_kept(rules: Seq<Rule>, v: Option<(u32, u32, u32)>, r: Rule)
    ensures rules.filter(allowed_by(v)).contains(r) == (rules.contains(r) && allowed(r, v)),
    decreases rules.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    let p = allowed_by(v);
    if rules.len() > 0 {
        let d = rules.drop_last();
        p07_kept(d, v, r);
        let f = d.filter(p);
        assert(rules =~= d.push(rules.last()));
        if rules.contains(r) && allowed(r, v) {
            if d.contains(r) { let i = choose|i: int| 0 <= i < f.len() && f[i] == r; assert(rules.filter(p)[i] == r); }
            else { assert(rules.last() == r); assert(rules.filter(p).last() == r); }
        }
        if rules.filter(p).contains(r) {
            let i = choose|i: int| 0 <= i < rules.filter(p).len() && rules.filter(p)[i] == r;
            if i < f.len() { assert(f[i] == r); let j = choose|j: int| 0 <= j < d.len() && d[j] == r; assert(rules[j] == r); } else { assert(rules[rules.len() - 1] == r); }
        }
    }
}

// ---- version strings ----
pub open spec fn is_digit(c: char) -> bool { '0' as u32 <= c as u32 <= '9' as u32 }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn value(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { 10 * value(s.drop_last()) + (s.last() as u32 - '0' as u32) as nat } }
/// an unsigned 32-bit integer in decimal (std accepts a leading +)
pub open spec fn u32_text(s: Seq<char>) -> Option<u32> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if digits(d) && value(d) <= u32::MAX { Some(value(d) as u32) } else { None }
}
pub open spec fn version_text(s: Seq<char>) -> Option<(u32, u32, u32)> {
    let p = split(s, '.');
    if p.len() == 2 || p.len() == 3 {
        match (u32_text(p[0]), u32_text(p[1]), if p.len() == 3 { u32_text(p[2]) } else { Some(0u32) }) {
            (Some(a), Some(b), Some(c)) => Some((a, b, c)),
            _ => None,
        }
    } else { None }
}
pub struct ParseIntError { pub x: u8 }
pub trait VxParse { spec fn vx_pt(&self) -> Seq<char>;
    /// `.parse::<u32>()`
    fn vx_parse_u32(&self) -> (r: core::result::Result<u32, ParseIntError>)
        ensures match r { Ok(n) => u32_text(self.vx_pt()) == Some(n), Err(_) => u32_text(self.vx_pt()) is None };
}
impl VxParse for str { open spec fn vx_pt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse_u32(&self) -> (r: core::result::Result<u32, ParseIntError>) { unimplemented!() } }

//@methods split collect
//@fn crates/jarl-core/src/config.rs parse_r_version
//@subst `let parts: Vec<&str> = min_r_version.split('.').collect();` => `let parts: Vec<&str> = min_r_version.as_str().split('.'); proof { assert(views(parts@) == split(min_r_version@, '.')); assert forall|i: int| 0 <= i < parts@.len() implies #[trigger] parts@[i]@ == split(min_r_version@, '.')[i] by { assert(views(parts@)[i] == parts@[i]@); } }`
//@subst `.parse::<u32>()` => `.vx_parse_u32()`
//@subst `|_|` => `|vx_e|`
//@closure 0 (vx_e: ParseIntError) -> e: Error
//@closure 1 (vx_e: ParseIntError) -> e: Error
//@closure 2 (vx_e: ParseIntError) -> e: Error
//@ret r
//@contract
    ensures match r { Ok(v) => version_text(min_r_version@) == Some(v), Err(_) => version_text(min_r_version@) is None },
//@end

// ---- the project's minimum version ----
#[verifier::external_body]
pub struct Path { e: () }
#[verifier::external_body]
pub struct PathBuf { e: () }
impl Path { pub uninterp spec fn id(&self) -> Seq<char>; }
impl PathBuf { pub uninterp spec fn id(&self) -> Seq<char>; }
pub uninterp spec fn join(d: Seq<char>, name: Seq<char>) -> Seq<char>;
pub uninterp spec fn exists_at(p: Seq<char>) -> bool;
pub uninterp spec fn dir_at(p: Seq<char>) -> bool;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
/// the text of a file, if it can be read
pub uninterp spec fn text_at(p: Seq<char>) -> Option<Seq<char>>;
impl Path {
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.id() == join(self.id(), n@) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == dir_at(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == exists_at(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(p) => parent_of(self.id()) == Some(p.id()), None => parent_of(self.id()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.id() == join(self.id(), n@) { unimplemented!() }
}
pub mod fs { use super::*;
    #[verifier::external_body]
    pub fn read_to_string(p: &PathBuf) -> (r: Result<String>) ensures match r { Ok(t) => text_at(p.id()) == Some(t@), Err(_) => text_at(p.id()) is None } { unimplemented!() }
}
/// the R versions a DESCRIPTION file depends on (description.rs: property P08)
pub uninterp spec fn depends(text: Seq<char>) -> Seq<Seq<char>>;
pub struct Description { pub x: u8 }
impl Description {
    #[verifier::external_body]
    pub fn get_depend_r_version(t: &str) -> (r: Result<Vec<String>>) ensures r is Ok, sviews(r->Ok_0@) == depends(t@) { unimplemented!() }
}
pub struct ArgsConfig { pub min_r_version: Option<String> }
pub open spec fn desc_path(p: Seq<char>) -> Option<Seq<char>> {
    if dir_at(p) { Some(join(p, "DESCRIPTION"@)) } else { match parent_of(p) { Some(q) => Some(join(q, "DESCRIPTION"@)), None => None } }
}
pub enum Found { Version((u32, u32, u32)), Unknown, Failed }
/// the version of the first path whose project states one
pub open spec fn project_version(ps: Seq<PathBuf>, i: int) -> Found
    decreases ps.len() - i,
{
    if i < 0 || i >= ps.len() { Found::Unknown } else {
        match desc_path(ps[i].id()) {
            Some(d) => if exists_at(d) {
                match text_at(d) {
                    None => Found::Failed,
                    Some(t) => if depends(t).len() > 0 { match version_text(depends(t)[0]) { Some(v) => Found::Version(v), None => Found::Failed } } else { project_version(ps, i + 1) },
                }
            } else { project_version(ps, i + 1) },
            None => project_version(ps, i + 1),
        }
    }
}
pub trait VxFirst<T> { spec fn vx_f(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vx_f().len() > 0 && *x == self.vx_f()[0], None => self.vx_f().len() == 0 }; }
impl<T> VxFirst<T> for Vec<T> { open spec fn vx_f(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { self.first() } }
//@methods iter first
//@fn crates/jarl-core/src/config.rs determine_minimum_r_version
//@subst `version_str.to_string()` => `version_str.clone()`
//@ret r
//@contract
    ensures match check_config.min_r_version {
        Some(s) => match version_text(s@) { Some(v) => r is Ok && r->Ok_0 == Some(v), None => r is Err },
        None => match project_version(paths@, 0) { Found::Version(v) => r is Ok && r->Ok_0 == Some(v), Found::Unknown => r is Ok && r->Ok_0 is None, Found::Failed => r is Err },
    },
//@loop 0 it
    invariant it.seq().len() == paths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == paths@[i],
        check_config.min_r_version is None,
        project_version(paths@, 0) == project_version(paths@, it.index() as int),
//@end
}
fn main() {}
