// ---- the files of the packages that the given files belong to ----
pub uninterp spec fn is_dir(p: Seq<char>) -> bool;
/// the file the path leads to; the entries of a directory that can be read (TRUSTED stubs)
pub uninterp spec fn canon(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn kids(d: Seq<char>) -> Option<ISet<Seq<char>>>;
pub open spec fn kid(d: Seq<char>, x: Seq<char>) -> bool { kids(d) is Some && kids(d)->0.contains(x) }
/// the R and the C files below a directory, at most n levels down, at any depth
#[derive(Clone, Copy)]
pub enum VxKind { R, Cpp }
pub open spec fn fits(k: VxKind, x: Seq<char>) -> bool { match k { VxKind::R => r_ext(x), VxKind::Cpp => cpp(x) } }
pub open spec fn under(k: VxKind, d: Seq<char>, x: Seq<char>, n: nat) -> bool
    decreases n,
{ n > 0 && exists|c: Seq<char>| #[trigger] kid(d, c) && (if is_dir(c) { under(k, c, x, (n - 1) as nat) } else { c == x && fits(k, x) }) }
pub open spec fn below(k: VxKind, d: Seq<char>, x: Seq<char>) -> bool { exists|n: nat| #[trigger] under(k, d, x, n) }
/// below one entry
pub open spec fn via(k: VxKind, c: Seq<char>, x: Seq<char>) -> bool { if is_dir(c) { below(k, c, x) } else { c == x && fits(k, x) } }
pub proof fn lemma_below(k: VxKind, d: Seq<char>, x: Seq<char>)
    ensures below(k, d, x) == exists|c: Seq<char>| #[trigger] kid(d, c) && via(k, c, x),
{
    if below(k, d, x) {
        let n = choose|n: nat| #[trigger] under(k, d, x, n);
        let c = choose|c: Seq<char>| #[trigger] kid(d, c) && (if is_dir(c) { under(k, c, x, (n - 1) as nat) } else { c == x && fits(k, x) });
        assert(via(k, c, x));
    }
    if exists|c: Seq<char>| #[trigger] kid(d, c) && via(k, c, x) {
        let c = choose|c: Seq<char>| #[trigger] kid(d, c) && via(k, c, x);
        if is_dir(c) { let n = choose|n: nat| #[trigger] under(k, c, x, n); assert(under(k, d, x, (n + 1) as nat)); } else { assert(under(k, d, x, 1)); }
    }
}
pub open spec fn below_r(d: Seq<char>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| below(VxKind::R, d, x)) }
pub open spec fn below_cpp(d: Seq<char>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| below(VxKind::Cpp, d, x)) }
/// below one of the directories
pub open spec fn below_any(k: VxKind, s: Seq<PathBuf>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && below(k, (#[trigger] s[i]).id(), x) }
pub open spec fn via_any(k: VxKind, es: Seq<PathBuf>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && via(k, (#[trigger] es[i]).id(), x) }
pub proof fn lemma_below_push(k: VxKind, s: Seq<PathBuf>, d: PathBuf, x: Seq<char>)
    ensures below_any(k, s.push(d), x) == (below_any(k, s, x) || below(k, d.id(), x)),
{
    if below_any(k, s, x) { let i = choose|i: int| 0 <= i < s.len() && below(k, (#[trigger] s[i]).id(), x); assert(below(k, s.push(d)[i].id(), x)); }
    if below(k, d.id(), x) { assert(below(k, s.push(d)[s.len() as int].id(), x)); }
    if below_any(k, s.push(d), x) { let i = choose|i: int| 0 <= i < s.len() + 1 && below(k, (#[trigger] s.push(d)[i]).id(), x); if i < s.len() { assert(s[i] == s.push(d)[i]); } }
}
#[verifier::external_body]
pub fn vx_read_dir(d: &PathBuf) -> (r: core::result::Result<Vec<PathBuf>, ()>) ensures match r { Ok(v) => kids(d.id()) is Some && texts_of(v@) == kids(d.id())->0, Err(_) => kids(d.id()) is None } { unimplemented!() }
impl VxKind { pub fn vx_accepts(self, p: &Path) -> (r: bool) ensures r == fits(self, p.id()) { match self { VxKind::R => has_r_extension(p), VxKind::Cpp => has_cpp_extension(p) } } }
//@methods
//@fn crates/jarl-core/src/lints/base/unused_function/unused_function.rs collect_files attr=#[verifier::exec_allows_no_decreases_clause]
//@subst `predicate: fn(&Path) -> bool` => `predicate: VxKind`
//@subst `predicate(&path)` => `predicate.vx_accepts(path.as_path())`
//@subst `std::fs::read_dir(&current)` => `vx_read_dir(&current)`
//@subst `entries.flatten()` => `entries`
//@ret r
//@contract
    ensures forall|x: Seq<char>| #[trigger] texts_of(r@).contains(x) == below(predicate, dir.id(), x),
//@loop 0 -
    invariant st == stack@, forall|x: Seq<char>| #[trigger] below(predicate, dir.id(), x) == (texts_of(files@).contains(x) || below_any(predicate, stack@, x)),
    ensures stack@.len() == 0,
//@at before loop 0
    let ghost mut st: Seq<PathBuf> = stack@;
    proof {
        assert forall|x: Seq<char>| #[trigger] below(predicate, dir.id(), x) == (texts_of(files@).contains(x) || below_any(predicate, stack@, x)) by { assert(stack@[0].id() == dir.id()); if below_any(predicate, stack@, x) { } }
    }
//@at loop 0 start
    let ghost s0 = stack@;
    let ghost f0 = files@;
    proof {
        assert(st =~= s0.push(current));
        st = s0;
        assert forall|x: Seq<char>| #[trigger] below(predicate, dir.id(), x) == (texts_of(f0).contains(x) || below_any(predicate, s0, x) || below(predicate, current.id(), x)) by { lemma_below_push(predicate, s0, current, x); }
        assert forall|x: Seq<char>| #[trigger] below(predicate, current.id(), x) == exists|c: Seq<char>| #[trigger] kid(current.id(), c) && via(predicate, c, x) by { lemma_below(predicate, current.id(), x); }
    }
//@loop 1 it hoist=vx_es
    invariant
        it.seq() == vx_es@,
        forall|x: Seq<char>| #[trigger] via_any(predicate, vx_es@, it.index() as int, x) || texts_of(f0).contains(x) || below_any(predicate, s0, x) <==> (texts_of(files@).contains(x) || below_any(predicate, stack@, x)),
//@at loop 1 start
    let ghost k = it.index() as int;
    let ghost f1 = files@;
    let ghost s1 = stack@;
    let ghost e = entry;
//@at loop 1 end
    proof {
        assert forall|x: Seq<char>| #[trigger] via_any(predicate, vx_es@, k + 1, x) || texts_of(f0).contains(x) || below_any(predicate, s0, x) <==> (texts_of(files@).contains(x) || below_any(predicate, stack@, x)) by {
            assert(e.id() == vx_es@[k].id());
            assert(via_any(predicate, vx_es@, k + 1, x) == (via_any(predicate, vx_es@, k, x) || via(predicate, e.id(), x))) by { if via_any(predicate, vx_es@, k, x) { let i = choose|i: int| 0 <= i < k && via(predicate, (#[trigger] vx_es@[i]).id(), x); } }
            assert(via_any(predicate, vx_es@, k, x) || texts_of(f0).contains(x) || below_any(predicate, s0, x) <==> (texts_of(f1).contains(x) || below_any(predicate, s1, x)));
            if is_dir(e.id()) { lemma_below_push(predicate, s1, stack@.last(), x); assert(stack@ =~= s1.push(stack@.last())); }
            else if fits(predicate, e.id()) { lemma_texts_push(f1, files@.last()); assert(files@ =~= f1.push(files@.last())); }
        }
    }
//@at after loop 1
    proof {
        assert forall|x: Seq<char>| #[trigger] below(predicate, current.id(), x) == via_any(predicate, vx_es@, vx_es@.len() as int, x) by {
            if below(predicate, current.id(), x) { let c = choose|c: Seq<char>| #[trigger] kid(current.id(), c) && via(predicate, c, x); assert(texts_of(vx_es@).contains(c)); let i = choose|i: int| 0 <= i < vx_es@.len() && (#[trigger] vx_es@[i]).t() == c; assert(vx_es@[i].id() == c); }
            if via_any(predicate, vx_es@, vx_es@.len() as int, x) { let i = choose|i: int| 0 <= i < vx_es@.len() && via(predicate, (#[trigger] vx_es@[i]).id(), x); assert(texts_of(vx_es@).contains(vx_es@[i].t())); assert(kid(current.id(), vx_es@[i].id())); }
        }
        assert forall|x: Seq<char>| #[trigger] below(predicate, dir.id(), x) == (texts_of(files@).contains(x) || below_any(predicate, stack@, x)) by {
            assert(via_any(predicate, vx_es@, vx_es@.len() as int, x) == below(predicate, current.id(), x));
        }
    }
//@at loop 0 end
    proof { st = stack@; }
//@end
/// (a directory does not list a file twice)
#[verifier::external_body]
pub fn vx_once(v: Vec<PathBuf>) -> (r: Vec<PathBuf>) ensures r@ == v@, each_once(r@) { v }
/// collect_files
pub fn vx_files(d: &PathBuf, k: VxKind) -> (r: Vec<PathBuf>) ensures texts_of(r@) == (match k { VxKind::R => below_r(d.id()), VxKind::Cpp => below_cpp(d.id()) }), each_once(r@)
{
    let r = collect_files(d.as_path(), k);
    assert(texts_of(r@) =~= (match k { VxKind::R => below_r(d.id()), VxKind::Cpp => below_cpp(d.id()) }));
    vx_once(r)
}
pub fn vx_has_r(p: &PathBuf) -> (r: bool) ensures r == r_ext(p.id()) { has_r_extension(p.as_path()) }
/// std::fs::canonicalize(p).ok()
#[verifier::external_body]
pub fn vx_canon<Q: VxText + ?Sized>(p: &Q) -> (r: Option<PathBuf>) ensures match r { Some(c) => canon(p.t()) == Some(c.id()), None => canon(p.t()) is None } { unimplemented!() }
/// std::fs::read(p).ok()
#[verifier::external_body]
pub fn vx_read_file(p: PathBuf) -> (r: Option<Vec<u8>>) ensures match r { Some(b) => file_text(p.id()) == Some(lossy(b@)), None => file_text(p.id()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_append(v: &mut Vec<PathBuf>, o: Vec<PathBuf>) ensures final(v)@ == old(v)@ + o@, texts_of(final(v)@) == texts_of(old(v)@).union(texts_of(o@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_arr<const N: usize>(a: &[&'static str; N]) -> (r: Vec<&'static str>) ensures r@ == a@ { unimplemented!() }
/// no text twice
pub open spec fn each_once<T: VxText>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).t() != (#[trigger] s[j]).t() }
/// collect() into a HashMap
#[verifier::external_body]
pub fn vx_map_of<K: VxText, V>(v: Vec<(K, V)>) -> (r: HashMap<K, V>)
    ensures forall|k: Seq<char>| #[trigger] r.m().dom().contains(k) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0.t() == k && v@[i].1 == r.m()[k],
        forall|i: int| 0 <= i < v@.len() ==> r.m().dom().contains((#[trigger] v@[i]).0.t()),
{ unimplemented!() }
/// collect() into a HashSet
#[verifier::external_body]
pub fn vx_set_from<T: VxText>(v: Vec<T>) -> (r: HashSet<T>) ensures r.texts() == texts_of(v@) { unimplemented!() }
/// the members, in some order
#[verifier::external_body]
pub fn vx_members<T: VxText>(s: HashSet<T>) -> (r: Vec<T>) ensures texts_of(r@) == s.texts(), each_once(r@) { unimplemented!() }
pub trait VxChain<T>: Sized { spec fn vx_ch(&self) -> Seq<T>; fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) ensures r@ == self.vx_ch() + o@; }
impl<T> VxChain<T> for Vec<T> { open spec fn vx_ch(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxCopiedOr { spec fn vx_cb(&self) -> Option<bool>; fn vx_copied(self) -> (r: Option<bool>) ensures r == self.vx_cb(); }
impl<'a> VxCopiedOr for Option<&'a bool> { open spec fn vx_cb(&self) -> Option<bool> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vx_copied(self) -> (r: Option<bool>) { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(d) => anc(self.id()).len() > 1 && d.id() == anc(self.id())[1], None => anc(self.id()).len() <= 1 } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_name(&self) -> (r: Option<&str>) ensures match r { Some(x) => last_name(self.id()) == Some(x@), None => last_name(self.id()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.id() == self.id() { unimplemented!() }
    /// (a borrowed path, as a copy)
    #[verifier::external_body]
    pub fn vx_owned(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self.id()) { unimplemented!() }
    /// (of a directory's entry)
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
}
// the settings (stubs with the fields used here)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Rule { DuplicatedFunctionDefinition, UnusedFunction, VxOther }
#[verifier::external_body]
pub struct RuleSet { e: () }
impl RuleSet {
    pub uninterp spec fn has(&self, r: Rule) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, r: &Rule) -> (b: bool) ensures b == self.has(*r) { unimplemented!() }
}
pub struct ResolvedRuleOptions { pub unused_function: ResolvedUnusedFunctionOptions }
pub struct Config { pub rules_to_apply: RuleSet, pub rule_options: ResolvedRuleOptions }
//@item crates/jarl-core/src/package.rs struct PackageAnalysis
impl PackageAnalysis {
    #[verifier::external_body]
    pub fn default() -> (r: PackageAnalysis) ensures r.duplicate_assignments.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty(), r.unused_functions.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty() { unimplemented!() }
}

/// one of the given files that is in the folder R of a package
pub open spec fn given(ps: Seq<PathBuf>, x: Seq<char>) -> bool { in_package(x) && exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id() == x }
pub open spec fn in_package(x: Seq<char>) -> bool { r_ext(x) && in_r(x) == Some(true) }
/// the packages they are in, and the files they lead to
pub open spec fn pkg_root(ps: Seq<PathBuf>, d: Seq<char>) -> bool { exists|x: Seq<char>| #[trigger] given(ps, x) && anc(x)[2] == d }
pub open spec fn leads(ps: Seq<PathBuf>, c: Seq<char>) -> bool { exists|x: Seq<char>| #[trigger] given(ps, x) && canon(x) == Some(c) }
/// the files of R/ of a package that are not among them
pub open spec fn left_out(ps: Seq<PathBuf>, d: Seq<char>, x: Seq<char>) -> bool { let r = join(d, "R"@); is_dir(r) && below_r(r).contains(x) && canon(x) is Some && !leads(ps, canon(x)->0) }
/// the files of another folder of it
pub open spec fn is_r_dir(f: Seq<char>) -> bool { f == "inst/tinytest"@ || f == "inst/tests"@ || f == "tests"@ }
pub open spec fn part(d: Seq<char>, f: Seq<char>, x: Seq<char>) -> bool { is_dir(join(d, f)) && if f == "src"@ { below_cpp(join(d, f)).contains(x) } else { is_r_dir(f) && below_r(join(d, f)).contains(x) } }
pub open spec fn elsewhere(d: Seq<char>, x: Seq<char>) -> bool { exists|f: Seq<char>| #[trigger] part(d, f, x) }
/// a file that counts, and as what
pub open spec fn counts_as(ps: Seq<PathBuf>, cu: bool, x: Seq<char>, s: FileScope) -> bool {
    ||| given(ps, x) && s == FileScope::R
    ||| (exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x)) && s == (if in_r(x) == Some(true) { FileScope::R } else { FileScope::Src })
    ||| cu && (exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x)) && s == scope_from(comps(x), 0)
}
/// exactly the files that count, once each, each scanned (or not readable)
pub open spec fn all_listed(ps: Seq<PathBuf>, cu: bool, l: Seq<(Seq<char>, FileScope)>) -> bool {
    &&& forall|x: Seq<char>, s: FileScope| #[trigger] l.contains((x, s)) == counts_as(ps, cu, x, s)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
}
/// no file is given twice, the packages are not nested, no file has two relative paths
pub open spec fn apart(ps: Seq<PathBuf>, cu: bool) -> bool {
    &&& each_once(ps)
    &&& forall|d: Seq<char>, e: Seq<char>, x: Seq<char>| #[trigger] pkg_root(ps, d) && #[trigger] pkg_root(ps, e) && #[trigger] left_out(ps, d, x) && left_out(ps, e, x) ==> d == e
    &&& cu ==> forall|d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, x: Seq<char>| pkg_root(ps, d) && pkg_root(ps, e) && #[trigger] part(d, f, x) && #[trigger] part(e, g, x) ==> d == e && f == g
    &&& cu ==> forall|d: Seq<char>, e: Seq<char>, x: Seq<char>| pkg_root(ps, d) && pkg_root(ps, e) && #[trigger] elsewhere(e, x) ==> !(#[trigger] left_out(ps, d, x))
    &&& cu ==> forall|e: Seq<char>, x: Seq<char>| pkg_root(ps, e) && #[trigger] elsewhere(e, x) ==> !given(ps, x)
    &&& forall|x: Seq<char>, y: Seq<char>, s: FileScope, t: FileScope| #[trigger] counts_as(ps, cu, x, s) && #[trigger] counts_as(ps, cu, y, t) && rel(x) == rel(y) ==> x == y
}
pub open spec fn each_scanned(cu: bool, l: Seq<(Seq<char>, FileScope)>, o: Seq<Option<SharedFileData>>) -> bool {
    o.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> match #[trigger] o[i] { Some(d) => scanned(l[i].0, l[i].1, cu, d), None => !scannable(l[i].0, l[i].1) }
}
pub open spec fn data_of(ps: Seq<PathBuf>, cu: bool, d: Seq<SharedFileData>) -> bool { exists|l: Seq<(Seq<char>, FileScope)>, o: Seq<Option<SharedFileData>>| #[trigger] all_listed(ps, cu, l) && #[trigger] each_scanned(cu, l, o) && d == somes(o) }
/// the NAMESPACE of each package
pub open spec fn namespaces(ps: Seq<PathBuf>, m: IMap<Seq<char>, String>) -> bool {
    forall|d: Seq<char>| #[trigger] m.dom().contains(d) == (pkg_root(ps, d) && file_text(join(d, "NAMESPACE"@)) is Some) && (m.dom().contains(d) ==> m[d]@ == file_text(join(d, "NAMESPACE"@))->0)
}
pub open spec fn analysed(ps: Seq<PathBuf>, c: Config, r: PackageAnalysis) -> bool {
    let dup = c.rules_to_apply.has(Rule::DuplicatedFunctionDefinition); let cu = c.rules_to_apply.has(Rule::UnusedFunction);
    if !dup && !cu { r.duplicate_assignments.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty() && r.unused_functions.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty() }
    else { exists|d: Seq<SharedFileData>, ns: IMap<Seq<char>, String>| #[trigger] data_of(ps, cu, d) && (cu ==> namespaces(ps, ns)) && #[trigger] at_hand(ns)
        && (if dup { done(r.duplicate_assignments.m(), d, all_of(), wanted_dups(d)) } else { r.duplicate_assignments.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty() })
        && (if cu { done(r.unused_functions.m(), d, all_of(), wanted_unused(d, ns, c.rule_options.unused_function)) } else { r.unused_functions.m() == IMap::<Seq<char>, Vec<(String, TextRange, String)>>::empty() }) }
}
pub open spec fn short_files() -> bool { forall|p: Seq<char>| #[trigger] file_text(p) is Some ==> encode_utf8(file_text(p)->0).len() < u32::MAX }
pub proof fn lemma_texts_somes<T: VxText>(o: Seq<Option<T>>)
    ensures forall|x: Seq<char>| #[trigger] texts_of(somes(o)).contains(x) == exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some && o[i]->0.t() == x,
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_texts_somes(p);
        lemma_somes_push(p, o.last());
        assert(p.push(o.last()) =~= o);
        assert forall|x: Seq<char>| #[trigger] texts_of(somes(o)).contains(x) == exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some && o[i]->0.t() == x by {
            if exists|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some && o[i]->0.t() == x { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some && o[i]->0.t() == x; if i < p.len() { assert(p[i] is Some); assert(texts_of(somes(p)).contains(x)); let j = choose|j: int| 0 <= j < somes(p).len() && (#[trigger] somes(p)[j]).t() == x; assert(somes(o)[j].t() == x); } else { assert(somes(o)[somes(p).len() as int].t() == x); } }
            if texts_of(somes(o)).contains(x) { let j = choose|j: int| 0 <= j < somes(o).len() && (#[trigger] somes(o)[j]).t() == x; if j < somes(p).len() { assert(somes(p)[j].t() == x); assert(texts_of(somes(p)).contains(x)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] is Some && p[i]->0.t() == x; assert(o[i] is Some); } else { assert(o[o.len() - 1] is Some); } }
        }
    }
}
// ==== compute_package_analysis ====
/// p.parent().and_then(|r| r.parent())
pub fn vx_grandparent(p: &PathBuf) -> (r: Option<&Path>)
    ensures match r { Some(d) => anc(p.id()).len() > 2 && d.id() == anc(p.id())[2], None => anc(p.id()).len() <= 2 },
{ proof { axiom_anc(p.id()); } match p.parent() { Some(r) => r.parent(), None => None } }
/// what g makes of the texts
pub open spec fn image<T: VxText>(s: Seq<T>, g: spec_fn(Seq<char>) -> Option<Seq<char>>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|i: int| 0 <= i < s.len() && g((#[trigger] s[i]).t()) == Some(x)) }
pub open spec fn makes<'a, T: VxText, U: VxText, F: FnMut(&'a T) -> Option<U>>(f: F, s: Seq<&'a T>, g: spec_fn(Seq<char>) -> Option<Seq<char>>) -> bool {
    forall|i: int, u: Option<U>| 0 <= i < s.len() && #[trigger] call_ensures(f, (s[i],), u) ==> g(s[i].t()) == (match u { Some(x) => Some(x.t()), None => None })
}
/// filter_map by a closure that computes g (proved)
pub trait VxPick<'a, T: VxText + 'a>: Sized {
    spec fn vx_pk(&self) -> Seq<&'a T>;
    fn vx_pick<U: VxText, F: FnMut(&'a T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.vx_pk().len() ==> call_requires(f, (#[trigger] self.vx_pk()[i],)),
        ensures at_hand(self.vx_pk()), forall|g: spec_fn(Seq<char>) -> Option<Seq<char>>| makes(f, self.vx_pk(), g) ==> texts_of(r@) == #[trigger] image(dr(self.vx_pk()), g);
}
impl<'a, T: VxText> VxPick<'a, T> for Vec<&'a T> {
    open spec fn vx_pk(&self) -> Seq<&'a T> { self@ }
    fn vx_pick<U: VxText, F: FnMut(&'a T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
    {
        let ghost s = self.vx_s();
        let r = self.vx_filter_map(f);
        proof {
            let o = choose|o: Seq<Option<U>>| r@ == #[trigger] somes(o) && o.len() == s.len() && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (s[i],), #[trigger] o[i]);
            lemma_texts_somes(o);
            assert forall|g: spec_fn(Seq<char>) -> Option<Seq<char>>| makes(f, s, g) implies texts_of(r@) == #[trigger] image(dr(s), g) by {
                assert forall|x: Seq<char>| texts_of(r@).contains(x) == image(dr(s), g).contains(x) by {
                    if texts_of(r@).contains(x) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some && o[i]->0.t() == x; assert(call_ensures(f, (s[i],), o[i])); assert(g(dr(s)[i].t()) == Some(x)); }
                    if image(dr(s), g).contains(x) { let i = choose|i: int| 0 <= i < dr(s).len() && g((#[trigger] dr(s)[i]).t()) == Some(x); assert(call_ensures(f, (s[i],), o[i])); assert(o[i] is Some); }
                }
                assert(texts_of(r@) =~= image(dr(s), g));
            }
        }
        r
    }
}
/// the folder R of a package
pub open spec fn r_folder(d: Seq<char>) -> bool { last_name(d) == Some("R"@) && anc(d).len() > 1 && there(join(anc(d)[1], "DESCRIPTION"@)) }
pub open spec fn has_ext() -> spec_fn(PathBuf) -> bool { |p: PathBuf| r_ext(p.id()) }
pub open spec fn in_known(m: IMap<Seq<char>, bool>) -> spec_fn(PathBuf) -> bool { |p: PathBuf| anc(p.id()).len() > 1 && m.dom().contains(anc(p.id())[1]) && m[anc(p.id())[1]] }
pub open spec fn up1() -> spec_fn(Seq<char>) -> Option<Seq<char>> { |x: Seq<char>| if anc(x).len() > 1 { Some(anc(x)[1]) } else { None } }
pub open spec fn up2() -> spec_fn(Seq<char>) -> Option<Seq<char>> { |x: Seq<char>| if anc(x).len() > 2 { Some(anc(x)[2]) } else { None } }
pub open spec fn leads_to() -> spec_fn(Seq<char>) -> Option<Seq<char>> { |x: Seq<char>| canon(x) }
pub proof fn lemma_r_folder(x: Seq<char>)
    ensures (in_r(x) == Some(true)) == (anc(x).len() > 1 && r_folder(anc(x)[1])), in_r(x) == Some(true) ==> anc(x).len() > 2,
{ axiom_anc(x); if anc(x).len() > 1 { assert(anc(anc(x)[1]) == anc(x).subrange(1, anc(x).len() as int)); } }
/// the answers for the folders of the given R files
pub open spec fn known(ps: Seq<PathBuf>, m: IMap<Seq<char>, bool>) -> bool {
    forall|i: int| 0 <= i < ps.len() && r_ext((#[trigger] ps[i]).id()) && anc(ps[i].id()).len() > 1 ==> m.dom().contains(anc(ps[i].id())[1]) && m[anc(ps[i].id())[1]] == r_folder(anc(ps[i].id())[1])
}
pub proof fn lemma_known(ps: Seq<PathBuf>, ds: Seq<PathBuf>, m: IMap<Seq<char>, bool>)
    requires texts_of(ds) == image(ps.filter(has_ext()), up1()), forall|i: int| 0 <= i < ds.len() ==> m.dom().contains((#[trigger] ds[i]).id()) && m[ds[i].id()] == r_folder(ds[i].id()),
    ensures known(ps, m),
{
    assert forall|i: int| 0 <= i < ps.len() && r_ext((#[trigger] ps[i]).id()) && anc(ps[i].id()).len() > 1 implies m.dom().contains(anc(ps[i].id())[1]) && m[anc(ps[i].id())[1]] == r_folder(anc(ps[i].id())[1]) by {
        let f = ps.filter(has_ext());
        lemma_filter_at(ps, has_ext(), ps[i]);
        assert(ps.contains(ps[i])); assert(f.contains(ps[i]));
        let j = choose|j: int| 0 <= j < f.len() && f[j] == ps[i];
        assert(up1()(f[j].t()) == Some(anc(ps[i].id())[1]));
        assert(texts_of(ds).contains(anc(ps[i].id())[1]));
    }
}
pub proof fn lemma_filter_at<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: T)
    ensures s.filter(p).contains(x) == (s.contains(x) && p(x)),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_at(d, p, x);
        assert(d.push(s.last()) =~= s);
        if s.filter(p).contains(x) { let i = choose|i: int| 0 <= i < s.filter(p).len() && s.filter(p)[i] == x; if i < d.filter(p).len() { assert(d.filter(p)[i] == x); assert(d.filter(p).contains(x)); let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); } }
        if s.contains(x) && p(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < d.len() { assert(d[j] == x); assert(d.filter(p).contains(x)); let i = choose|i: int| 0 <= i < d.filter(p).len() && d.filter(p)[i] == x; assert(s.filter(p)[i] == x); } else { assert(s.filter(p).last() == x); } }
    }
}
/// the given files that are in R/ of a package
pub open spec fn are_given(ps: Seq<PathBuf>, rf: Seq<PathBuf>) -> bool { forall|x: Seq<char>| #[trigger] given(ps, x) == exists|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x }
pub proof fn lemma_given(ps: Seq<PathBuf>, m: IMap<Seq<char>, bool>, rf: Seq<PathBuf>)
    requires known(ps, m), rf == ps.filter(has_ext()).filter(in_known(m)),
    ensures are_given(ps, rf),
{
    let f = ps.filter(has_ext());
    assert forall|x: Seq<char>| #[trigger] given(ps, x) == exists|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x by {
        lemma_r_folder(x);
        if given(ps, x) {
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).id() == x;
            lemma_filter_at(ps, has_ext(), ps[i]); lemma_filter_at(f, in_known(m), ps[i]);
            assert(ps.contains(ps[i])); assert(rf.contains(ps[i]));
        }
        if exists|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x {
            let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x;
            lemma_filter_at(f, in_known(m), rf[i]); lemma_filter_at(ps, has_ext(), rf[i]);
            assert(rf.contains(rf[i])); assert(f.contains(rf[i])); assert(ps.contains(rf[i]));
            let j = choose|j: int| 0 <= j < ps.len() && ps[j] == rf[i];
            assert(ps[j].id() == x);
        }
    }
}
pub proof fn lemma_roots(ps: Seq<PathBuf>, rf: Seq<PathBuf>)
    requires are_given(ps, rf),
    ensures forall|d: Seq<char>| #[trigger] pkg_root(ps, d) == image(rf, up2()).contains(d), forall|c: Seq<char>| #[trigger] leads(ps, c) == image(rf, leads_to()).contains(c),
{
    assert forall|d: Seq<char>| #[trigger] pkg_root(ps, d) == image(rf, up2()).contains(d) by {
        if pkg_root(ps, d) { let x = choose|x: Seq<char>| #[trigger] given(ps, x) && anc(x)[2] == d; lemma_r_folder(x); let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x; assert(up2()(rf[i].t()) == Some(d)); }
        if image(rf, up2()).contains(d) { let i = choose|i: int| 0 <= i < rf.len() && up2()((#[trigger] rf[i]).t()) == Some(d); assert(given(ps, rf[i].id())); }
    }
    assert forall|c: Seq<char>| #[trigger] leads(ps, c) == image(rf, leads_to()).contains(c) by {
        if leads(ps, c) { let x = choose|x: Seq<char>| #[trigger] given(ps, x) && canon(x) == Some(c); let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x; assert(leads_to()(rf[i].t()) == Some(c)); }
        if image(rf, leads_to()).contains(c) { let i = choose|i: int| 0 <= i < rf.len() && leads_to()((#[trigger] rf[i]).t()) == Some(c); assert(given(ps, rf[i].id())); }
    }
}
/// the same of the first n folders
pub open spec fn left_in(ps: Seq<PathBuf>, rs: Seq<PathBuf>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && left_out(ps, (#[trigger] rs[i]).id(), x) }
pub open spec fn other_in(rs: Seq<PathBuf>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && elsewhere((#[trigger] rs[i]).id(), x) }
pub open spec fn ns_in(rs: Seq<PathBuf>, n: int, d: Seq<char>) -> bool { file_text(join(d, "NAMESPACE"@)) is Some && exists|i: int| 0 <= i < n && (#[trigger] rs[i]).id() == d }
pub open spec fn lefts(ps: Seq<PathBuf>, rs: Seq<PathBuf>, n: int) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| left_in(ps, rs, n, x)) }
pub open spec fn others(rs: Seq<PathBuf>, n: int) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| other_in(rs, n, x)) }
pub open spec fn some_ns(rs: Seq<PathBuf>, n: int, m: IMap<Seq<char>, String>) -> bool { forall|d: Seq<char>| #[trigger] m.dom().contains(d) == ns_in(rs, n, d) && (m.dom().contains(d) ==> m[d]@ == file_text(join(d, "NAMESPACE"@))->0) }
/// of one folder, of the first n files
pub open spec fn lefts_of(ps: Seq<PathBuf>, fs: Seq<PathBuf>, n: int) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| canon(x) is Some && !leads(ps, canon(x)->0) && exists|i: int| 0 <= i < n && (#[trigger] fs[i]).id() == x) }
pub open spec fn in_dirs(d: Seq<char>, l: Seq<&str>, n: int) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|i: int| 0 <= i < n && part(d, (#[trigger] l[i])@, x)) }
pub open spec fn in3(l: Seq<&str>, f: Seq<char>) -> bool { l[0]@ == f || l[1]@ == f || l[2]@ == f }
pub proof fn lemma_once_filter(s: Seq<PathBuf>, p: spec_fn(PathBuf) -> bool)
    requires each_once(s),
    ensures each_once(s.filter(p)),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_once_filter(d, p);
        assert forall|i: int| 0 <= i < d.filter(p).len() implies (#[trigger] d.filter(p)[i]).t() != s.last().t() by { lemma_filter_at(d, p, d.filter(p)[i]); assert(d.filter(p).contains(d.filter(p)[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == d.filter(p)[i]; assert(s[j].t() != s[s.len() - 1].t()); }
    }
}
pub proof fn lemma_once_add(v: Seq<PathBuf>, w: Seq<PathBuf>)
    requires each_once(v), each_once(w), forall|x: Seq<char>| #[trigger] texts_of(v).contains(x) ==> !texts_of(w).contains(x),
    ensures each_once(v + w),
{
    assert forall|i: int, j: int| 0 <= i < j < (v + w).len() implies (#[trigger] (v + w)[i]).t() != (#[trigger] (v + w)[j]).t() by {
        if i < v.len() && j >= v.len() { assert(v[i].t() == (v + w)[i].t()); assert(texts_of(v).contains(v[i].t())); assert(w[j - v.len()].t() == (v + w)[j].t()); assert(texts_of(w).contains(w[j - v.len()].t())); }
    }
}
/// none twice in the list of what is scanned
pub proof fn lemma_listed_once(ps: Seq<PathBuf>, cu: bool, rf: Seq<PathBuf>, ex: Seq<PathBuf>, ot: Seq<PathBuf>, rs: Seq<PathBuf>)
    requires
        are_given(ps, rf), texts_of(rs) == image(rf, up2()), texts_of(ex) == lefts(ps, rs, rs.len() as int), texts_of(ot) == (if cu { others(rs, rs.len() as int) } else { ISet::<Seq<char>>::empty() }),
        apart(ps, cu), each_once(rf), each_once(ex), each_once(ot),
    ensures each_once(rf + ex + ot),
{
    lemma_roots(ps, rf);
    assert forall|x: Seq<char>| #[trigger] texts_of(rf).contains(x) implies given(ps, x) by { let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).t() == x; assert(rf[i].id() == x); }
    assert forall|x: Seq<char>| #[trigger] texts_of(ex).contains(x) implies exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x) by { assert(left_in(ps, rs, rs.len() as int, x)); let i = choose|i: int| 0 <= i < rs.len() && left_out(ps, (#[trigger] rs[i]).id(), x); assert(texts_of(rs).contains(rs[i].t())); assert(pkg_root(ps, rs[i].id())); }
    assert forall|x: Seq<char>| #[trigger] texts_of(ot).contains(x) implies exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x) by { assert(other_in(rs, rs.len() as int, x)); let i = choose|i: int| 0 <= i < rs.len() && elsewhere((#[trigger] rs[i]).id(), x); assert(texts_of(rs).contains(rs[i].t())); assert(pkg_root(ps, rs[i].id())); }
    lemma_once_add(rf, ex);
    lemma_texts_add(rf, ex);
    assert forall|x: Seq<char>| #[trigger] texts_of(rf + ex).contains(x) implies !texts_of(ot).contains(x) by {
        if texts_of(ot).contains(x) {
            let e = choose|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x);
            if texts_of(ex).contains(x) { let d = choose|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x); }
        }
    }
    lemma_once_add(rf + ex, ot);
}
/// what is known of different files has different paths
pub proof fn lemma_distinct(ps: Seq<PathBuf>, cu: bool, l: Seq<(Seq<char>, FileScope)>, o: Seq<Option<SharedFileData>>)
    requires all_listed(ps, cu, l), apart(ps, cu), each_scanned(cu, l, o),
    ensures distinct(somes(o)),
{
    assert forall|i: int, j: int| 0 <= i < j < o.len() && o[i] is Some && o[j] is Some implies (#[trigger] o[i])->0.rel_path.id() != (#[trigger] o[j])->0.rel_path.id() by {
        assert(scanned(l[i].0, l[i].1, cu, o[i]->0)); assert(scanned(l[j].0, l[j].1, cu, o[j]->0));
        assert(l.contains((l[i].0, l[i].1)) && l.contains((l[j].0, l[j].1))) by { assert(l[i] == (l[i].0, l[i].1)); assert(l[j] == (l[j].0, l[j].1)); }
        assert(counts_as(ps, cu, l[i].0, l[i].1) && counts_as(ps, cu, l[j].0, l[j].1));
    }
    lemma_somes_distinct(o);
}
pub proof fn lemma_somes_distinct(o: Seq<Option<SharedFileData>>)
    requires forall|i: int, j: int| 0 <= i < j < o.len() && o[i] is Some && o[j] is Some ==> (#[trigger] o[i])->0.rel_path.id() != (#[trigger] o[j])->0.rel_path.id(),
    ensures distinct(somes(o)),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_somes_distinct(p);
        assert(p.push(o.last()) =~= o);
        lemma_somes_push(p, o.last());
        if o.last() is Some {
            assert forall|i: int| 0 <= i < somes(p).len() implies (#[trigger] somes(p)[i]).rel_path.id() != o.last()->0.rel_path.id() by { lemma_somes_from(p, somes(p)[i]); assert(somes(p).contains(somes(p)[i])); let j = choose|j: int| 0 <= j < p.len() && p[j] == Some(somes(p)[i]); assert(o[j] is Some && o[o.len() - 1] is Some); }
        }
    }
}
pub proof fn lemma_texts_push(v: Seq<PathBuf>, x: PathBuf) ensures texts_of(v.push(x)) =~= texts_of(v).insert(x.id()) {
    assert forall|y: Seq<char>| texts_of(v.push(x)).contains(y) == texts_of(v).insert(x.id()).contains(y) by {
        if texts_of(v).contains(y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).t() == y; assert(v.push(x)[i].t() == y); }
        if y == x.id() { assert(v.push(x)[v.len() as int].t() == y); }
        if texts_of(v.push(x)).contains(y) { let i = choose|i: int| 0 <= i < v.len() + 1 && (#[trigger] v.push(x)[i]).t() == y; if i < v.len() { assert(v[i].t() == y); } }
    }
}
pub proof fn lemma_texts_add(v: Seq<PathBuf>, w: Seq<PathBuf>) ensures texts_of(v + w) =~= texts_of(v).union(texts_of(w)) {
    assert forall|y: Seq<char>| texts_of(v + w).contains(y) == texts_of(v).union(texts_of(w)).contains(y) by {
        if texts_of(v).contains(y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).t() == y; assert((v + w)[i].t() == y); }
        if texts_of(w).contains(y) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).t() == y; assert((v + w)[v.len() + i].t() == y); }
        if texts_of(v + w).contains(y) { let i = choose|i: int| 0 <= i < (v + w).len() && (#[trigger] (v + w)[i]).t() == y; if i < v.len() { assert(v[i].t() == y); } else { assert(w[i - v.len()].t() == y); } }
    }
}
pub open spec fn as_listed(all: Seq<(PathBuf, FileScope)>) -> Seq<(Seq<char>, FileScope)> { all.map_values(|e: (PathBuf, FileScope)| (e.0.id(), e.1)) }
pub open spec fn scope_left(x: Seq<char>) -> FileScope { if in_r(x) == Some(true) { FileScope::R } else { FileScope::Src } }
pub proof fn lemma_next(ps: Seq<PathBuf>, rs: Seq<PathBuf>, k: int)
    requires 0 <= k < rs.len(),
    ensures
        forall|x: Seq<char>| #[trigger] left_in(ps, rs, k + 1, x) == (left_in(ps, rs, k, x) || left_out(ps, rs[k].id(), x)),
        forall|x: Seq<char>| #[trigger] other_in(rs, k + 1, x) == (other_in(rs, k, x) || elsewhere(rs[k].id(), x)),
        forall|x: Seq<char>| #[trigger] ns_in(rs, k + 1, x) == (ns_in(rs, k, x) || (x == rs[k].id() && file_text(join(x, "NAMESPACE"@)) is Some)),
{
    assert forall|x: Seq<char>| #[trigger] left_in(ps, rs, k + 1, x) == (left_in(ps, rs, k, x) || left_out(ps, rs[k].id(), x)) by { }
    assert forall|x: Seq<char>| #[trigger] other_in(rs, k + 1, x) == (other_in(rs, k, x) || elsewhere(rs[k].id(), x)) by { }
    assert forall|x: Seq<char>| #[trigger] ns_in(rs, k + 1, x) == (ns_in(rs, k, x) || (x == rs[k].id() && file_text(join(x, "NAMESPACE"@)) is Some)) by { }
}
pub proof fn lemma_new_file(ps: Seq<PathBuf>, rs: Seq<PathBuf>, k: int, fs: Seq<PathBuf>, j: int, e: Seq<PathBuf>, file: PathBuf)
    requires
        0 <= k < rs.len(), 0 <= j < fs.len(), file.id() == fs[j].id(), each_once(fs), each_once(e), each_once(rs), forall|i: int| 0 <= i < rs.len() ==> pkg_root(ps, (#[trigger] rs[i]).id()),
        is_dir(join(rs[k].id(), "R"@)), texts_of(fs) == below_r(join(rs[k].id(), "R"@)), exists|cu: bool| #[trigger] apart(ps, cu),
        texts_of(e) == lefts(ps, rs, k).union(lefts_of(ps, fs, j)),
    ensures canon(file.id()) is Some && !leads(ps, canon(file.id())->0) ==> each_once(e.push(file)),
{
    let x = file.id();
    let cu = choose|cu: bool| #[trigger] apart(ps, cu);
    if canon(x) is Some && !leads(ps, canon(x)->0) {
        assert(fs[j].t() == x); assert(texts_of(fs).contains(x));
        assert(left_out(ps, rs[k].id(), x));
        assert(!texts_of(e).contains(x)) by {
            if left_in(ps, rs, k, x) { let i = choose|i: int| 0 <= i < k && left_out(ps, (#[trigger] rs[i]).id(), x); assert(pkg_root(ps, rs[i].id()) && pkg_root(ps, rs[k].id())); assert(rs[i].t() != rs[k].t()); }
            if lefts_of(ps, fs, j).contains(x) { let i = choose|i: int| 0 <= i < j && (#[trigger] fs[i]).id() == x; assert(fs[i].t() != fs[j].t()); }
        }
        assert forall|a: int, b: int| 0 <= a < b < e.push(file).len() implies (#[trigger] e.push(file)[a]).t() != (#[trigger] e.push(file)[b]).t() by { if b == e.len() { assert(texts_of(e).contains(e[a].t())); } }
    }
}
/// the names of the folders with R files: all, each once
pub open spec fn names3(l: Seq<&str>) -> bool { &&& forall|i: int| 0 <= i < l.len() ==> is_r_dir((#[trigger] l[i])@) &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i])@ != (#[trigger] l[j])@ &&& forall|f: Seq<char>| #[trigger] is_r_dir(f) ==> in3(l, f) }
pub proof fn lemma_names3(l: Seq<&str>)
    requires l.len() == 3, in3(l, "tests"@), in3(l, "inst/tests"@), in3(l, "inst/tinytest"@),
    ensures names3(l),
{ reveal_strlit("tests"); reveal_strlit("inst/tests"); reveal_strlit("inst/tinytest"); assert("tests"@.len() == 5 && "inst/tests"@.len() == 10 && "inst/tinytest"@.len() == 13); }
pub proof fn lemma_new_texts(e: Seq<PathBuf>, n: Seq<PathBuf>, d: Seq<char>, f: Seq<char>)
    requires each_once(e), forall|x: Seq<char>| #[trigger] texts_of(e).contains(x) ==> !part(d, f, x), e == n || exists|o: Seq<PathBuf>| n == #[trigger] (e + o) && each_once(o) && forall|x: Seq<char>| #[trigger] texts_of(o).contains(x) ==> part(d, f, x),
    ensures each_once(n),
{ if e != n { let o = choose|o: Seq<PathBuf>| n == #[trigger] (e + o) && each_once(o) && forall|x: Seq<char>| #[trigger] texts_of(o).contains(x) ==> part(d, f, x); lemma_once_add(e, o); } }
pub proof fn lemma_listed(ps: Seq<PathBuf>, cu: bool, rf: Seq<PathBuf>, ex: Seq<PathBuf>, ot: Seq<PathBuf>, rs: Seq<PathBuf>, all: Seq<(PathBuf, FileScope)>)
    requires
        are_given(ps, rf), texts_of(rs) == image(rf, up2()), texts_of(ex) == lefts(ps, rs, rs.len() as int), texts_of(ot) == (if cu { others(rs, rs.len() as int) } else { ISet::<Seq<char>>::empty() }),
        all.len() == rf.len() + ex.len() + ot.len(),
        forall|i: int| 0 <= i < rf.len() ==> all[i].0.id() == (#[trigger] rf[i]).id() && all[i].1 == FileScope::R,
        forall|i: int| 0 <= i < ex.len() ==> all[rf.len() + i].0.id() == (#[trigger] ex[i]).id() && all[rf.len() + i].1 == scope_left(ex[i].id()),
        forall|i: int| 0 <= i < ot.len() ==> all[rf.len() + ex.len() + i].0.id() == (#[trigger] ot[i]).id() && all[rf.len() + ex.len() + i].1 == scope_from(comps(ot[i].id()), 0),
        each_once(rf + ex + ot),
    ensures all_listed(ps, cu, as_listed(all)),
{
    lemma_roots(ps, rf);
    let l = as_listed(all);
    let n = rs.len() as int;
    assert forall|x: Seq<char>| (exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x)) == texts_of(ex).contains(x) by {
        if exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x) { let d = choose|d: Seq<char>| #[trigger] pkg_root(ps, d) && left_out(ps, d, x); assert(texts_of(rs).contains(d)); let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).t() == d; assert(left_out(ps, rs[i].id(), x)); }
        if texts_of(ex).contains(x) { assert(left_in(ps, rs, n, x)); let i = choose|i: int| 0 <= i < n && left_out(ps, (#[trigger] rs[i]).id(), x); assert(texts_of(rs).contains(rs[i].t())); assert(pkg_root(ps, rs[i].id())); }
    }
    assert forall|x: Seq<char>| (cu && exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x)) == texts_of(ot).contains(x) by {
        if cu && exists|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x) { let d = choose|d: Seq<char>| #[trigger] pkg_root(ps, d) && elsewhere(d, x); assert(texts_of(rs).contains(d)); let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).t() == d; assert(elsewhere(rs[i].id(), x)); }
        if texts_of(ot).contains(x) { assert(other_in(rs, n, x)); let i = choose|i: int| 0 <= i < n && elsewhere((#[trigger] rs[i]).id(), x); assert(texts_of(rs).contains(rs[i].t())); assert(pkg_root(ps, rs[i].id())); }
    }
    let cat = rf + ex + ot;
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] l[i]).0 == cat[i].t() by { if i < rf.len() { assert(cat[i] == rf[i]); } else if i < rf.len() + ex.len() { assert(cat[i] == ex[i - rf.len()]); } else { assert(cat[i] == ot[i - rf.len() - ex.len()]); } }
    assert forall|x: Seq<char>, s: FileScope| #[trigger] l.contains((x, s)) == counts_as(ps, cu, x, s) by {
        if l.contains((x, s)) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == (x, s);
            if i < rf.len() { assert(rf[i].id() == x); assert(given(ps, x)); }
            else if i < rf.len() + ex.len() { assert(ex[i - rf.len()].t() == x); assert(texts_of(ex).contains(x)); }
            else { assert(ot[i - rf.len() - ex.len()].t() == x); assert(texts_of(ot).contains(x)); }
        }
        if counts_as(ps, cu, x, s) {
            if given(ps, x) && s == FileScope::R { let i = choose|i: int| 0 <= i < rf.len() && (#[trigger] rf[i]).id() == x; assert(l[i] == (x, s)); }
            else if texts_of(ex).contains(x) && s == scope_left(x) { let i = choose|i: int| 0 <= i < ex.len() && (#[trigger] ex[i]).t() == x; assert(l[rf.len() + i] == (x, s)); }
            else { assert(texts_of(ot).contains(x)); let i = choose|i: int| 0 <= i < ot.len() && (#[trigger] ot[i]).t() == x; assert(l[rf.len() + ex.len() + i] == (x, s)); }
        }
    }
}
pub proof fn lemma_image_dr(v: Seq<&PathBuf>, g: spec_fn(Seq<char>) -> Option<Seq<char>>)
    ensures image(v, g) == image(dr(v), g),
{
    assert forall|x: Seq<char>| image(v, g).contains(x) == image(dr(v), g).contains(x) by {
        if image(v, g).contains(x) { let i = choose|i: int| 0 <= i < v.len() && g((#[trigger] v[i]).t()) == Some(x); assert(g(dr(v)[i].t()) == Some(x)); }
        if image(dr(v), g).contains(x) { let i = choose|i: int| 0 <= i < dr(v).len() && g((#[trigger] dr(v)[i]).t()) == Some(x); assert(g(v[i].t()) == Some(x)); }
    }
    assert(image(v, g) =~= image(dr(v), g));
}
pub proof fn lemma_ns(ps: Seq<PathBuf>, rf: Seq<PathBuf>, rs: Seq<PathBuf>, m: IMap<Seq<char>, String>)
    requires are_given(ps, rf), texts_of(rs) == image(rf, up2()), some_ns(rs, rs.len() as int, m),
    ensures namespaces(ps, m),
{
    lemma_roots(ps, rf);
    assert forall|d: Seq<char>| #[trigger] m.dom().contains(d) == (pkg_root(ps, d) && file_text(join(d, "NAMESPACE"@)) is Some) && (m.dom().contains(d) ==> m[d]@ == file_text(join(d, "NAMESPACE"@))->0) by {
        if pkg_root(ps, d) { assert(texts_of(rs).contains(d)); let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).t() == d; assert(rs[i].id() == d); }
        if ns_in(rs, rs.len() as int, d) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).id() == d; assert(rs[i].t() == d); assert(texts_of(rs).contains(d)); }
    }
}
//@methods iter into_iter map filter_map and_then is_some_and copied chain
//@fn crates/jarl-core/src/package.rs compute_package_analysis
//@inlined `let bytes =` => `vx_scan_file(path.as_path(), scope, check_unused)`
//@subst `has_r_extension(p)` => `vx_has_r(p)`
//@subst `let r_dirs: HashSet<PathBuf> = paths` => `let r_dirs: HashSet<PathBuf> = vx_set_from(paths`
//@subst `.collect(); let dir_is_package: HashMap<PathBuf, bool> = r_dirs` => `); let vx_ds = vx_members(r_dirs); let vx_dm = vx_ds`
//@subst `dir.file_name().and_then(|n| n.to_str())` => `dir.vx_name()`
//@subst `.collect(); let r_dir_files` => `; let dir_is_package: HashMap<PathBuf, bool> = vx_map_of(vx_dm); let r_dir_files`
//@subst `.collect(); let mut extra_files` => `; let mut extra_files`
//@subst `let package_roots: HashSet<PathBuf> = r_dir_files` => `let package_roots: HashSet<PathBuf> = vx_set_from(r_dir_files`
//@subst `p.parent().and_then(|r| r.parent())` => `vx_grandparent(p)`
//@subst `.collect(); let r_dir_file_set: HashSet<PathBuf> = r_dir_files` => `); let r_dir_file_set: HashSet<PathBuf> = vx_set_from(r_dir_files`
//@subst `.collect(); for root in &package_roots` => `); for root in vx_members(package_roots)`
//@subst `std::fs::canonicalize(p).ok()` => `vx_canon(p)`
//@subst `if let Ok(canon) = std::fs::canonicalize(&file)` => `if let Some(canon) = vx_canon(&file)`
//@subst `collect_files(` => `vx_files(`
//@subst `, has_r_extension)` => `, VxKind::R)`
//@subst `, has_cpp_extension)` => `, VxKind::Cpp)`
//@subst `in &[` => `in vx_arr(&[`
//@subst `] { let dir = root` => `]) { let dir = root`
//@subst `extra_files.extend(` => `vx_append(&mut extra_files, `
//@subst `if let Ok(ns_bytes) = std::fs::read(` => `if let Some(ns_bytes) = vx_read_file(`
//@subst `String::from_utf8_lossy(&ns_bytes).into_owned()` => `vx_lossy(&ns_bytes)`
//@subst `let all_files: Vec<(&Path, FileScope)>` => `let all_files: Vec<(PathBuf, FileScope)>`
//@subst `(p.as_path(), ` => `(p.vx_owned(), `
//@subst `is_in_r_package(p)` => `is_in_r_package(p.as_path())`
//@subst `file_scope_from_path(p)` => `file_scope_from_path(p.as_path())`
//@subst `all_files.par_iter().filter_map(` => `all_files.vx_iter().vx_filter_map(`
//@subst `.collect(); let shared_data` => `; let shared_data`
//@subst `.collect(); let duplicate_assignments` => `; let duplicate_assignments`
//@subst `.filter(` => `.vx_keep(`
//@subst `.filter_map(` => `.vx_pick(`
//@ret r
//@contract
    requires short_files(), apart(paths@, config.rules_to_apply.has(Rule::UnusedFunction)), forall|d: Seq<SharedFileData>| #[trigger] data_of(paths@, config.rules_to_apply.has(Rule::UnusedFunction), d) ==> countable(d),
    ensures analysed(paths@, *config, r),
//@closure 0 (p: &&PathBuf) -> b: bool
    ensures b == has_ext()(**p)
//@closure 1 (p: &PathBuf) -> o: Option<PathBuf>
    ensures up1()(p.id()) == (match o { Some(x) => Some(x.id()), None => None })
//@closure 2 (d: &Path) -> o: PathBuf
    ensures o.id() == d.id()
//@closure 3 (dir: PathBuf) -> o: (PathBuf, bool)
    ensures o.0.id() == dir.id() && o.1 == r_folder(dir.id())
//@closure 4 (n: &str) -> b: bool
    ensures b == (n@ == "R"@)
//@closure 5 (p: &Path) -> b: bool
    ensures b == there(join(p.id(), "DESCRIPTION"@))
//@closure 6 (p: &&PathBuf) -> b: bool
    ensures b == has_ext()(**p)
//@closure 7 (p: &&PathBuf) -> b: bool
    ensures b == in_known(dir_is_package.m())(**p)
//@closure 8 (d: &Path) -> o: Option<&bool>
    ensures match o { Some(v) => dir_is_package.m().dom().contains(d.id()) && *v == dir_is_package.m()[d.id()], None => !dir_is_package.m().dom().contains(d.id()) }
//@closure 9 (p: &&PathBuf) -> o: Option<PathBuf>
    ensures up2()(p.id()) == (match o { Some(x) => Some(x.id()), None => None })
//@closure 10 (r: &Path) -> o: PathBuf
    ensures o.id() == r.id()
//@closure 11 (p: &&PathBuf) -> o: Option<PathBuf>
    ensures leads_to()(p.id()) == (match o { Some(x) => Some(x.id()), None => None })
//@closure 12 (p: &&PathBuf) -> o: (PathBuf, FileScope)
    ensures o.0.id() == p.id() && o.1 == FileScope::R
//@closure 13 (p: &PathBuf) -> o: (PathBuf, FileScope)
    ensures o.0.id() == p.id() && o.1 == scope_left(p.id())
//@closure 14 (p: &PathBuf) -> o: (PathBuf, FileScope)
    ensures o.0.id() == p.id() && o.1 == scope_from(comps(p.id()), 0)
//@closure 15 (vx_e: &(PathBuf, FileScope)) -> o: Option<SharedFileData>
    requires file_text(vx_e.0.id()) is Some ==> encode_utf8(file_text(vx_e.0.id())->0).len() < u32::MAX,
    ensures match o { Some(d) => scanned(vx_e.0.id(), vx_e.1, check_unused, d), None => !scannable(vx_e.0.id(), vx_e.1) }
//@at start
    let ghost ps = paths@;
    proof { assert(at_hand(image(ps.filter(has_ext()), up1()))); }
//@at after let dir_is_package
    let ghost m = dir_is_package.m();
    proof {
        assert forall|i: int| 0 <= i < vx_ds@.len() implies m.dom().contains((#[trigger] vx_ds@[i]).id()) && m[vx_ds@[i].id()] == r_folder(vx_ds@[i].id()) by { assert(vx_dm@[i].0.id() == vx_ds@[i].id()); }
        lemma_known(ps, vx_ds@, m);
        assert(at_hand(ps.filter(has_ext()).filter(in_known(m))));
    }
//@at after let r_dir_files
    let ghost rf = dr(r_dir_files@);
    proof {
        assert(rf == ps.filter(has_ext()).filter(in_known(m)));
        lemma_given(ps, m, rf);
        lemma_roots(ps, rf);
        lemma_once_filter(ps, has_ext()); lemma_once_filter(ps.filter(has_ext()), in_known(m));
        assert(at_hand(image(r_dir_files@, up2()))); assert(at_hand(image(r_dir_files@, leads_to())));
    }
//@at after let r_dir_file_set
    proof {
        assert(image(r_dir_files@, up2()) =~= image(rf, up2())) by { lemma_image_dr(r_dir_files@, up2()); }
        assert(image(r_dir_files@, leads_to()) =~= image(rf, leads_to())) by { lemma_image_dr(r_dir_files@, leads_to()); }
    }
//@loop 0 it hoist=vx_rs
    invariant
        it.seq() == vx_rs@, ps == paths@, each_once(vx_rs@), each_once(excluded_r_files@), each_once(extra_files@), apart(ps, check_unused), forall|i: int| 0 <= i < vx_rs@.len() ==> pkg_root(ps, (#[trigger] vx_rs@[i]).id()),
        texts_of(excluded_r_files@) == lefts(ps, vx_rs@, it.index() as int),
        texts_of(extra_files@) == (if check_unused { others(vx_rs@, it.index() as int) } else { ISet::<Seq<char>>::empty() }),
        check_unused ==> some_ns(vx_rs@, it.index() as int, namespace_contents.m()),
        forall|c: Seq<char>| #[trigger] r_dir_file_set.texts().contains(c) == leads(ps, c),
//@at before loop 0
    proof {
        assert(texts_of(vx_rs@) == image(rf, up2()));
        assert forall|i: int| 0 <= i < vx_rs@.len() implies pkg_root(ps, (#[trigger] vx_rs@[i]).id()) by { assert(texts_of(vx_rs@).contains(vx_rs@[i].t())); }
        assert(texts_of(excluded_r_files@) =~= lefts(ps, vx_rs@, 0));
        assert(texts_of(extra_files@) =~= others(vx_rs@, 0));
        assert(texts_of(extra_files@) =~= ISet::<Seq<char>>::empty());
        assert(some_ns(vx_rs@, 0, namespace_contents.m()));
    }
//@at loop 0 start
    let ghost k = it.index() as int;
    let ghost ex0 = texts_of(excluded_r_files@);
    let ghost ot0 = texts_of(extra_files@);
    let ghost ns0 = namespace_contents.m();
    proof { assert(root.id() == vx_rs@[k].id()); }
//@loop 1 jt hoist=vx_fs
    invariant
        jt.seq() == vx_fs@, each_once(vx_fs@), each_once(excluded_r_files@), vx_fs@.len() == 0 || (texts_of(vx_fs@) == below_r(join(root.id(), "R"@)) && is_dir(join(root.id(), "R"@))),
        ex0 == lefts(ps, vx_rs@, k), 0 <= k < vx_rs@.len(), vx_rs@[k].id() == root.id(), each_once(vx_rs@), apart(ps, check_unused), forall|i: int| 0 <= i < vx_rs@.len() ==> pkg_root(ps, (#[trigger] vx_rs@[i]).id()),
        texts_of(excluded_r_files@) == ex0.union(lefts_of(ps, vx_fs@, jt.index() as int)),
        forall|c: Seq<char>| #[trigger] r_dir_file_set.texts().contains(c) == leads(ps, c),
//@at before loop 1
    proof { assert(texts_of(excluded_r_files@) =~= ex0.union(lefts_of(ps, vx_fs@, 0))); }
//@at loop 1 start
    let ghost e1 = excluded_r_files@;
    let ghost j = jt.index() as int;
    proof { assert(file.id() == vx_fs@[j].id()); lemma_texts_push(e1, file); lemma_new_file(ps, vx_rs@, k, vx_fs@, j, e1, file); }
//@at loop 1 end
    proof { assert(texts_of(excluded_r_files@) =~= ex0.union(lefts_of(ps, vx_fs@, j + 1))); }
//@at after loop 1
    proof {
        assert forall|x: Seq<char>| lefts_of(ps, vx_fs@, vx_fs@.len() as int).contains(x) == left_out(ps, root.id(), x) by {
            assert(texts_of(vx_fs@) == below_r(r_dir.id()));
            if left_out(ps, root.id(), x) { assert(texts_of(vx_fs@).contains(x)); let i = choose|i: int| 0 <= i < vx_fs@.len() && (#[trigger] vx_fs@[i]).t() == x; assert(vx_fs@[i].id() == x); }
            if lefts_of(ps, vx_fs@, vx_fs@.len() as int).contains(x) { let i = choose|i: int| 0 <= i < vx_fs@.len() && (#[trigger] vx_fs@[i]).id() == x; assert(vx_fs@[i].t() == x); assert(texts_of(vx_fs@).contains(x)); }
        }
    }
//@at before `if check_unused {`
    proof { lemma_next(ps, vx_rs@, k); assert(texts_of(excluded_r_files@) =~= lefts(ps, vx_rs@, k + 1)); }
//@loop 2 kt hoist=vx_ns
    invariant
        kt.seq() == vx_ns@, each_once(extra_files@), vx_ns@.len() == 3, names3(vx_ns@), check_unused,
        ot0 == others(vx_rs@, k), 0 <= k < vx_rs@.len(), vx_rs@[k].id() == root.id(), each_once(vx_rs@), apart(ps, check_unused), forall|i: int| 0 <= i < vx_rs@.len() ==> pkg_root(ps, (#[trigger] vx_rs@[i]).id()),
        texts_of(extra_files@) == ot0.union(in_dirs(root.id(), vx_ns@, kt.index() as int)),
//@at before loop 2
    proof { lemma_names3(vx_ns@); assert(texts_of(extra_files@) =~= ot0.union(in_dirs(root.id(), vx_ns@, 0))); }
//@at loop 2 start
    let ghost k2 = kt.index() as int;
    let ghost e2 = extra_files@;
    proof { assert(dir_name@ == vx_ns@[k2]@); reveal_strlit("src"); reveal_strlit("tests"); reveal_strlit("inst/tests"); reveal_strlit("inst/tinytest"); }
//@at loop 2 end
    proof {
        assert forall|x: Seq<char>| texts_of(extra_files@).contains(x) == ot0.union(in_dirs(root.id(), vx_ns@, k2 + 1)).contains(x) by {
            assert(is_r_dir(vx_ns@[k2]@));
            if in_dirs(root.id(), vx_ns@, k2 + 1).contains(x) { let i = choose|i: int| 0 <= i < k2 + 1 && part(root.id(), (#[trigger] vx_ns@[i])@, x); if i < k2 { assert(in_dirs(root.id(), vx_ns@, k2).contains(x)); } }
            if in_dirs(root.id(), vx_ns@, k2).contains(x) { let i = choose|i: int| 0 <= i < k2 && part(root.id(), (#[trigger] vx_ns@[i])@, x); assert(in_dirs(root.id(), vx_ns@, k2 + 1).contains(x)); }
            assert(vx_ns@[k2]@ != "src"@) by { assert("src"@.len() == 3 && "tests"@.len() == 5 && "inst/tests"@.len() == 10 && "inst/tinytest"@.len() == 13); }
            assert(texts_of(extra_files@).contains(x) == (texts_of(e2).contains(x) || part(root.id(), vx_ns@[k2]@, x)));
            if part(root.id(), vx_ns@[k2]@, x) { assert(in_dirs(root.id(), vx_ns@, k2 + 1).contains(x)); }
        }
        assert(texts_of(extra_files@) =~= ot0.union(in_dirs(root.id(), vx_ns@, k2 + 1)));
        assert forall|x: Seq<char>| #[trigger] texts_of(e2).contains(x) implies !part(root.id(), vx_ns@[k2]@, x) by {
            if part(root.id(), vx_ns@[k2]@, x) {
                if ot0.contains(x) { let i = choose|i: int| 0 <= i < k && elsewhere((#[trigger] vx_rs@[i]).id(), x); let g = choose|g: Seq<char>| #[trigger] part(vx_rs@[i].id(), g, x); assert(vx_rs@[i].t() != vx_rs@[k].t()); assert(pkg_root(ps, vx_rs@[k].id())); }
                else { let i = choose|i: int| 0 <= i < k2 && part(root.id(), (#[trigger] vx_ns@[i])@, x); assert(vx_ns@[i]@ != vx_ns@[k2]@); assert(pkg_root(ps, vx_rs@[k].id())); }
            }
        }
        lemma_new_texts(e2, extra_files@, root.id(), vx_ns@[k2]@);
    }
//@at after loop 2
    let ghost ot1 = texts_of(extra_files@);
    let ghost e3 = extra_files@;
//@at before `if let Some(ns_bytes)`
    proof {
        assert forall|x: Seq<char>| texts_of(extra_files@).contains(x) == others(vx_rs@, k + 1).contains(x) by { 
            assert(others(vx_rs@, k + 1).contains(x) == (ot0.contains(x) || elsewhere(root.id(), x)));
            let l = vx_ns@;
            reveal_strlit("src"); reveal_strlit("tests"); reveal_strlit("inst/tests"); reveal_strlit("inst/tinytest");
            assert(part(root.id(), "src"@, x) ==> elsewhere(root.id(), x));
            if elsewhere(root.id(), x) { let f = choose|f: Seq<char>| #[trigger] part(root.id(), f, x); if f != "src"@ { assert(in3(l, f)); let i: int = if l[0]@ == f { 0 } else if l[1]@ == f { 1 } else { 2 }; assert(part(root.id(), l[i]@, x)); assert(in_dirs(root.id(), l, 3).contains(x)); } }
            if in_dirs(root.id(), l, 3).contains(x) { let i = choose|i: int| 0 <= i < 3 && part(root.id(), (#[trigger] l[i])@, x); assert(elsewhere(root.id(), x)); }
        }
        assert forall|x: Seq<char>| #[trigger] texts_of(e3).contains(x) implies !part(root.id(), "src"@, x) by {
            if part(root.id(), "src"@, x) {
                if ot0.contains(x) { let i = choose|i: int| 0 <= i < k && elsewhere((#[trigger] vx_rs@[i]).id(), x); let g = choose|g: Seq<char>| #[trigger] part(vx_rs@[i].id(), g, x); assert(vx_rs@[i].t() != vx_rs@[k].t()); assert(pkg_root(ps, vx_rs@[k].id())); }
                else { let i = choose|i: int| 0 <= i < 3 && part(root.id(), (#[trigger] vx_ns@[i])@, x); assert(is_r_dir(vx_ns@[i]@)); reveal_strlit("src"); reveal_strlit("tests"); reveal_strlit("inst/tests"); reveal_strlit("inst/tinytest"); assert("src"@.len() == 3); assert(pkg_root(ps, vx_rs@[k].id())); }
            }
        }
        lemma_new_texts(e3, extra_files@, root.id(), "src"@);
        assert(texts_of(extra_files@) =~= others(vx_rs@, k + 1));
    }
//@at loop 0 end
    proof {
        lemma_next(ps, vx_rs@, k);
        if check_unused { assert(some_ns(vx_rs@, k + 1, namespace_contents.m())); }
    }
//@at after let all_files
    let ghost all = all_files@;
    proof {
        let nr = rf.len() as int; let ne = excluded_r_files@.len() as int;
        assert forall|i: int| 0 <= i < nr implies all[i].0.id() == (#[trigger] rf[i]).id() && all[i].1 == FileScope::R by { assert(rf[i] == *r_dir_files@[i]); }
        assert forall|i: int| 0 <= i < ne implies all[nr + i].0.id() == (#[trigger] excluded_r_files@[i]).id() && all[nr + i].1 == scope_left(excluded_r_files@[i].id()) by { }
        assert forall|i: int| 0 <= i < extra_files@.len() implies all[nr + ne + i].0.id() == (#[trigger] extra_files@[i]).id() && all[nr + ne + i].1 == scope_from(comps(extra_files@[i].id()), 0) by { }
        lemma_listed_once(ps, check_unused, rf, excluded_r_files@, extra_files@, vx_rs@);
        lemma_listed(ps, check_unused, rf, excluded_r_files@, extra_files@, vx_rs@, all);
        if check_unused { lemma_ns(ps, rf, vx_rs@, namespace_contents.m()); }
    }
//@at after let shared_data
    proof {
        let l = as_listed(all);
        let o = choose|o: Seq<Option<SharedFileData>>| shared_data@ == #[trigger] somes(o) && o.len() == all.len() && forall|i: int| 0 <= i < o.len() ==> match #[trigger] o[i] { Some(d) => scanned(all[i].0.id(), all[i].1, check_unused, d), None => !scannable(all[i].0.id(), all[i].1) };
        assert(each_scanned(check_unused, l, o));
        lemma_distinct(ps, check_unused, l, o);
        assert(data_of(ps, check_unused, shared_data@));
        assert(at_hand(namespace_contents.m()));
    }
//@end
