// what the entries of a rule list stand for, and the functions that read such lists
#[verifier::external_body]
pub fn vx_same<A: VxText + ?Sized, B: VxText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.t() == b.t()) { unimplemented!() }
pub open spec fn cat_text(c: Category) -> Seq<char> {
    match c { Category::Comm => "COMM"@, Category::Corr => "CORR"@, Category::Susp => "SUSP"@, Category::Perf => "PERF"@, Category::Read => "READ"@, Category::Testthat => "TESTTHAT"@ }
}
proof fn lemma_cat_text(c: Category, d: Category)
    requires cat_text(c) == cat_text(d),
    ensures c == d,
{
    reveal_strlit("COMM"); reveal_strlit("CORR"); reveal_strlit("SUSP"); reveal_strlit("PERF"); reveal_strlit("READ"); reveal_strlit("TESTTHAT");
    let a = cat_text(c); let b = cat_text(d);
    assert(a.len() == b.len() && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
}
proof fn lemma_same_name(a: Rule, b: Rule)
    requires a.d_name() == b.d_name(),
    ensures a == b,
{ lemma_name_index(a); lemma_name_index(b); lemma_all_index(a); lemma_all_index(b); }
#[verifier::external_body]
pub fn vx_message() -> (s: String) { unimplemented!() }
impl Category {
//@const crates/jarl-core/src/rule_set.rs Category::ALL seq![Category::Comm, Category::Corr, Category::Susp, Category::Perf, Category::Read, Category::Testthat]
//@fn crates/jarl-core/src/rule_set.rs Category::as_str
//@ret r
//@contract
    ensures r@ == cat_text(self),
//@end
//@fn crates/jarl-core/src/rule_set.rs Category::from_str
//@subst `Result<Self, Self::Err>` => `core::result::Result<Self, String>`
//@subst `format!("Unknown category: {}", s)` => `vx_message()`
//@ret r
//@contract
    ensures match r { Ok(c) => cat_text(c) == s@, Err(_) => forall|c: Category| #[trigger] cat_text(c) != s@ },
//@end
}
impl Rule {
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::has_category
//@ret r
//@contract
    ensures r == self.d_categories().contains(category),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::is_enabled_by_default
//@ret r
//@contract
    ensures r == (self.d_default() == DefaultStatus::Enabled),
//@end
//@fn expand:crates/jarl-core/src/rule_set.rs Rule::all
//@ret r
//@contract
    ensures r@ == d_all(),
//@end
}
pub open spec fn is_cat(t: Seq<char>) -> bool { exists|c: Category| #[trigger] cat_text(c) == t }
/// does the entry e of a list stand for the rule
pub open spec fn stands(e: Seq<char>, r: Rule) -> bool {
    let t = trim(e);
    if t == "ALL"@ { true } else if is_cat(t) { exists|c: Category| #[trigger] cat_text(c) == t && r.d_categories().contains(c) } else { t == r.d_name() }
}
/// ALL, a group or a rule
pub open spec fn known(e: Seq<char>) -> bool {
    let t = trim(e);
    t == "ALL"@ || is_cat(t) || exists|r: Rule| #[trigger] r.d_name() == t
}
pub open spec fn all_known(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> known(#[trigger] l[i]) }
pub open spec fn listed(l: Seq<Seq<char>>, r: Rule) -> bool { exists|i: int| 0 <= i < l.len() && stands(#[trigger] l[i], r) }
/// the names of the rules a list stands for
pub open spec fn names(l: Seq<Seq<char>>) -> ISet<Seq<char>> { ISet::new(|x: Seq<char>| exists|r: Rule| #[trigger] r.d_name() == x && listed(l, r)) }

/// names, with groups spelled out
pub open spec fn group(e: Seq<char>) -> bool { trim(e) == "ALL"@ || is_cat(trim(e)) }
pub open spec fn gives(e: Seq<char>, x: Seq<char>) -> bool {
    if group(e) { exists|r: Rule| #[trigger] r.d_name() == x && stands(e, r) } else { x == trim(e) }
}
pub open spec fn gives_any(l: Seq<Seq<char>>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && gives(#[trigger] l[i], x) }
pub open spec fn is_name(t: Seq<char>) -> bool { exists|r: Rule| #[trigger] r.d_name() == t }
proof fn lemma_trim_start(s: Seq<char>)
    ensures trim_start(s).len() > 0 ==> !ws(trim_start(s)[0]), trim_start(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && ws(s[0]) { lemma_trim_start(s.drop_first()); } }
proof fn lemma_trim_end(s: Seq<char>)
    ensures trim_end(s).len() > 0 ==> !ws(trim_end(s).last()) && trim_end(s)[0] == s[0], trim_end(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 && ws(s.last()) { lemma_trim_end(s.drop_last()); } }
proof fn lemma_trim_twice(s: Seq<char>)
    ensures trim(trim(s)) == trim(s),
{ lemma_trim_start(s); lemma_trim_end(trim_start(s)); }
proof fn lemma_trim_name(r: Rule)
    ensures trim(r.d_name()) == r.d_name(), r.d_name().len() > 0,
{ lemma_name_clean(r); }
/// the expanded list has only names exactly when the list has only known entries
proof fn lemma_expanded(l: Seq<Seq<char>>, v: Seq<String>)
    requires forall|x: Seq<char>| #[trigger] texts_of(v).contains(x) == gives_any(l, l.len() as int, x),
    ensures all_known(l) == forall|j: int| 0 <= j < v.len() ==> trim((#[trigger] v[j])@).len() > 0 && is_name(trim(v[j]@)),
        forall|r: Rule| texts_of(v).contains(#[trigger] r.d_name()) == listed(l, r),
{
    if all_known(l) {
        assert forall|j: int| 0 <= j < v.len() implies trim((#[trigger] v[j])@).len() > 0 && is_name(trim(v[j]@)) by {
            let x = v[j]@;
            assert(v[j].t() == x);
            assert(texts_of(v).contains(x));
            let i = choose|i: int| 0 <= i < l.len() && gives(#[trigger] l[i], x);
            assert(known(l[i]));
            if group(l[i]) { let r = choose|r: Rule| #[trigger] r.d_name() == x && stands(l[i], r); lemma_trim_name(r); }
            else { lemma_trim_twice(l[i]); let r = choose|r: Rule| #[trigger] r.d_name() == trim(l[i]); lemma_trim_name(r); }
        }
    }
    if forall|j: int| 0 <= j < v.len() ==> trim((#[trigger] v[j])@).len() > 0 && is_name(trim(v[j]@)) {
        assert forall|i: int| 0 <= i < l.len() implies known(#[trigger] l[i]) by {
            if !group(l[i]) {
                let x = trim(l[i]);
                assert(gives(l[i], x));
                assert(texts_of(v).contains(x));
                let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).t() == x;
                assert(v[j]@ == x);
                lemma_trim_twice(l[i]);
                assert(is_name(x));
            }
        }
    }
    assert forall|r: Rule| texts_of(v).contains(#[trigger] r.d_name()) == listed(l, r) by {
        let x = r.d_name();
        if texts_of(v).contains(x) {
            let i = choose|i: int| 0 <= i < l.len() && gives(#[trigger] l[i], x);
            if group(l[i]) { let q = choose|q: Rule| #[trigger] q.d_name() == x && stands(l[i], q); lemma_same_name(q, r); }
            assert(stands(l[i], r));
        }
        if listed(l, r) {
            let i = choose|i: int| 0 <= i < l.len() && stands(#[trigger] l[i], r);
            assert(gives(l[i], x));
        }
    }
}
pub open spec fn same_as(n: Seq<char>) -> spec_fn(String) -> bool { |x: String| x@ == n }
pub broadcast proof fn lemma_any_same(s: Seq<String>, n: Seq<char>)
    ensures #[trigger] any_of(s, same_as(n)) == texts_of(s).contains(n),
{
    if any_of(s, same_as(n)) { let i = choose|i: int| 0 <= i < s.len() && same_as(n)(#[trigger] s[i]); assert(s[i].t() == n); }
    if texts_of(s).contains(n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).t() == n; assert(same_as(n)(s[i])); }
}
pub open spec fn named_in(s: ISet<Seq<char>>) -> spec_fn(Rule) -> bool { |r: Rule| s.contains(r.d_name()) }
/// an item of a filtered list
pub proof fn lemma_filter_has<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: T)
    ensures s.filter(p).contains(x) == (s.contains(x) && p(x)),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_has(d, p, x);
        let f = d.filter(p);
        assert(s =~= d.push(s.last()));
        if s.contains(x) && p(x) {
            if d.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(s.filter(p)[i] == x); }
            else { assert(s.last() == x); assert(s.filter(p).last() == x); }
        }
        if s.filter(p).contains(x) {
            let i = choose|i: int| 0 <= i < s.filter(p).len() && s.filter(p)[i] == x;
            if i < f.len() { assert(f[i] == x); let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); }
        }
    }
}
/// the texts of the names of the rules in a filter of the table
proof fn lemma_texts_of_names(p: spec_fn(Rule) -> bool, f: Seq<&Rule>, v: Seq<String>)
    requires dr(f) == d_all().filter(p), f.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == f[i].d_name(),
    ensures forall|x: Seq<char>| #[trigger] texts_of(v).contains(x) == exists|r: Rule| #[trigger] r.d_name() == x && p(r),
{
    assert forall|x: Seq<char>| #[trigger] texts_of(v).contains(x) == exists|r: Rule| #[trigger] r.d_name() == x && p(r) by {
        if texts_of(v).contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).t() == x;
            assert(v[i]@ == f[i].d_name());
            assert(dr(f)[i] == *f[i]);
            assert(dr(f).contains(*f[i]));
            lemma_filter_has(d_all(), p, *f[i]);
        }
        if exists|r: Rule| #[trigger] r.d_name() == x && p(r) {
            let r = choose|r: Rule| #[trigger] r.d_name() == x && p(r);
            lemma_all_index(r);
            assert(d_all().contains(r));
            lemma_filter_has(d_all(), p, r);
            let i = choose|i: int| 0 <= i < dr(f).len() && dr(f)[i] == r;
            assert(v[i]@ == f[i].d_name());
            assert(v[i].t() == x);
        }
    }
}
/// the set built from the expanded list
proof fn lemma_set(l: Seq<Seq<char>>, e: Seq<String>, f: Seq<&Rule>, v: Seq<String>)
    requires
        forall|x: Seq<char>| #[trigger] texts_of(e).contains(x) == gives_any(l, l.len() as int, x),
        dr(f) == d_all().filter(named_in(texts_of(e))), f.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == f[i].d_name(),
    ensures texts_of(v) == names(l),
{
    lemma_expanded(l, e);
    lemma_texts_of_names(named_in(texts_of(e)), f, v);
    assert(texts_of(v) =~= names(l)) by {
        assert forall|x: Seq<char>| texts_of(v).contains(x) == names(l).contains(x) by {
            if texts_of(v).contains(x) { let r = choose|r: Rule| #[trigger] r.d_name() == x && named_in(texts_of(e))(r); assert(listed(l, r)); }
            if names(l).contains(x) { let r = choose|r: Rule| #[trigger] r.d_name() == x && listed(l, r); assert(named_in(texts_of(e))(r)); }
        }
    }
}

proof fn lemma_groups(c: Seq<&Category>, m: Seq<&str>)
    requires dr(c) == seq![Category::Comm, Category::Corr, Category::Susp, Category::Perf, Category::Read, Category::Testthat],
        c.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@ == cat_text(*c[i]),
    ensures forall|x: Seq<char>| #[trigger] texts_of(m).contains(x) == is_cat(x),
{
    assert(dr(c).len() == 6);
    assert forall|x: Seq<char>| texts_of(m).contains(x) == is_cat(x) by {
        if texts_of(m).contains(x) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).t() == x; assert(m[i]@ == cat_text(*c[i])); }
        if is_cat(x) {
            let d = choose|d: Category| #[trigger] cat_text(d) == x;
            let i: int = match d { Category::Comm => 0, Category::Corr => 1, Category::Susp => 2, Category::Perf => 3, Category::Read => 4, Category::Testthat => 5 };
            assert(dr(c)[i] == d);
            assert(dr(c)[i] == *c[i]);
            assert(m[i]@ == cat_text(*c[i]));
            assert(m[i].t() == x);
        }
    }
}
pub open spec fn all_pass() -> spec_fn(Rule) -> bool { |r: Rule| true }
pub open spec fn of_cat(c: Category) -> spec_fn(Rule) -> bool { |r: Rule| r.d_categories().contains(c) }
pub open spec fn has_named(s: Seq<Rule>, n: int, x: Seq<char>, p: spec_fn(Rule) -> bool) -> bool { exists|i: int| 0 <= i < n && p(#[trigger] s[i]) && s[i].d_name() == x }
proof fn lemma_has_named_step(s: Seq<Rule>, n: int, p: spec_fn(Rule) -> bool)
    requires 0 <= n < s.len(),
    ensures forall|x: Seq<char>| #[trigger] has_named(s, n + 1, x, p) == (has_named(s, n, x, p) || (p(s[n]) && s[n].d_name() == x)),
{
    assert forall|x: Seq<char>| #[trigger] has_named(s, n + 1, x, p) == (has_named(s, n, x, p) || (p(s[n]) && s[n].d_name() == x)) by {
        if has_named(s, n, x, p) { let i = choose|i: int| 0 <= i < n && p(#[trigger] s[i]) && s[i].d_name() == x; assert(p(s[i])); }
    }
}
proof fn lemma_has_named_all(x: Seq<char>, p: spec_fn(Rule) -> bool)
    ensures has_named(d_all(), d_all().len() as int, x, p) == exists|r: Rule| #[trigger] r.d_name() == x && p(r),
{
    if exists|r: Rule| #[trigger] r.d_name() == x && p(r) { let r = choose|r: Rule| #[trigger] r.d_name() == x && p(r); lemma_all_index(r); assert(p(d_all()[r.d_index()])); }
}
proof fn lemma_gives_step(l: Seq<Seq<char>>, k: int)
    requires 0 <= k < l.len(),
    ensures forall|x: Seq<char>| #[trigger] gives_any(l, k + 1, x) == (gives_any(l, k, x) || gives(l[k], x)),
{
    assert forall|x: Seq<char>| #[trigger] gives_any(l, k + 1, x) == (gives_any(l, k, x) || gives(l[k], x)) by {
        if gives_any(l, k, x) { let i = choose|i: int| 0 <= i < k && gives(#[trigger] l[i], x); assert(gives(l[i], x)); }
    }
}
proof fn lemma_gives_all(e: Seq<char>, x: Seq<char>)
    requires trim(e) == "ALL"@,
    ensures gives(e, x) == has_named(d_all(), d_all().len() as int, x, all_pass()),
{
    lemma_has_named_all(x, all_pass());
    if has_named(d_all(), d_all().len() as int, x, all_pass()) { let r = choose|r: Rule| #[trigger] r.d_name() == x && all_pass()(r); assert(stands(e, r)); }
    if gives(e, x) { let r = choose|r: Rule| #[trigger] r.d_name() == x && stands(e, r); assert(all_pass()(r)); }
}
proof fn lemma_gives_cat(e: Seq<char>, c: Category, x: Seq<char>)
    requires trim(e) == cat_text(c), trim(e) != "ALL"@,
    ensures gives(e, x) == has_named(d_all(), d_all().len() as int, x, of_cat(c)),
{
    lemma_has_named_all(x, of_cat(c));
    if has_named(d_all(), d_all().len() as int, x, of_cat(c)) { let r = choose|r: Rule| #[trigger] r.d_name() == x && of_cat(c)(r); assert(stands(e, r)); }
    if gives(e, x) {
        let r = choose|r: Rule| #[trigger] r.d_name() == x && stands(e, r);
        let d = choose|d: Category| #[trigger] cat_text(d) == trim(e) && r.d_categories().contains(d);
        lemma_cat_text(c, d);
        assert(of_cat(c)(r));
    }
}
pub broadcast proof fn lemma_texts_push(v: Seq<String>, s: String, x: Seq<char>)
    ensures #[trigger] texts_of(v.push(s)).contains(x) == (texts_of(v).contains(x) || x == s@),
{
    let w = v.push(s);
    if texts_of(v).contains(x) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).t() == x; assert(w[i].t() == x); }
    if x == s@ { assert(w[v.len() as int].t() == x); }
    if texts_of(w).contains(x) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).t() == x; if i < v.len() { assert(v[i].t() == x); } }
}
pub open spec fn texts_plus(a: Seq<String>, b: Seq<String>, p: spec_fn(Rule) -> bool) -> bool {
    forall|x: Seq<char>| #[trigger] texts_of(b).contains(x) == (texts_of(a).contains(x) || has_named(d_all(), d_all().len() as int, x, p))
}
proof fn lemma_round(l: Seq<Seq<char>>, k: int, a: Seq<String>, b: Seq<String>)
    requires 0 <= k < l.len(),
        forall|x: Seq<char>| #[trigger] texts_of(a).contains(x) == gives_any(l, k, x),
        trim(l[k]) == "ALL"@ ==> texts_plus(a, b, all_pass()),
        trim(l[k]) != "ALL"@ && is_cat(trim(l[k])) ==> exists|c: Category| #[trigger] cat_text(c) == trim(l[k]) && texts_plus(a, b, of_cat(c)),
        trim(l[k]) != "ALL"@ && !is_cat(trim(l[k])) ==> forall|x: Seq<char>| #[trigger] texts_of(b).contains(x) == (texts_of(a).contains(x) || x == trim(l[k])),
    ensures forall|x: Seq<char>| #[trigger] texts_of(b).contains(x) == gives_any(l, k + 1, x),
{
    lemma_gives_step(l, k);
    let e = l[k];
    assert forall|x: Seq<char>| #[trigger] texts_of(b).contains(x) == gives_any(l, k + 1, x) by {
        assert(texts_of(a).contains(x) == gives_any(l, k, x));
        assert(gives_any(l, k + 1, x) == (gives_any(l, k, x) || gives(e, x)));
        if trim(e) == "ALL"@ { lemma_gives_all(e, x); }
        else if is_cat(trim(e)) { let c = choose|c: Category| #[trigger] cat_text(c) == trim(e) && texts_plus(a, b, of_cat(c)); lemma_gives_cat(e, c, x); }
    }
}
//@methods contains to_vec copied filter collect any iter map trim
//@fn crates/jarl-core/src/config.rs replace_group_rules
//@subst `Category::ALL.iter().map(|c| c.as_str()).collect()` => `{ let vx_c = Category::ALL.iter(); let vx_m = vx_c.map(|c| c.as_str()); proof { lemma_groups(vx_c@, vx_m@); } HashSet::from_iter(vx_m) }`
//@closure 0 (c: &Category) -> s: &'static str
    ensures s@ == cat_text(*c),
//@subst `let mut expanded_rules = Vec::new();` => `let mut expanded_rules: Vec<String> = Vec::new(); let ghost l = views(rules_passed_by_user@);`
//@subst `for &rule_or_group in rules_passed_by_user {` => `for vx_rg in rules_passed_by_user { let rule_or_group: &str = *vx_rg;`
//@subst `trimmed == "ALL"` => `vx_same(trimmed, "ALL")`
//@subst `trimmed.parse::<Category>()` => `Category::from_str(trimmed)`
//@ret r
//@contract
    requires all_rules@ == d_all(),
    ensures forall|x: Seq<char>| #[trigger] texts_of(r@).contains(x) == gives_any(views(rules_passed_by_user@), rules_passed_by_user@.len() as int, x),
//@loop 0 it
    invariant it.seq().len() == rules_passed_by_user@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == rules_passed_by_user@[i],
        all_rules@ == d_all(), l == views(rules_passed_by_user@),
        forall|x: Seq<char>| #[trigger] rule_groups_set.texts().contains(x) == is_cat(x),
        forall|x: Seq<char>| #[trigger] texts_of(expanded_rules@).contains(x) == gives_any(l, it.index() as int, x),
//@at loop 0 start
    broadcast use lemma_texts_push;
    let ghost vx_before = expanded_rules@;
    let ghost vx_k = it.index() as int;
//@at loop 1 start
    broadcast use lemma_texts_push;
//@at loop 2 start
    broadcast use lemma_texts_push;
//@loop 1 jt
    invariant all_rules@ == d_all(), jt.seq().len() == all_rules@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == all_rules@[i],
        forall|x: Seq<char>| #[trigger] texts_of(expanded_rules@).contains(x) == (texts_of(vx_before).contains(x) || has_named(all_rules@, jt.index() as int, x, all_pass())),
//@at loop 1 end
    proof { lemma_has_named_step(all_rules@, jt.index() as int, all_pass()); }
//@loop 2 jt
    invariant all_rules@ == d_all(), jt.seq().len() == all_rules@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == all_rules@[i],
        forall|x: Seq<char>| #[trigger] texts_of(expanded_rules@).contains(x) == (texts_of(vx_before).contains(x) || has_named(all_rules@, jt.index() as int, x, of_cat(category))),
//@at loop 2 end
    proof { lemma_has_named_step(all_rules@, jt.index() as int, of_cat(category)); }
//@at loop 0 end
    proof { lemma_round(l, vx_k, vx_before, expanded_rules@); }
//@end
pub open spec fn bad_name() -> spec_fn(String) -> bool { |s: String| trim(s@).len() == 0 || !is_name(trim(s@)) }
proof fn lemma_all_names(c: Seq<&Rule>, m: Seq<&str>)
    requires dr(c) == d_all(), c.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@ == c[i].d_name(),
    ensures forall|x: Seq<char>| #[trigger] texts_of(m).contains(x) == is_name(x),
{
    assert(dr(c).len() == c.len());
    assert forall|x: Seq<char>| #[trigger] texts_of(m).contains(x) == is_name(x) by {
        if texts_of(m).contains(x) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).t() == x; assert(m[i]@ == c[i].d_name()); }
        if is_name(x) {
            let r = choose|r: Rule| #[trigger] r.d_name() == x; lemma_all_index(r);
            let i = r.d_index();
            assert(dr(c)[i] == *c[i]);
            assert(m[i]@ == c[i].d_name());
            assert(m[i].t() == x);
        }
    }
}
proof fn lemma_none_bad(v: Seq<String>, f: Seq<&String>)
    requires dr(f) == v.filter(bad_name()),
    ensures (f.len() == 0) == forall|j: int| 0 <= j < v.len() ==> trim((#[trigger] v[j])@).len() > 0 && is_name(trim(v[j]@)),
{
    assert(dr(f).len() == f.len());
    if f.len() == 0 {
        assert forall|j: int| 0 <= j < v.len() implies trim((#[trigger] v[j])@).len() > 0 && is_name(trim(v[j]@)) by { lemma_filter_has(v, bad_name(), v[j]); assert(v.contains(v[j])); }
    } else {
        let x = dr(f)[0];
        assert(dr(f).contains(x));
        lemma_filter_has(v, bad_name(), x);
        let j = choose|j: int| 0 <= j < v.len() && v[j] == x;
        assert(bad_name()(v[j]));
    }
}
//@fn crates/jarl-core/src/config.rs get_invalid_rules
//@subst `all_rule_names.iter().map(|x| x.name()).collect()` => `{ let vx_c = all_rule_names.iter(); let vx_m = vx_c.map(|x| x.name()); proof { lemma_all_names(vx_c@, vx_m@); } HashSet::from_iter(vx_m) }`
//@closure 0 (x: &Rule) -> s: &'static str
    ensures s@ == x.d_name(),
//@subst `rules_passed_by_user.iter().filter(|rule|` => `{ let vx_f = vx_filter_by(rules_passed_by_user.iter(), Ghost(bad_name()), |rule|`
//@subst `!all_rules_set.contains(trimmed) })` => `!all_rules_set.contains(trimmed) }); proof { lemma_none_bad(rules_passed_by_user@, vx_f@); } vx_f`
//@subst `x.clone() } }).collect();` => `x.clone() } }) };`
//@closure 1 (rule: &&String) -> b: bool
    ensures b == bad_name()(**rule),
//@closure 2 (x: &String) -> s: String
//@ret r
//@contract
    requires all_rule_names@ == d_all(),
    ensures (r is None) == forall|j: int| 0 <= j < rules_passed_by_user@.len() ==> trim((#[trigger] rules_passed_by_user@[j])@).len() > 0 && is_name(trim(rules_passed_by_user@[j]@)),
//@end
