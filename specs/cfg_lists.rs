// the functions that turn lists of entries into sets of rule names
pub open spec fn given(s: Seq<char>) -> Option<Seq<Seq<char>>> { if s.len() == 0 { None } else { Some(split(s, ',')) } }
pub open spec fn given_list(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match o { None => None, Some(v) => Some(sviews(v@)) } }
pub open spec fn opt_ok(o: Option<Seq<Seq<char>>>) -> bool { match o { None => true, Some(l) => all_known(l) } }
pub open spec fn opt_names(o: Option<Seq<Seq<char>>>) -> Option<ISet<Seq<char>>> { match o { None => None, Some(l) => Some(names(l)) } }
pub open spec fn some_names(o: Option<Seq<Seq<char>>>) -> ISet<Seq<char>> { match o { None => ISet::empty(), Some(l) => names(l) } }
pub open spec fn opt_texts(o: Option<HashSet<String>>) -> Option<ISet<Seq<char>>> { match o { None => None, Some(h) => Some(h.texts()) } }
proof fn lemma_views(v: Seq<&str>, e: Seq<String>)
    requires v.len() == e.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == e[i]@,
    ensures views(v) == sviews(e),
{ assert(views(v) =~= sviews(e)); }
