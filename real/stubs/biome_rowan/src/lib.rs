//! stand-in for biome_rowan (not available here), as far as the code under test uses it: a lossless syntax tree
#![allow(dead_code, clippy::all)]
use serde::{Deserialize, Serialize};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct TextSize(pub u32);
impl From<u32> for TextSize { fn from(x: u32) -> Self { TextSize(x) } }
impl From<TextSize> for u32 { fn from(x: TextSize) -> u32 { x.0 } }
impl From<TextSize> for usize { fn from(x: TextSize) -> usize { x.0 as usize } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(x: usize) -> Result<Self, Self::Error> { Ok(TextSize(u32::try_from(x)?)) } }
impl std::ops::Add for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize(self.0 + o.0) } }
impl std::ops::Sub for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize(self.0 - o.0) } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TextRange { s: TextSize, e: TextSize }
impl Serialize for TextRange { fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { (self.s, self.e).serialize(z) } }
impl<'de> Deserialize<'de> for TextRange { fn deserialize<D: serde::Deserializer<'de>>(z: D) -> Result<Self, D::Error> { let (s, e) = Deserialize::deserialize(z)?; Ok(TextRange::new(s, e)) } }
impl TextRange {
    pub fn new(s: TextSize, e: TextSize) -> Self { assert!(s <= e); TextRange { s, e } }
    pub fn at(s: TextSize, len: TextSize) -> Self { TextRange::new(s, s + len) }
    pub fn empty(s: TextSize) -> Self { TextRange { s, e: s } }
    pub fn up_to(e: TextSize) -> Self { TextRange { s: TextSize(0), e } }
    pub fn start(self) -> TextSize { self.s }
    pub fn end(self) -> TextSize { self.e }
    pub fn len(self) -> TextSize { self.e - self.s }
    pub fn is_empty(self) -> bool { self.s == self.e }
    pub fn contains(self, o: TextSize) -> bool { self.s <= o && o < self.e }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.s <= o && o <= self.e }
    pub fn contains_range(self, o: TextRange) -> bool { self.s <= o.s && o.e <= self.e }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> { let s = self.s.max(o.s); let e = self.e.min(o.e); if e < s { None } else { Some(TextRange { s, e }) } }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange { s: self.s.min(o.s), e: self.e.max(o.e) } }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering { if self.e <= o.s { std::cmp::Ordering::Less } else if o.e <= self.s { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { s: TextSize(self.s.0.checked_add(o.0)?), e: TextSize(self.e.0.checked_add(o.0)?) }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { s: TextSize(self.s.0.checked_sub(o.0)?), e: TextSize(self.e.0.checked_sub(o.0)?) }) }
}
impl std::ops::Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { TextRange { s: self.s + o, e: self.e + o } } }
impl std::ops::Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { TextRange { s: self.s - o, e: self.e - o } } }
impl std::ops::AddAssign for TextSize { fn add_assign(&mut self, o: TextSize) { self.0 += o.0 } }
impl TextSize { pub fn of(s: &str) -> TextSize { TextSize(s.len() as u32) } }
impl std::fmt::Display for TextSize { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
use std::fmt;
use std::marker::PhantomData;
use std::sync::Arc;

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + std::hash::Hash + Default { type Kind: Copy + PartialEq + fmt::Debug + From<u16> + Into<u16>; fn is_list(k: u16) -> bool; }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SyntaxError { MissingRequiredChild }
impl fmt::Display for SyntaxError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("missing required child") } }
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Elem { Node(usize), Token(usize) }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Trivia { Newline, Whitespace, Comment }
#[derive(Debug, Clone)]
pub struct NodeData { pub kind: u16, pub parent: Option<usize>, pub slots: Vec<Option<Elem>>, pub at: usize, pub first: Option<usize>, pub last: Option<usize> }
/// text[lead..start] is the leading trivia, text[start..end] the token, text[end..trail] the trailing trivia
#[derive(Debug, Clone)]
pub struct TokenData { pub kind: u16, pub parent: usize, pub lead: usize, pub start: usize, pub end: usize, pub trail: usize, pub leading: Vec<(Trivia, usize, usize)>, pub trailing: Vec<(Trivia, usize, usize)> }
#[derive(Debug, Default)]
pub struct Tree { pub text: String, pub nodes: Vec<NodeData>, pub tokens: Vec<TokenData>, pub root: usize }
impl Tree {
    /// parents, first and last tokens, from the slots
    pub fn finish(&mut self) {
        let r = self.root;
        self.fix(r, None, &mut 0);
    }
    fn fix(&mut self, n: usize, parent: Option<usize>, pos: &mut usize) {
        self.nodes[n].parent = parent;
        self.nodes[n].at = *pos;
        let (mut first, mut last) = (None, None);
        for k in 0..self.nodes[n].slots.len() {
            let (f, l) = match self.nodes[n].slots[k] {
                None => continue,
                Some(Elem::Token(t)) => { self.tokens[t].parent = n; *pos = self.tokens[t].trail; (Some(t), Some(t)) }
                Some(Elem::Node(c)) => { self.fix(c, Some(n), pos); (self.nodes[c].first, self.nodes[c].last) }
            };
            if first.is_none() { first = f; }
            if l.is_some() { last = l; }
        }
        self.nodes[n].first = first;
        self.nodes[n].last = last;
    }
}

fn range(s: usize, e: usize) -> TextRange { TextRange::new(TextSize(s as u32), TextSize(e as u32)) }

pub struct SyntaxNode<L> { pub t: Arc<Tree>, pub i: usize, pub l: PhantomData<L> }
impl<L> Clone for SyntaxNode<L> { fn clone(&self) -> Self { SyntaxNode { t: self.t.clone(), i: self.i, l: PhantomData } } }
impl<L> PartialEq for SyntaxNode<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.t, &o.t) && self.i == o.i } }
impl<L> Eq for SyntaxNode<L> {}
impl<L> std::hash::Hash for SyntaxNode<L> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.i.hash(h) } }
impl<L: Language> fmt::Debug for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}@{:?}", self.kind(), self.text_range()) } }
impl<L: Language> fmt::Display for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let r = self.text_range(); f.write_str(&self.t.text[us(r)]) } }
/// text of a node or of a token
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TokenText(String);
pub type Text = TokenText;
pub type SyntaxNodeText = TokenText;
impl TokenText {
    pub fn text(&self) -> &str { &self.0 }
    pub fn len(&self) -> TextSize { TextSize(self.0.len() as u32) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.0.contains(c) }
}
impl std::ops::Deref for TokenText { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl std::borrow::Borrow<str> for TokenText { fn borrow(&self) -> &str { &self.0 } }
impl AsRef<str> for TokenText { fn as_ref(&self) -> &str { &self.0 } }
impl fmt::Display for TokenText { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl PartialEq<str> for TokenText { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for TokenText { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl PartialEq<String> for TokenText { fn eq(&self, o: &String) -> bool { self.0 == *o } }
impl PartialEq<TokenText> for str { fn eq(&self, o: &TokenText) -> bool { self == o.0 } }
impl PartialEq<TokenText> for &str { fn eq(&self, o: &TokenText) -> bool { *self == o.0 } }

impl<L: Language> SyntaxNode<L> {
    pub fn new(t: Arc<Tree>, i: usize) -> Self { SyntaxNode { t, i, l: PhantomData } }
    fn d(&self) -> &NodeData { &self.t.nodes[self.i] }
    fn n(&self, i: usize) -> Self { SyntaxNode::new(self.t.clone(), i) }
    fn tok(&self, i: usize) -> SyntaxToken<L> { SyntaxToken { t: self.t.clone(), i, l: PhantomData } }
    fn el(&self, e: Elem) -> SyntaxElement<L> { match e { Elem::Node(i) => NodeOrToken::Node(self.n(i)), Elem::Token(i) => NodeOrToken::Token(self.tok(i)) } }
    pub fn kind(&self) -> L::Kind { self.d().kind.into() }
    pub fn text_range(&self) -> TextRange { let d = self.d(); match (d.first, d.last) { (Some(f), Some(l)) => range(self.t.tokens[f].lead, self.t.tokens[l].trail), _ => range(d.at, d.at) } }
    pub fn text_range_with_trivia(&self) -> TextRange { self.text_range() }
    pub fn text_trimmed_range(&self) -> TextRange { let d = self.d(); match (d.first, d.last) { (Some(f), Some(l)) => { let s = self.t.tokens[f].start; range(s, self.t.tokens[l].end.max(s)) } _ => range(d.at, d.at) } }
    pub fn text_trimmed(&self) -> TokenText { TokenText(self.t.text[us(self.text_trimmed_range())].to_string()) }
    pub fn text_with_trivia(&self) -> TokenText { TokenText(self.to_string()) }
    pub fn text(&self) -> TokenText { self.text_with_trivia() }
    pub fn parent(&self) -> Option<Self> { self.d().parent.map(|p| self.n(p)) }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> + use<L> { let mut c = Some(self.clone()); std::iter::from_fn(move || { let x = c.take()?; c = x.parent(); Some(x) }) }
    pub fn children_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { let v: Vec<_> = self.d().slots.iter().flatten().map(|e| self.el(*e)).collect(); v.into_iter() }
    pub fn children(&self) -> impl Iterator<Item = Self> + use<L> { self.children_with_tokens().filter_map(|e| e.into_node()) }
    pub fn first_child(&self) -> Option<Self> { self.children().next() }
    pub fn last_child(&self) -> Option<Self> { self.children().last() }
    pub fn descendants(&self) -> impl Iterator<Item = Self> + use<L> { let mut v = vec![]; self.walk(&mut v); v.into_iter() }
    fn walk(&self, v: &mut Vec<Self>) { v.push(self.clone()); for c in self.children() { c.walk(v); } }
    pub fn descendants_tokens(&self, _d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> { let d = self.d(); let v: Vec<_> = match (d.first, d.last) { (Some(f), Some(l)) => (f..=l).map(|i| self.tok(i)).collect(), _ => vec![] }; v.into_iter() }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { self.d().first.map(|i| self.tok(i)) }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { self.d().last.map(|i| self.tok(i)) }
    pub fn slot(&self, k: usize) -> Option<SyntaxElement<L>> { self.d().slots.get(k).copied().flatten().map(|e| self.el(e)) }
    fn beside(&self, e: Elem, parent: Option<usize>, ahead: bool) -> Option<SyntaxElement<L>> {
        let s: Vec<Elem> = self.t.nodes[parent?].slots.iter().flatten().copied().collect();
        let k = s.iter().position(|x| *x == e)?;
        let j = if ahead { k + 1 } else { k.checked_sub(1)? };
        s.get(j).map(|e| self.el(*e))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.beside(Elem::Node(self.i), self.d().parent, false) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.beside(Elem::Node(self.i), self.d().parent, true) }
    pub fn prev_sibling(&self) -> Option<Self> { let p = self.parent()?; let v: Vec<_> = p.children().collect(); let k = v.iter().position(|x| x == self)?; v.get(k.checked_sub(1)?).cloned() }
    pub fn next_sibling(&self) -> Option<Self> { let p = self.parent()?; let v: Vec<_> = p.children().collect(); let k = v.iter().position(|x| x == self)?; v.get(k + 1).cloned() }
    pub fn index(&self) -> usize { self.parent().and_then(|p| p.d().slots.iter().position(|x| *x == Some(Elem::Node(self.i)))).unwrap_or(0) }
    pub fn covering_element(&self, r: TextRange) -> SyntaxElement<L> {
        let mut n = self.clone();
        'up: loop {
            for e in n.children_with_tokens() {
                if e.text_range().contains_range(r) { match e { NodeOrToken::Node(c) => { n = c; continue 'up; } t => return t } }
            }
            return NodeOrToken::Node(n);
        }
    }
    fn comments_in(&self, f: impl Fn(usize) -> (bool, bool)) -> bool { let d = self.d(); match (d.first, d.last) { (Some(a), Some(b)) => (a..=b).any(|k| { let (l, t) = f(k); let x = &self.t.tokens[k]; (l && x.leading.iter().any(|p| p.0 == Trivia::Comment)) || (t && x.trailing.iter().any(|p| p.0 == Trivia::Comment)) }), _ => false } }
    pub fn has_leading_comments(&self) -> bool { let f = self.d().first; self.comments_in(|k| (Some(k) == f, false)) }
    pub fn has_trailing_comments(&self) -> bool { let l = self.d().last; self.comments_in(|k| (false, Some(k) == l)) }
    /// comments of tokens of its own
    pub fn has_comments_direct(&self) -> bool { self.d().first.is_some() && { let (f, l) = (self.d().first, self.d().last); self.comments_in(|k| (Some(k) == f, Some(k) == l)) || self.d().slots.iter().flatten().any(|e| matches!(e, Elem::Token(k) if { let x = &self.t.tokens[*k]; x.leading.iter().chain(&x.trailing).any(|p| p.0 == Trivia::Comment) })) } }
    pub fn has_comments_descendants(&self) -> bool { self.descendants().skip(1).any(|c| c.has_comments_direct()) }
}
pub enum Direction { Next, Prev }

pub struct SyntaxToken<L> { pub t: Arc<Tree>, pub i: usize, pub l: PhantomData<L> }
impl<L> Clone for SyntaxToken<L> { fn clone(&self) -> Self { SyntaxToken { t: self.t.clone(), i: self.i, l: PhantomData } } }
impl<L> PartialEq for SyntaxToken<L> { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.t, &o.t) && self.i == o.i } }
impl<L> Eq for SyntaxToken<L> {}
impl<L: Language> fmt::Debug for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}@{:?}", self.kind(), self.text_range()) } }
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.text()) } }
impl<L: Language> SyntaxToken<L> {
    pub fn d(&self) -> &TokenData { &self.t.tokens[self.i] }
    pub fn kind(&self) -> L::Kind { self.d().kind.into() }
    pub fn text(&self) -> &str { let d = self.d(); &self.t.text[d.lead..d.trail] }
    pub fn text_trimmed(&self) -> &str { let d = self.d(); &self.t.text[d.start..d.end] }
    pub fn token_text_trimmed(&self) -> TokenText { TokenText(self.text_trimmed().to_string()) }
    pub fn token_text(&self) -> TokenText { TokenText(self.text().to_string()) }
    pub fn text_range(&self) -> TextRange { let d = self.d(); range(d.lead, d.trail) }
    pub fn text_trimmed_range(&self) -> TextRange { let d = self.d(); range(d.start, d.end) }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { Some(SyntaxNode::new(self.t.clone(), self.d().parent)) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.parent().unwrap().ancestors() }
    fn node(&self) -> SyntaxNode<L> { SyntaxNode::new(self.t.clone(), self.d().parent) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.node().beside(Elem::Token(self.i), Some(self.d().parent), false) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.node().beside(Elem::Token(self.i), Some(self.d().parent), true) }
    pub fn prev_token(&self) -> Option<Self> { Some(SyntaxToken { t: self.t.clone(), i: self.i.checked_sub(1)?, l: PhantomData }) }
    pub fn next_token(&self) -> Option<Self> { if self.i + 1 < self.t.tokens.len() { Some(SyntaxToken { t: self.t.clone(), i: self.i + 1, l: PhantomData }) } else { None } }
    pub fn has_leading_comments(&self) -> bool { self.d().leading.iter().any(|p| p.0 == Trivia::Comment) }
    pub fn has_trailing_comments(&self) -> bool { self.d().trailing.iter().any(|p| p.0 == Trivia::Comment) }
    pub fn has_leading_newline(&self) -> bool { self.d().leading.iter().any(|p| p.0 == Trivia::Newline) }
}

#[derive(Clone, PartialEq, Eq)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<T> { match self { NodeOrToken::Token(n) => Some(n), _ => None } }
    pub fn as_node(&self) -> Option<&N> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&T> { match self { NodeOrToken::Token(n) => Some(n), _ => None } }
}
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(n) => n.kind() } }
    pub fn text_range(&self) -> TextRange { match self { NodeOrToken::Node(n) => n.text_range(), NodeOrToken::Token(n) => n.text_range() } }
    pub fn text_trimmed_range(&self) -> TextRange { match self { NodeOrToken::Node(n) => n.text_trimmed_range(), NodeOrToken::Token(n) => n.text_trimmed_range() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { NodeOrToken::Node(n) => n.parent(), NodeOrToken::Token(n) => n.parent() } }
}

/// a comment, as a piece of trivia
pub struct SyntaxTriviaPieceComments<L> { pub t: Arc<Tree>, pub s: usize, pub e: usize, pub l: PhantomData<L> }
impl<L> Clone for SyntaxTriviaPieceComments<L> { fn clone(&self) -> Self { SyntaxTriviaPieceComments { t: self.t.clone(), s: self.s, e: self.e, l: PhantomData } } }
impl<L> fmt::Debug for SyntaxTriviaPieceComments<L> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.text()) } }
impl<L> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str { &self.t.text[self.s..self.e] }
    pub fn text_range(&self) -> TextRange { range(self.s, self.e) }
}

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(k: <Self::Language as Language>::Kind) -> bool;
    fn cast(n: SyntaxNode<Self::Language>) -> Option<Self>;
    fn cast_ref(n: &SyntaxNode<Self::Language>) -> Option<Self> { Self::cast(n.clone()) }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
    fn try_cast(n: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> { Self::cast_ref(&n).ok_or(n) }
    fn to_trimmed_text(&self) -> TokenText { self.syntax().text_trimmed() }
    fn to_trimmed_string(&self) -> String { self.syntax().text_trimmed().0 }
    fn text(&self) -> String { self.to_trimmed_string() }
    fn range(&self) -> TextRange { self.syntax().text_trimmed_range() }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { self.syntax().parent().and_then(T::cast) }
}
/// a list of nodes
pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<Self::Node> { self.syntax_list().children().filter_map(Self::Node::cast).collect::<Vec<_>>().into_iter() }
    fn len(&self) -> usize { self.iter().len() }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn first(&self) -> Option<Self::Node> { self.iter().next() }
    fn last(&self) -> Option<Self::Node> { self.iter().last() }
}
/// a list of nodes between which there are tokens
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> std::vec::IntoIter<SyntaxResult<Self::Node>> { self.syntax_list().children().filter_map(Self::Node::cast).map(Ok).collect::<Vec<_>>().into_iter() }
    fn len(&self) -> usize { self.iter().len() }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().next() }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().last() }
}
pub trait AstNodeListExt {}
fn us(r: TextRange) -> std::ops::Range<usize> { r.start().0 as usize..r.end().0 as usize }
