//! stand-in for biome_formatter::comments (not available here), as far as the code under test uses it
#![allow(clippy::all)]
pub mod comments {
    use biome_rowan::*;
    use std::collections::HashMap;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CommentKind { InlineBlock, Block, Line }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CommentTextPosition { EndOfLine, OwnLine, SameLine }
    #[derive(Clone, Debug)]
    pub struct DecoratedComment<L: Language> { enclosing: SyntaxNode<L>, preceding: Option<SyntaxNode<L>>, following: Option<SyntaxNode<L>>, piece: SyntaxTriviaPieceComments<L>, position: CommentTextPosition, token_end: TextSize }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> { &self.enclosing }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> { self.preceding.as_ref() }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> { self.following.as_ref() }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
        pub fn text_position(&self) -> CommentTextPosition { self.position }
    }
    #[derive(Clone, Debug)]
    pub struct SourceComment<L: Language> { piece: SyntaxTriviaPieceComments<L> }
    impl<L: Language> SourceComment<L> { pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece } }
    pub enum CommentPlacement<L: Language> { Leading { node: SyntaxNode<L>, comment: SourceComment<L> }, Trailing { node: SyntaxNode<L>, comment: SourceComment<L> }, Dangling { node: SyntaxNode<L>, comment: SourceComment<L> }, Default(DecoratedComment<L>) }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Leading { node, comment: c.into() } }
        pub fn trailing(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Trailing { node, comment: c.into() } }
        pub fn dangling(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { CommentPlacement::Dangling { node, comment: c.into() } }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> { fn from(c: DecoratedComment<L>) -> Self { SourceComment { piece: c.piece } } }
    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(_text: &str) -> bool { false }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> { CommentPlacement::Default(comment) }
    }
    #[derive(Debug)]
    pub struct Comments<L: Language> { l: HashMap<usize, Vec<SourceComment<L>>>, t: HashMap<usize, Vec<SourceComment<L>>>, d: HashMap<usize, Vec<SourceComment<L>>> }
    impl<L: Language> Default for Comments<L> { fn default() -> Self { Comments { l: HashMap::new(), t: HashMap::new(), d: HashMap::new() } } }
    impl<L: Language> Comments<L> {
        pub fn from_node<S: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &S, _m: Option<()>) -> Self {
            let mut b = Builder { parents: vec![], preceding: None, following: None, last: None, out: vec![] };
            b.visit(root);
            let mut c = Comments::default();
            for x in b.out {
                let (node, comment, to) = match style.place_comment(x) {
                    CommentPlacement::Leading { node, comment } => (node, comment, 0),
                    CommentPlacement::Trailing { node, comment } => (node, comment, 1),
                    CommentPlacement::Dangling { node, comment } => (node, comment, 2),
                    CommentPlacement::Default(x) => match (x.position, x.preceding.clone(), x.following.clone()) {
                        (CommentTextPosition::OwnLine, _, Some(f)) => (f, x.into(), 0),
                        (CommentTextPosition::OwnLine, Some(p), None) => (p, x.into(), 1),
                        (_, Some(p), Some(f)) => if p.text_range().end() == x.token_end { (p, x.into(), 1) } else { (f, x.into(), 0) },
                        (_, Some(p), None) => (p, x.into(), 1),
                        (_, None, Some(f)) => (f, x.into(), 0),
                        (_, None, None) => (x.enclosing.clone(), x.into(), 2),
                    },
                };
                [&mut c.l, &mut c.t, &mut c.d][to].entry(node.i).or_default().push(comment);
            }
            c
        }
        pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.l.get(&n.i).map_or(&[], |v| v) }
        pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.t.get(&n.i).map_or(&[], |v| v) }
        pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.d.get(&n.i).map_or(&[], |v| v) }
        pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool { self.l.contains_key(&n.i) || self.t.contains_key(&n.i) || self.d.contains_key(&n.i) }
    }
    struct Builder<L: Language> { parents: Vec<SyntaxNode<L>>, preceding: Option<SyntaxNode<L>>, following: Option<usize>, last: Option<SyntaxToken<L>>, out: Vec<DecoratedComment<L>> }
    impl<L: Language> Builder<L> {
        fn visit(&mut self, n: &SyntaxNode<L>) {
            // lists cannot have comments
            let list = L::is_list(n.kind().into());
            if !list {
                if self.following.is_none() || self.following == Some(0) { self.following = Some(self.parents.len()); }
                self.parents.push(n.clone());
            }
            for e in n.children_with_tokens() {
                match e { NodeOrToken::Node(c) => self.visit(&c), NodeOrToken::Token(t) => self.token(t) }
            }
            if !list {
                self.parents.pop();
                // a node that has no tokens was not passed
                if n.first_token().is_some() { self.preceding = Some(n.clone()); }
                self.following = None;
            }
        }
        fn token(&mut self, t: SyntaxToken<L>) {
            let f = self.following.take();
            let (enclosing, following) = match f {
                Some(k) if k > 0 => (self.parents[k - 1].clone(), Some(self.parents[k].clone())),
                Some(_) => (self.parents[0].clone(), Some(self.parents[0].clone())),
                None => (self.parents.last().unwrap().clone(), None),
            };
            let mut add = |k: &SyntaxToken<L>, s: usize, e: usize, position| self.out.push(DecoratedComment { enclosing: enclosing.clone(), preceding: self.preceding.clone(), following: following.clone(), piece: SyntaxTriviaPieceComments { t: k.t.clone(), s, e, l: std::marker::PhantomData }, position, token_end: k.text_range().end() });
            if let Some(l) = &self.last {
                for p in &l.d().trailing { if p.0 == Trivia::Comment { add(l, p.1, p.2, CommentTextPosition::EndOfLine); } }
            }
            for p in &t.d().leading { if p.0 == Trivia::Comment { add(&t, p.1, p.2, CommentTextPosition::OwnLine); } }
            self.last = Some(t);
            self.preceding = None;
        }
    }
}
