//! Stand-in for biome_formatter: the attachment of comments to nodes.
pub mod comments {
    use biome_rowan::{Direction, Language, NodeOrToken, SyntaxKind, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent};
    use std::collections::HashMap;
    use std::marker::PhantomData;

    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub enum CommentKind { InlineBlock, Block, Line }
    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub enum CommentTextPosition { EndOfLine, SameLine, OwnLine }
    #[derive(Debug, Clone, Eq, PartialEq)]
    pub struct SourceComment<L: Language> { piece: SyntaxTriviaPieceComments<L>, kind: CommentKind, lines_before: u32, lines_after: u32 }
    impl<L: Language> SourceComment<L> {
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
        pub fn kind(&self) -> CommentKind { self.kind }
        pub fn lines_before(&self) -> u32 { self.lines_before }
        pub fn lines_after(&self) -> u32 { self.lines_after }
    }
    #[derive(Debug, Clone)]
    pub struct DecoratedComment<L: Language> {
        enclosing: SyntaxNode<L>, preceding: Option<SyntaxNode<L>>, following: Option<SyntaxNode<L>>, following_token: Option<SyntaxToken<L>>,
        position: CommentTextPosition, lines_before: u32, lines_after: u32, piece: SyntaxTriviaPieceComments<L>, kind: CommentKind,
    }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> { &self.enclosing }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> { self.preceding.as_ref() }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> { self.following.as_ref() }
        pub fn following_token(&self) -> Option<&SyntaxToken<L>> { self.following_token.as_ref() }
        pub fn text_position(&self) -> CommentTextPosition { self.position }
        pub fn lines_before(&self) -> u32 { self.lines_before }
        pub fn lines_after(&self) -> u32 { self.lines_after }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
        pub fn kind(&self) -> CommentKind { self.kind }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
        fn from(c: DecoratedComment<L>) -> Self { SourceComment { piece: c.piece, kind: c.kind, lines_before: c.lines_before, lines_after: c.lines_after } }
    }
    #[derive(Debug)]
    pub enum CommentPlacement<L: Language> {
        Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
        Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
        Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
        Default(DecoratedComment<L>),
    }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { Self::Leading { node, comment: comment.into() } }
        pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { Self::Trailing { node, comment: comment.into() } }
        pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self { Self::Dangling { node, comment: comment.into() } }
    }
    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(_text: &str) -> bool { false }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> { CommentPlacement::Default(comment) }
    }
    #[derive(Debug, Clone)]
    pub struct TransformSourceMap(());

    #[derive(Debug, Default, Clone)]
    struct Parts<L: Language> { leading: Vec<SourceComment<L>>, dangling: Vec<SourceComment<L>>, trailing: Vec<SourceComment<L>> }
    #[derive(Debug, Clone)]
    pub struct Comments<L: Language> { map: HashMap<SyntaxNode<L>, Parts<L>>, l: PhantomData<L> }
    impl<L: Language> Default for Comments<L> { fn default() -> Self { Comments { map: HashMap::new(), l: PhantomData } } }
    impl<L: Language> Comments<L> {
        pub fn from_node<S: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &S, _: Option<&TransformSourceMap>) -> Self {
            let mut b = Builder { style, map: HashMap::new(), pending: vec![], preceding: None, following: None, parents: vec![], last: None };
            for e in root.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(NodeOrToken::Node(n)) => b.enter(n),
                    WalkEvent::Leave(NodeOrToken::Node(n)) => b.leave(n),
                    WalkEvent::Enter(NodeOrToken::Token(t)) => b.token(t),
                    WalkEvent::Leave(NodeOrToken::Token(_)) => {}
                }
            }
            b.flush(None);
            Comments { map: b.map, l: PhantomData }
        }
        pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| &p.leading) }
        pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| &p.trailing) }
        pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.map.get(n).map_or(&[], |p| &p.dangling) }
        pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool { self.map.contains_key(n) }
    }
    struct Builder<'s, L: Language, S> {
        style: &'s S,
        map: HashMap<SyntaxNode<L>, Parts<L>>,
        pending: Vec<DecoratedComment<L>>,
        preceding: Option<SyntaxNode<L>>,
        following: Option<usize>,
        parents: Vec<SyntaxNode<L>>,
        last: Option<SyntaxToken<L>>,
    }
    impl<L: Language, S: CommentStyle<Language = L>> Builder<'_, L, S> {
        fn enter(&mut self, n: SyntaxNode<L>) {
            // lists cannot have comments attached: they are skipped
            if n.kind().is_list() { return }
            // the outermost node that starts at the next token; never the root if it has children
            if self.following.is_none_or(|i| i == 0) {
                self.flush(Some(n.clone()));
                self.following = Some(self.parents.len());
            }
            self.parents.push(n);
        }
        fn leave(&mut self, n: SyntaxNode<L>) {
            if n.kind().is_list() { return }
            self.parents.pop();
            self.following = None;
            self.flush(None);
            self.preceding = Some(n);
        }
        fn token(&mut self, t: SyntaxToken<L>) {
            let enclosing = match self.following { Some(i) if i > 0 => self.parents[i - 1].clone(), Some(_) => self.parents[0].clone(), None => self.parents.last().unwrap().clone() };
            let preceding = self.preceding.clone();
            let mut got: Vec<DecoratedComment<L>> = vec![];
            let mut lines = 0;
            let mut position = CommentTextPosition::SameLine;
            let mut trailing = 0;
            let add = |got: &mut Vec<DecoratedComment<L>>, c: SyntaxTriviaPieceComments<L>, lines: u32, position| {
                got.push(DecoratedComment { enclosing: enclosing.clone(), preceding: preceding.clone(), following: None, following_token: Some(t.clone()), position, lines_before: lines, lines_after: 0, kind: S::get_comment_kind(&c), piece: c });
            };
            if let Some(l) = self.last.take() {
                for p in l.trailing_trivia().pieces() {
                    if p.is_newline() { lines += 1 } else if let Some(c) = p.as_comments() { add(&mut got, c, lines, CommentTextPosition::SameLine); trailing += 1; lines = 0; }
                }
            } else {
                // the start of the file
                position = CommentTextPosition::OwnLine;
            }
            for p in t.leading_trivia().pieces() {
                if p.is_newline() {
                    lines += 1;
                    for c in &mut got[..trailing] { c.position = CommentTextPosition::EndOfLine }
                    trailing = 0;
                    position = CommentTextPosition::OwnLine;
                    if let Some(c) = got.last_mut() { c.lines_after += 1 }
                } else if let Some(c) = p.as_comments() {
                    add(&mut got, c, lines, position);
                    lines = 0;
                }
            }
            self.last = Some(t);
            self.pending.append(&mut got);
            if let Some(i) = self.following.take() {
                let f = self.parents[i].clone();
                self.flush(Some(f));
                // a node starts here: there is no preceding node inside it
                self.preceding = None;
            }
        }
        fn flush(&mut self, following: Option<SyntaxNode<L>>) {
            for mut c in std::mem::take(&mut self.pending) {
                c.following = following.clone();
                match self.style.place_comment(c) {
                    CommentPlacement::Leading { node, comment } => self.map.entry(node).or_insert_with(Parts::empty).leading.push(comment),
                    CommentPlacement::Trailing { node, comment } => self.map.entry(node).or_insert_with(Parts::empty).trailing.push(comment),
                    CommentPlacement::Dangling { node, comment } => self.map.entry(node).or_insert_with(Parts::empty).dangling.push(comment),
                    CommentPlacement::Default(c) => self.default(c),
                }
            }
        }
        fn default(&mut self, c: DecoratedComment<L>) {
            let (p, f, e) = (c.preceding.clone(), c.following.clone(), c.enclosing.clone());
            let lead_first = c.position == CommentTextPosition::OwnLine;
            let (node, lead) = match (p, f) {
                (_, Some(f)) if lead_first => (f, Some(true)),
                (Some(p), None) => (p, Some(false)),
                (None, Some(f)) => (f, Some(true)),
                (Some(p), Some(_)) => (p, Some(false)),
                (None, None) => (e, None),
            };
            let parts = self.map.entry(node).or_insert_with(Parts::empty);
            match lead { Some(true) => parts.leading.push(c.into()), Some(false) => parts.trailing.push(c.into()), None => parts.dangling.push(c.into()) }
        }
    }
    impl<L: Language> Parts<L> { fn empty() -> Self { Parts { leading: vec![], dangling: vec![], trailing: vec![] } } }
}
