//! Stand-in for biome_rowan: a lossless syntax tree with the part of its interface that jarl uses.
//! The tree is immutable and built once by the parser; nodes are handles into it.
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Deref, Range, Sub, SubAssign};
use std::rc::Rc;

// ------------------------------------------------------------------ text sizes and ranges
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }
impl TextSize {
    pub const fn new(raw: u32) -> Self { TextSize { raw } }
    pub fn of<T: AsRef<str>>(t: T) -> Self { TextSize::try_from(t.as_ref().len()).unwrap() }
    pub fn checked_add(self, o: Self) -> Option<Self> { self.raw.checked_add(o.raw).map(Self::new) }
    pub fn checked_sub(self, o: Self) -> Option<Self> { self.raw.checked_sub(o.raw).map(Self::new) }
}
impl fmt::Debug for TextSize { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) } }
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> u32 { v.raw } }
impl From<TextSize> for usize { fn from(v: TextSize) -> usize { v.raw as usize } }
impl TryFrom<usize> for TextSize { type Error = std::num::TryFromIntError; fn try_from(v: usize) -> Result<Self, Self::Error> { Ok(u32::try_from(v)?.into()) } }
impl Add for TextSize { type Output = Self; fn add(self, o: Self) -> Self { Self::new(self.raw + o.raw) } }
impl Sub for TextSize { type Output = Self; fn sub(self, o: Self) -> Self { Self::new(self.raw - o.raw) } }
impl AddAssign for TextSize { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for TextSize { fn sub_assign(&mut self, o: Self) { *self = *self - o } }

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct TextRange { start: TextSize, end: TextSize }
impl fmt::Debug for TextRange { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}..{}", self.start.raw, self.end.raw) } }
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> Self { assert!(start <= end); TextRange { start, end } }
    pub fn at(offset: TextSize, len: TextSize) -> Self { Self::new(offset, offset + len) }
    pub fn empty(offset: TextSize) -> Self { Self::new(offset, offset) }
    pub fn up_to(end: TextSize) -> Self { Self::new(0.into(), end) }
    pub fn start(self) -> TextSize { self.start }
    pub fn end(self) -> TextSize { self.end }
    pub fn len(self) -> TextSize { self.end - self.start }
    pub fn is_empty(self) -> bool { self.start == self.end }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> bool { self.start <= o.start && o.end <= self.end }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let (s, e) = (self.start.max(o.start), self.end.min(o.end));
        (s <= e).then(|| TextRange::new(s, e))
    }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange::new(self.start.min(o.start), self.end.max(o.end)) }
    pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if self.end <= o.start { Less } else if o.end <= self.start { Greater } else { Equal }
    }
    pub fn checked_add(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_add(o)?, end: self.end.checked_add(o)? }) }
    pub fn checked_sub(self, o: TextSize) -> Option<TextRange> { Some(TextRange { start: self.start.checked_sub(o)?, end: self.end.checked_sub(o)? }) }
    pub fn add_start(self, a: TextSize) -> TextRange { TextRange::new(self.start + a, self.end) }
    pub fn sub_start(self, a: TextSize) -> TextRange { TextRange::new(self.start - a, self.end) }
    pub fn add_end(self, a: TextSize) -> TextRange { TextRange::new(self.start, self.end + a) }
    pub fn sub_end(self, a: TextSize) -> TextRange { TextRange::new(self.start, self.end - a) }
}
impl Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { self.checked_add(o).expect("overflow") } }
impl Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { self.checked_sub(o).expect("overflow") } }
impl From<TextRange> for Range<usize> { fn from(r: TextRange) -> Range<usize> { r.start.into()..r.end.into() } }
impl std::ops::Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl std::ops::Index<TextRange> for String { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }

impl PartialOrd for TextRange { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for TextRange { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (self.start, self.end).cmp(&(o.start, o.end)) } }
impl serde::Serialize for TextSize { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.raw.serialize(s) } }
impl<'de> serde::Deserialize<'de> for TextSize { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(TextSize::from) } }
impl serde::Serialize for TextRange { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (self.start, self.end).serialize(s) } }
impl<'de> serde::Deserialize<'de> for TextRange {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (a, b) = <(TextSize, TextSize)>::deserialize(d)?;
        if a > b { return Err(serde::de::Error::custom("invalid range")) }
        Ok(TextRange::new(a, b))
    }
}

/// Lengths of texts.
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &str { fn text_len(self) -> TextSize { TextSize::of(self) } }
impl TextLen for &String { fn text_len(self) -> TextSize { TextSize::of(self) } }
impl TextLen for char { fn text_len(self) -> TextSize { TextSize::new(self.len_utf8() as u32) } }

// ------------------------------------------------------------------ languages
pub trait SyntaxKind: fmt::Debug + PartialEq + Copy {
    fn to_raw(&self) -> u16;
    fn from_raw(raw: u16) -> Self;
    fn is_list(&self) -> bool;
    fn is_bogus(&self) -> bool { false }
    fn is_root(&self) -> bool { false }
}
pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + Hash {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

// ------------------------------------------------------------------ the tree
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool { matches!(self, Self::Newline) }
    pub fn is_whitespace(&self) -> bool { matches!(self, Self::Whitespace) }
    pub fn is_comment(&self) -> bool { matches!(self, Self::SingleLineComment | Self::MultiLineComment) }
    pub fn is_single_line_comment(&self) -> bool { matches!(self, Self::SingleLineComment) }
    pub fn is_multiline_comment(&self) -> bool { matches!(self, Self::MultiLineComment) }
    pub fn is_skipped(&self) -> bool { matches!(self, Self::Skipped) }
}
#[derive(Copy, Clone, Debug)]
pub struct TriviaPiece { pub kind: TriviaPieceKind, pub length: u32 }
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Slot { Empty, Node(u32), Token(u32) }
#[derive(Debug)]
struct NodeData { kind: u16, parent: Option<u32>, index: u32, slots: Vec<Slot>, start: u32, end: u32, tstart: u32, tend: u32 }
#[derive(Debug)]
struct TokenData { kind: u16, parent: u32, index: u32, start: u32, end: u32, tstart: u32, tend: u32, leading: Vec<TriviaPiece>, trailing: Vec<TriviaPiece>, n: u32 }
#[derive(Debug)]
pub struct Tree { text: String, nodes: Vec<NodeData>, tokens: Vec<TokenData>, order: Vec<u32>, root: u32 }

/// Builds a tree bottom up: tokens in source order, then nodes over slots.
#[derive(Debug, Default)]
pub struct TreeBuilder { nodes: Vec<NodeData>, tokens: Vec<TokenData>, pos: u32 }
impl TreeBuilder {
    pub fn token(&mut self, kind: u16, leading: Vec<TriviaPiece>, len: u32, trailing: Vec<TriviaPiece>) -> Slot {
        let l: u32 = leading.iter().map(|p| p.length).sum();
        let t: u32 = trailing.iter().map(|p| p.length).sum();
        let start = self.pos;
        self.pos += l + len + t;
        self.tokens.push(TokenData { kind, parent: u32::MAX, index: 0, start, end: self.pos, tstart: start + l, tend: start + l + len, leading, trailing, n: 0 });
        Slot::Token(self.tokens.len() as u32 - 1)
    }
    pub fn position(&self) -> u32 { self.pos }
    pub fn node(&mut self, kind: u16, slots: Vec<Slot>) -> Slot {
        let id = self.nodes.len() as u32;
        for (i, s) in slots.iter().enumerate() {
            match s {
                Slot::Node(n) => { self.nodes[*n as usize].parent = Some(id); self.nodes[*n as usize].index = i as u32 }
                Slot::Token(t) => { self.tokens[*t as usize].parent = id; self.tokens[*t as usize].index = i as u32 }
                Slot::Empty => {}
            }
        }
        self.nodes.push(NodeData { kind, parent: None, index: 0, slots, start: 0, end: 0, tstart: 0, tend: 0 });
        Slot::Node(id)
    }
    pub fn finish(mut self, root: Slot, text: String) -> Rc<Tree> {
        let Slot::Node(root) = root else { panic!("the root is a node") };
        // ranges: a preorder walk; nodes without tokens sit at the end of what precedes them
        fn walk(b: &mut TreeBuilder, id: u32, last: &mut u32, order: &mut Vec<u32>) {
            let at = *last;
            let slots = b.nodes[id as usize].slots.clone();
            let (mut first, mut fin): (Option<(u32, u32)>, Option<(u32, u32)>) = (None, None);
            for s in slots {
                match s {
                    Slot::Token(t) => {
                        let k = order.len() as u32;
                        order.push(t);
                        let d = &mut b.tokens[t as usize];
                        d.n = k;
                        if first.is_none() { first = Some((d.start, d.tstart)) }
                        fin = Some((d.end, d.tend));
                        *last = d.end;
                    }
                    Slot::Node(n) => {
                        let before = order.len();
                        walk(b, n, last, order);
                        if order.len() > before {
                            let d = &b.nodes[n as usize];
                            if first.is_none() { first = Some((d.start, d.tstart)) }
                            fin = Some((d.end, d.tend));
                        }
                    }
                    Slot::Empty => {}
                }
            }
            let d = &mut b.nodes[id as usize];
            match (first, fin) {
                (Some(f), Some(l)) => { d.start = f.0; d.tstart = f.1; d.end = l.0; d.tend = l.1 }
                _ => { d.start = at; d.tstart = at; d.end = at; d.tend = at }
            }
        }
        let mut order = vec![];
        let mut last = 0;
        walk(&mut self, root, &mut last, &mut order);
        assert_eq!(last as usize, text.len(), "the tree covers the text");
        let t = Tree { text, nodes: self.nodes, tokens: self.tokens, order, root };
        Rc::new(t)
    }
}
pub fn root_node<L: Language>(tree: &Rc<Tree>) -> SyntaxNode<L> {
    let id = tree.root;
    SyntaxNode { tree: tree.clone(), id, l: PhantomData }
}

// ------------------------------------------------------------------ nodes
pub struct SyntaxNode<L: Language> { tree: Rc<Tree>, id: u32, l: PhantomData<L> }
pub struct SyntaxToken<L: Language> { tree: Rc<Tree>, id: u32, l: PhantomData<L> }
macro_rules! handle {
    ($t:ident) => {
        impl<L: Language> Clone for $t<L> { fn clone(&self) -> Self { $t { tree: self.tree.clone(), id: self.id, l: PhantomData } } }
        impl<L: Language> PartialEq for $t<L> { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.tree, &o.tree) && self.id == o.id } }
        impl<L: Language> Eq for $t<L> {}
        impl<L: Language> Hash for $t<L> { fn hash<H: Hasher>(&self, h: &mut H) { (Rc::as_ptr(&self.tree) as usize).hash(h); self.id.hash(h) } }
    };
}
handle!(SyntaxNode);
handle!(SyntaxToken);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum NodeOrToken<N, T> { Node(N), Token(T) }
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<T> { match self { Self::Token(t) => Some(t), _ => None } }
    pub fn as_node(&self) -> Option<&N> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&T> { match self { Self::Token(t) => Some(t), _ => None } }
}
impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind { match self { Self::Node(n) => n.kind(), Self::Token(t) => t.kind() } }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { match self { Self::Node(n) => n.parent(), Self::Token(t) => t.parent() } }
    pub fn index(&self) -> usize { match self { Self::Node(n) => n.index(), Self::Token(t) => t.index() } }
    pub fn text_range(&self) -> TextRange { match self { Self::Node(n) => n.text_range(), Self::Token(t) => t.text_range() } }
    pub fn text_range_with_trivia(&self) -> TextRange { self.text_range() }
    pub fn text_trimmed_range(&self) -> TextRange { match self { Self::Node(n) => n.text_trimmed_range(), Self::Token(t) => t.text_trimmed_range() } }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { Self::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { Self::Token(n) } }

fn range(a: u32, b: u32) -> TextRange { TextRange::new(a.into(), b.into()) }

/// The text of a node.
#[derive(Clone, PartialEq, Eq)]
pub struct SyntaxNodeText { s: String }
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize { TextSize::of(&self.s) }
    pub fn is_empty(&self) -> bool { self.s.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.s.contains(c) }
    pub fn into_text(self) -> Text { Text(self.s) }
    pub fn chars(&self) -> impl Iterator<Item = char> + '_ { self.s.chars() }
}
impl fmt::Display for SyntaxNodeText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.s) } }
impl fmt::Debug for SyntaxNodeText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.s, f) } }
impl PartialEq<str> for SyntaxNodeText { fn eq(&self, o: &str) -> bool { self.s == o } }
impl PartialEq<&str> for SyntaxNodeText { fn eq(&self, o: &&str) -> bool { self.s == *o } }

/// Owned text, as biome's `Text`/`TokenText`/`SyntaxNodeText::into_text`.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Text(String);
pub type TokenText = Text;
impl Text {
    pub fn text(&self) -> &str { &self.0 }
    pub fn len(&self) -> TextSize { TextSize::of(&self.0) }
}
impl Deref for Text { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for Text { fn as_ref(&self) -> &str { &self.0 } }
impl std::borrow::Borrow<str> for Text { fn borrow(&self) -> &str { &self.0 } }
impl fmt::Display for Text { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Debug for Text { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl PartialEq<str> for Text { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for Text { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl PartialEq<String> for Text { fn eq(&self, o: &String) -> bool { self.0 == *o } }
impl PartialEq<Text> for &str { fn eq(&self, o: &Text) -> bool { o.0 == *self } }
impl PartialEq<Text> for str { fn eq(&self, o: &Text) -> bool { o.0 == *self } }
impl From<Text> for String { fn from(t: Text) -> String { t.0 } }
impl From<&str> for Text { fn from(t: &str) -> Text { Text(t.into()) } }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Direction { Next, Prev }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SyntaxSlot<L: Language> { Node(SyntaxNode<L>), Token(SyntaxToken<L>), Empty { index: u32 } }

impl<L: Language> SyntaxNode<L> {
    fn d(&self) -> &NodeData { &self.tree.nodes[self.id as usize] }
    fn at(&self, id: u32) -> Self { SyntaxNode { tree: self.tree.clone(), id, l: PhantomData } }
    fn tok(&self, id: u32) -> SyntaxToken<L> { SyntaxToken { tree: self.tree.clone(), id, l: PhantomData } }
    fn el(&self, s: Slot) -> Option<SyntaxElement<L>> {
        match s { Slot::Empty => None, Slot::Node(n) => Some(NodeOrToken::Node(self.at(n))), Slot::Token(t) => Some(NodeOrToken::Token(self.tok(t))) }
    }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn parent(&self) -> Option<Self> { self.d().parent.map(|p| self.at(p)) }
    pub fn grand_parent(&self) -> Option<Self> { self.parent()?.parent() }
    pub fn index(&self) -> usize { self.d().index as usize }
    pub fn text_range(&self) -> TextRange { range(self.d().start, self.d().end) }
    pub fn text_range_with_trivia(&self) -> TextRange { self.text_range() }
    pub fn text_trimmed_range(&self) -> TextRange { range(self.d().tstart, self.d().tend) }
    fn slice(&self, r: TextRange) -> SyntaxNodeText { SyntaxNodeText { s: self.tree.text[r].to_string() } }
    pub fn text(&self) -> SyntaxNodeText { self.slice(self.text_range()) }
    pub fn text_with_trivia(&self) -> SyntaxNodeText { self.slice(self.text_range()) }
    pub fn text_trimmed(&self) -> SyntaxNodeText { self.slice(self.text_trimmed_range()) }
    pub fn slots(&self) -> impl Iterator<Item = SyntaxSlot<L>> + use<L> {
        let me = self.clone();
        (0..self.d().slots.len()).map(move |i| match me.d().slots[i] {
            Slot::Empty => SyntaxSlot::Empty { index: i as u32 }, Slot::Node(n) => SyntaxSlot::Node(me.at(n)), Slot::Token(t) => SyntaxSlot::Token(me.tok(t)) })
    }
    pub fn slot(&self, i: usize) -> Option<SyntaxElement<L>> { self.d().slots.get(i).and_then(|s| self.el(*s)) }
    pub fn slot_count(&self) -> usize { self.d().slots.len() }
    pub fn children_with_tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxElement<L>> + use<L> {
        let v: Vec<_> = self.d().slots.iter().filter_map(|s| self.el(*s)).collect();
        v.into_iter()
    }
    pub fn children(&self) -> impl DoubleEndedIterator<Item = SyntaxNode<L>> + use<L> { self.children_with_tokens().filter_map(NodeOrToken::into_node) }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> { self.children_with_tokens().filter_map(NodeOrToken::into_token) }
    pub fn first_child(&self) -> Option<Self> { self.children().next() }
    pub fn last_child(&self) -> Option<Self> { self.children().next_back() }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().next() }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().next_back() }
    fn around(&self, dir: Direction) -> Vec<SyntaxElement<L>> {
        let Some(p) = self.parent() else { return vec![] };
        let i = self.index();
        let s = &p.d().slots;
        match dir { Direction::Next => s[i + 1..].iter().filter_map(|x| p.el(*x)).collect(), Direction::Prev => s[..i].iter().rev().filter_map(|x| p.el(*x)).collect() }
    }
    pub fn next_sibling(&self) -> Option<Self> { self.around(Direction::Next).into_iter().find_map(NodeOrToken::into_node) }
    pub fn prev_sibling(&self) -> Option<Self> { self.around(Direction::Prev).into_iter().find_map(NodeOrToken::into_node) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.around(Direction::Next).into_iter().next() }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.around(Direction::Prev).into_iter().next() }
    pub fn siblings(&self, dir: Direction) -> impl Iterator<Item = Self> + use<L> {
        std::iter::once(self.clone()).chain(self.around(dir).into_iter().filter_map(NodeOrToken::into_node))
    }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> + use<L> { std::iter::successors(Some(self.clone()), |n| n.parent()) }
    pub fn preorder_with_tokens(&self, _d: Direction) -> std::vec::IntoIter<WalkEvent<SyntaxElement<L>>> {
        fn go<L: Language>(n: &SyntaxNode<L>, out: &mut Vec<WalkEvent<SyntaxElement<L>>>) {
            out.push(WalkEvent::Enter(NodeOrToken::Node(n.clone())));
            for c in n.children_with_tokens() {
                match c {
                    NodeOrToken::Node(c) => go(&c, out),
                    t => { out.push(WalkEvent::Enter(t.clone())); out.push(WalkEvent::Leave(t)) }
                }
            }
            out.push(WalkEvent::Leave(NodeOrToken::Node(n.clone())));
        }
        let mut v = vec![];
        go(self, &mut v);
        v.into_iter()
    }
    pub fn preorder(&self) -> impl Iterator<Item = WalkEvent<SyntaxNode<L>>> + use<L> {
        self.preorder_with_tokens(Direction::Next).filter_map(|e| match e {
            WalkEvent::Enter(NodeOrToken::Node(n)) => Some(WalkEvent::Enter(n)), WalkEvent::Leave(NodeOrToken::Node(n)) => Some(WalkEvent::Leave(n)), _ => None })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None })
    }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(d).filter_map(|e| match e { WalkEvent::Enter(n) => Some(n), _ => None })
    }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> { self.descendants_with_tokens(d).filter_map(NodeOrToken::into_token) }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { self.descendants_tokens(Direction::Next).next() }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { self.descendants_tokens(Direction::Next).last() }
    pub fn token_at_offset(&self, o: TextSize) -> Option<SyntaxToken<L>> { self.descendants_tokens(Direction::Next).find(|t| t.text_range().contains(o)) }
    /// The smallest element that contains the range (ranges with trivia, as in rowan).
    pub fn covering_element(&self, r: TextRange) -> SyntaxElement<L> {
        let mut res: SyntaxElement<L> = NodeOrToken::Node(self.clone());
        loop {
            assert!(res.text_range().contains_range(r), "Bad range. Element {:?} does not contain {:?}", res.text_range(), r);
            let NodeOrToken::Node(n) = &res else { return res };
            match n.children_with_tokens().find(|c| c.text_range().contains_range(r)) {
                Some(c) => res = c,
                None => return res,
            }
        }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> { self.first_token().map(|t| t.leading_trivia()) }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { self.last_token().map(|t| t.trailing_trivia()) }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next).any(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool { self.has_trailing_comments() || self.has_leading_comments() }
    pub fn first_or_last_token_have_comments(&self) -> bool { self.has_comments_direct() }
    pub fn has_trailing_comments(&self) -> bool { self.last_token().is_some_and(|t| t.has_trailing_comments()) }
    pub fn has_leading_comments(&self) -> bool { self.first_token().is_some_and(|t| t.has_leading_comments()) }
    pub fn has_leading_newline(&self) -> bool { self.first_token().is_some_and(|t| t.has_leading_newline()) }
    pub fn is_list(&self) -> bool { self.kind().is_list() }
}
impl<L: Language> fmt::Display for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.text()) } }
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for e in self.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(x) => {
                        for _ in 0..level { write!(f, "  ")? }
                        match x { NodeOrToken::Node(n) => writeln!(f, "{}: {n:?}", n.index())?, NodeOrToken::Token(t) => writeln!(f, "{}: {t:?}", t.index())? }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            Ok(())
        } else {
            write!(f, "{:?}@{:?}", self.kind(), self.text_range())
        }
    }
}

// ------------------------------------------------------------------ tokens
impl<L: Language> SyntaxToken<L> {
    fn d(&self) -> &TokenData { &self.tree.tokens[self.id as usize] }
    fn at(&self, id: u32) -> Self { SyntaxToken { tree: self.tree.clone(), id, l: PhantomData } }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { Some(SyntaxNode { tree: self.tree.clone(), id: self.d().parent, l: PhantomData }) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::successors(self.parent(), |n| n.parent()) }
    pub fn index(&self) -> usize { self.d().index as usize }
    pub fn text_range(&self) -> TextRange { range(self.d().start, self.d().end) }
    pub fn text_range_with_trivia(&self) -> TextRange { self.text_range() }
    pub fn text_trimmed_range(&self) -> TextRange { range(self.d().tstart, self.d().tend) }
    pub fn text(&self) -> &str { &self.tree.text[self.text_range()] }
    pub fn text_with_trivia(&self) -> &str { self.text() }
    pub fn text_trimmed(&self) -> &str { &self.tree.text[self.text_trimmed_range()] }
    pub fn token_text(&self) -> TokenText { Text(self.text().to_string()) }
    pub fn token_text_trimmed(&self) -> TokenText { Text(self.text_trimmed().to_string()) }
    pub fn next_token(&self) -> Option<Self> { self.tree.order.get(self.d().n as usize + 1).map(|t| self.at(*t)) }
    pub fn prev_token(&self) -> Option<Self> { (self.d().n as usize).checked_sub(1).map(|i| self.at(self.tree.order[i])) }
    fn siblings(&self, next: bool) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        let i = self.index();
        let s = &p.d().slots;
        if next { s[i + 1..].iter().find_map(|x| p.el(*x)) } else { s[..i].iter().rev().find_map(|x| p.el(*x)) }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.siblings(true) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.siblings(false) }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: true } }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: false } }
    pub fn has_leading_comments(&self) -> bool { self.d().leading.iter().any(|p| p.kind.is_comment()) }
    pub fn has_trailing_comments(&self) -> bool { self.d().trailing.iter().any(|p| p.kind.is_comment()) }
    pub fn has_leading_newline(&self) -> bool { self.d().leading.iter().any(|p| p.kind.is_newline()) }
}
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.text()) } }
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed()) }
}

// ------------------------------------------------------------------ trivia
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> { token: SyntaxToken<L>, leading: bool }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> { token: SyntaxToken<L>, kind: TriviaPieceKind, start: u32, end: u32 }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
pub struct SyntaxTriviaPieceNewline<L: Language>(SyntaxTriviaPiece<L>);
pub struct SyntaxTriviaPieceWhitespace<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTrivia<L> {
    fn range_(&self) -> (u32, u32) { let d = self.token.d(); if self.leading { (d.start, d.tstart) } else { (d.tend, d.end) } }
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let d = self.token.d();
        let mut at = self.range_().0;
        let v: Vec<_> = (if self.leading { &d.leading } else { &d.trailing }).iter().map(|p| {
            let s = at;
            at += p.length;
            SyntaxTriviaPiece { token: self.token.clone(), kind: p.kind, start: s, end: at }
        }).collect();
        v.into_iter()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().last() }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().next() }
    pub fn text(&self) -> &str { let r = self.range_(); &self.token.tree.text[range(r.0, r.1)] }
    pub fn text_range(&self) -> TextRange { let r = self.range_(); range(r.0, r.1) }
    pub fn is_empty(&self) -> bool { let r = self.range_(); r.0 == r.1 }
    pub fn has_skipped(&self) -> bool { false }
    pub fn token(&self) -> SyntaxToken<L> { self.token.clone() }
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind { self.kind }
    pub fn text(&self) -> &str { &self.token.tree.text[self.text_range()] }
    pub fn text_range(&self) -> TextRange { range(self.start, self.end) }
    pub fn text_len(&self) -> TextSize { (self.end - self.start).into() }
    pub fn token(&self) -> SyntaxToken<L> { self.token.clone() }
    pub fn is_newline(&self) -> bool { self.kind.is_newline() }
    pub fn is_whitespace(&self) -> bool { self.kind.is_whitespace() }
    pub fn is_comments(&self) -> bool { self.kind.is_comment() }
    pub fn is_skipped(&self) -> bool { self.kind.is_skipped() }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> { self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone())) }
    pub fn as_newline(&self) -> Option<SyntaxTriviaPieceNewline<L>> { self.is_newline().then(|| SyntaxTriviaPieceNewline(self.clone())) }
    pub fn as_whitespace(&self) -> Option<SyntaxTriviaPieceWhitespace<L>> { self.is_whitespace().then(|| SyntaxTriviaPieceWhitespace(self.clone())) }
}
macro_rules! piece {
    ($t:ident) => {
        impl<L: Language> $t<L> {
            pub fn text(&self) -> &str { self.0.text() }
            pub fn text_range(&self) -> TextRange { self.0.text_range() }
            pub fn text_len(&self) -> TextSize { self.0.text_len() }
            pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { &self.0 }
            pub fn into_piece(self) -> SyntaxTriviaPiece<L> { self.0 }
        }
    };
}
piece!(SyntaxTriviaPieceComments);
piece!(SyntaxTriviaPieceNewline);
piece!(SyntaxTriviaPieceWhitespace);
impl<L: Language> SyntaxTriviaPieceComments<L> { pub fn has_newline(&self) -> bool { false } }
impl<L: Language> fmt::Debug for SyntaxTrivia<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.pieces()).finish() } }
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}({:?})", self.kind, self.text()) } }
impl<L: Language> fmt::Debug for SyntaxTriviaPieceComments<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }

// ------------------------------------------------------------------ typed nodes
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SyntaxError { MissingRequiredChild, UnexpectedBogusNode, UnexpectedMetavariable }
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(match self { Self::MissingRequiredChild => "missing required child", _ => "unexpected node" }) }
}
impl std::error::Error for SyntaxError {}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self> where Self: Sized { Self::cast(syntax.clone()) }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> where Self: Sized {
        if Self::can_cast(syntax.kind()) { Ok(Self::cast(syntax).unwrap()) } else { Err(syntax) }
    }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(self) -> Result<T, Self> where Self: Sized {
        if T::can_cast(self.syntax().kind()) { Ok(T::cast(self.into_syntax()).unwrap()) } else { Err(self) }
    }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language> where Self: Sized;
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self where Self: Sized { Self::cast(syntax).expect("cast") }
    fn to_trimmed_string(&self) -> String { self.syntax().text_trimmed().to_string() }
    fn to_trimmed_text(&self) -> TokenText { Text(self.to_trimmed_string()) }
    fn range(&self) -> TextRange { self.syntax().text_trimmed_range() }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { self.syntax().parent().and_then(T::cast) }
}

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        let v: Vec<Self::Node> = self.syntax_list().children().map(|n| Self::Node::cast(n).expect("list element")).collect();
        AstNodeListIterator { it: v.into_iter(), l: PhantomData }
    }
    fn len(&self) -> usize { self.syntax_list().slot_count() }
    fn first(&self) -> Option<Self::Node> { self.iter().next() }
    fn last(&self) -> Option<Self::Node> { self.iter().last() }
    fn is_empty(&self) -> bool { self.len() == 0 }
}
#[derive(Debug, Clone)]
pub struct AstNodeListIterator<L: Language, N> { it: std::vec::IntoIter<N>, l: PhantomData<L> }
impl<L: Language, N> Iterator for AstNodeListIterator<L, N> { type Item = N; fn next(&mut self) -> Option<N> { self.it.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstNodeListIterator<L, N> { fn next_back(&mut self) -> Option<N> { self.it.next_back() } }
impl<L: Language, N> ExactSizeIterator for AstNodeListIterator<L, N> {}

#[derive(Clone, Debug)]
pub struct AstSeparatedElement<L: Language, N> { pub node: SyntaxResult<N>, pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>> }
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> { self.node.as_ref().map_err(|e| e.clone()) }
    pub fn into_node(self) -> SyntaxResult<N> { self.node }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> { match &self.trailing_separator { Ok(Some(t)) => Ok(Some(t)), Ok(None) => Ok(None), Err(e) => Err(e.clone()) } }
}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax_list(self) -> SyntaxNode<Self::Language>;
    fn elements(&self) -> std::vec::IntoIter<AstSeparatedElement<Self::Language, Self::Node>> {
        let s = self.syntax_list();
        let n = s.slot_count();
        let mut v = vec![];
        for i in (0..n).step_by(2) {
            let node = match s.slot(i) { Some(NodeOrToken::Node(n)) => Ok(Self::Node::cast(n).expect("list element")), _ => Err(SyntaxError::MissingRequiredChild) };
            let sep = match s.slot(i + 1) { Some(NodeOrToken::Token(t)) => Ok(Some(t)), _ => Ok(None) };
            v.push(AstSeparatedElement { node, trailing_separator: sep });
        }
        v.into_iter()
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> {
        let v: Vec<_> = self.elements().map(|e| e.node).collect();
        AstSeparatedListNodesIterator { it: v.into_iter(), l: PhantomData }
    }
    fn separators(&self) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> {
        let v: Vec<_> = self.elements().filter_map(|e| e.trailing_separator.ok().flatten().map(Ok)).collect();
        v.into_iter()
    }
    fn len(&self) -> usize { self.syntax_list().slot_count().div_ceil(2) }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().next() }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().last() }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> { match self.syntax_list().last_child_or_token() { Some(NodeOrToken::Token(t)) => Some(t), _ => None } }
}
#[derive(Debug, Clone)]
pub struct AstSeparatedListNodesIterator<L: Language, N> { it: std::vec::IntoIter<SyntaxResult<N>>, l: PhantomData<L> }
impl<L: Language, N> Iterator for AstSeparatedListNodesIterator<L, N> { type Item = SyntaxResult<N>; fn next(&mut self) -> Option<Self::Item> { self.it.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { self.it.next_back() } }
impl<L: Language, N> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}

pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> Option<N> {
        match p.slot(i)? { NodeOrToken::Node(n) => Some(N::cast(n).expect("child of the expected kind")), _ => None }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> SyntaxResult<N> { node(p, i).ok_or(SyntaxError::MissingRequiredChild) }
    pub fn list<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> N { required_node(p, i).expect("list") }
    pub fn token<L: Language>(p: &SyntaxNode<L>, i: usize) -> Option<SyntaxToken<L>> { match p.slot(i)? { NodeOrToken::Token(t) => Some(t), _ => None } }
    pub fn required_token<L: Language>(p: &SyntaxNode<L>, i: usize) -> SyntaxResult<SyntaxToken<L>> { token(p, i).ok_or(SyntaxError::MissingRequiredChild) }
}
