//! Offline stand-in for `biome_rowan` (not available in this sandbox).
//!
//! Lossless concrete syntax trees with the API surface jarl uses: typed nodes
//! over an immutable arena, slots, trivia attached to tokens the way biome
//! does (trailing trivia up to the end of the line, the rest leading).
mod text;
pub use text::{TextRange, TextSize};

use std::borrow::Cow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct RawSyntaxKind(pub u16);

pub trait SyntaxKind: fmt::Debug + PartialEq + Copy + Eq + 'static {
    fn is_list(&self) -> bool;
    fn is_bogus(&self) -> bool;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
}

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum TriviaPieceKind {
    Newline,
    Whitespace,
    SingleLineComment,
    MultiLineComment,
    Skipped,
}
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool {
        matches!(self, TriviaPieceKind::Newline)
    }
    pub fn is_whitespace(&self) -> bool {
        matches!(self, TriviaPieceKind::Whitespace)
    }
    pub fn is_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment | TriviaPieceKind::MultiLineComment)
    }
    pub fn is_single_line_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::SingleLineComment)
    }
    pub fn is_multiline_comment(&self) -> bool {
        matches!(self, TriviaPieceKind::MultiLineComment)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct TriviaPiece {
    pub kind: TriviaPieceKind,
    pub length: TextSize,
}
impl TriviaPiece {
    pub fn new<L: Into<TextSize>>(kind: TriviaPieceKind, length: L) -> Self {
        Self { kind, length: length.into() }
    }
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text_len(&self) -> TextSize {
        self.length
    }
}

// ------------------------------------------------------------------ arena
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
enum Elem {
    Node(u32),
    Token(u32),
}
struct NodeData {
    kind: u16,
    parent: Option<u32>,
    slot: u32,
    slots: Vec<Option<Elem>>,
    start: u32,
    end: u32,
}
struct TokenData {
    kind: u16,
    parent: u32,
    slot: u32,
    start: u32,
    trimmed_start: u32,
    trimmed_end: u32,
    end: u32,
    leading: Vec<TriviaPiece>,
    trailing: Vec<TriviaPiece>,
}
struct Tree {
    text: Rc<str>,
    nodes: Vec<NodeData>,
    tokens: Vec<TokenData>,
}

/// Owned description of a tree, produced by a parser.
pub enum Build {
    Node { kind: u16, slots: Vec<Option<Build>> },
    Token { kind: u16, leading: Vec<TriviaPiece>, len: u32, trailing: Vec<TriviaPiece> },
}

pub fn build_tree<L: Language>(text: &str, root: Build) -> SyntaxNode<L> {
    let mut t = Tree { text: Rc::from(text), nodes: vec![], tokens: vec![] };
    let mut pos = 0u32;
    fn rec(t: &mut Tree, b: Build, parent: Option<u32>, slot: u32, pos: &mut u32) -> Elem {
        match b {
            Build::Node { kind, slots } => {
                let id = t.nodes.len() as u32;
                t.nodes.push(NodeData { kind, parent, slot, slots: vec![], start: *pos, end: *pos });
                let mut out = Vec::with_capacity(slots.len());
                for (i, s) in slots.into_iter().enumerate() {
                    out.push(s.map(|s| rec(t, s, Some(id), i as u32, pos)));
                }
                t.nodes[id as usize].slots = out;
                t.nodes[id as usize].end = *pos;
                Elem::Node(id)
            }
            Build::Token { kind, leading, len, trailing } => {
                let id = t.tokens.len() as u32;
                let start = *pos;
                let l: u32 = leading.iter().map(|p| p.length.raw).sum();
                let tr: u32 = trailing.iter().map(|p| p.length.raw).sum();
                let ts = start + l;
                let te = ts + len;
                *pos = te + tr;
                t.tokens.push(TokenData {
                    kind,
                    parent: parent.expect("token without parent"),
                    slot,
                    start,
                    trimmed_start: ts,
                    trimmed_end: te,
                    end: *pos,
                    leading,
                    trailing,
                });
                Elem::Token(id)
            }
        }
    }
    let e = rec(&mut t, root, None, 0, &mut pos);
    assert_eq!(pos as usize, text.len(), "tree must be lossless");
    match e {
        Elem::Node(id) => SyntaxNode { t: Rc::new(t), id, p: PhantomData },
        _ => panic!("root must be a node"),
    }
}

// ------------------------------------------------------------------ nodes
pub struct SyntaxNode<L: Language> {
    t: Rc<Tree>,
    id: u32,
    p: PhantomData<L>,
}
pub struct SyntaxToken<L: Language> {
    t: Rc<Tree>,
    id: u32,
    p: PhantomData<L>,
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

macro_rules! common {
    ($n:ident) => {
        impl<L: Language> Clone for $n<L> {
            fn clone(&self) -> Self {
                Self { t: self.t.clone(), id: self.id, p: PhantomData }
            }
        }
        impl<L: Language> PartialEq for $n<L> {
            fn eq(&self, o: &Self) -> bool {
                Rc::ptr_eq(&self.t, &o.t) && self.id == o.id
            }
        }
        impl<L: Language> Eq for $n<L> {}
        impl<L: Language> Hash for $n<L> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                (Rc::as_ptr(&self.t) as *const u8 as usize).hash(h);
                self.id.hash(h);
            }
        }
    };
}
common!(SyntaxNode);
common!(SyntaxToken);

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Direction {
    Next,
    Prev,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}
impl<T> TokenAtOffset<T> {
    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(_, r) => Some(r),
        }
    }
    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(n) => Some(n),
            TokenAtOffset::Between(l, _) => Some(l),
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}

impl<L: Language> SyntaxNode<L> {
    fn d(&self) -> &NodeData {
        &self.t.nodes[self.id as usize]
    }
    fn mk(&self, id: u32) -> SyntaxNode<L> {
        SyntaxNode { t: self.t.clone(), id, p: PhantomData }
    }
    fn mkt(&self, id: u32) -> SyntaxToken<L> {
        SyntaxToken { t: self.t.clone(), id, p: PhantomData }
    }
    fn el(&self, e: Elem) -> SyntaxElement<L> {
        match e {
            Elem::Node(n) => NodeOrToken::Node(self.mk(n)),
            Elem::Token(n) => NodeOrToken::Token(self.mkt(n)),
        }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(RawSyntaxKind(self.d().kind))
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.d().parent.map(|p| self.mk(p))
    }
    pub fn grand_parent(&self) -> Option<SyntaxNode<L>> {
        self.parent()?.parent()
    }
    pub fn index(&self) -> usize {
        self.d().slot as usize
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), |n| n.parent())
    }
    pub fn ancestors_with_tokens(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.ancestors()
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        let v: Vec<_> = self
            .d()
            .slots
            .iter()
            .flatten()
            .filter_map(|e| match e {
                Elem::Node(n) => Some(self.mk(*n)),
                _ => None,
            })
            .collect();
        SyntaxNodeChildren { it: v.into_iter() }
    }
    pub fn children_with_tokens(&self) -> std::vec::IntoIter<SyntaxElement<L>> {
        self.d().slots.iter().flatten().map(|e| self.el(*e)).collect::<Vec<_>>().into_iter()
    }
    pub fn slots(&self) -> std::vec::IntoIter<SyntaxSlot<L>> {
        self.d()
            .slots
            .iter()
            .enumerate()
            .map(|(i, e)| match e {
                Some(Elem::Node(n)) => SyntaxSlot::Node(self.mk(*n)),
                Some(Elem::Token(n)) => SyntaxSlot::Token(self.mkt(*n)),
                None => SyntaxSlot::Empty { index: i as u32 },
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn tokens(&self) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.children_with_tokens().filter_map(|e| e.into_token())
    }
    pub fn element_in_slot(&self, slot: u32) -> Option<SyntaxElement<L>> {
        self.d().slots.get(slot as usize).copied().flatten().map(|e| self.el(e))
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.children().last()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().last()
    }
    fn sib(&self, dir: i64, nodes_only: bool) -> Option<SyntaxElement<L>> {
        let p = self.parent()?;
        sib_of(&p, self.d().slot as i64, dir, nodes_only)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        self.sib(1, true)?.into_node()
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        self.sib(-1, true)?.into_node()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(1, false)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.sib(-1, false)
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), move |n| match direction {
            Direction::Next => n.next_sibling(),
            Direction::Prev => n.prev_sibling(),
        })
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.children_with_tokens().find_map(|e| match e {
            NodeOrToken::Token(t) => Some(t),
            NodeOrToken::Node(n) => n.first_token(),
        })
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        let mut v: Vec<_> = self.children_with_tokens().collect();
        v.reverse();
        v.into_iter().find_map(|e| match e {
            NodeOrToken::Token(t) => Some(t),
            NodeOrToken::Node(n) => n.last_token(),
        })
    }
    pub fn preorder(&self) -> std::vec::IntoIter<WalkEvent<SyntaxNode<L>>> {
        let mut out = vec![];
        fn rec<L: Language>(n: &SyntaxNode<L>, out: &mut Vec<WalkEvent<SyntaxNode<L>>>) {
            out.push(WalkEvent::Enter(n.clone()));
            for c in n.children() {
                rec(&c, out);
            }
            out.push(WalkEvent::Leave(n.clone()));
        }
        rec(self, &mut out);
        out.into_iter()
    }
    pub fn preorder_with_tokens(&self, direction: Direction) -> std::vec::IntoIter<WalkEvent<SyntaxElement<L>>> {
        let mut out = vec![];
        fn rec<L: Language>(n: &SyntaxNode<L>, d: Direction, out: &mut Vec<WalkEvent<SyntaxElement<L>>>) {
            out.push(WalkEvent::Enter(NodeOrToken::Node(n.clone())));
            let mut ch: Vec<_> = n.children_with_tokens().collect();
            if d == Direction::Prev {
                ch.reverse();
            }
            for c in ch {
                match c {
                    NodeOrToken::Node(c) => rec(&c, d, out),
                    t => {
                        out.push(WalkEvent::Enter(t.clone()));
                        out.push(WalkEvent::Leave(t));
                    }
                }
            }
            out.push(WalkEvent::Leave(NodeOrToken::Node(n.clone())));
        }
        rec(self, direction, &mut out);
        out.into_iter()
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            _ => None,
        })
    }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(d).filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            _ => None,
        })
    }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(d).filter_map(|e| e.into_token())
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::new(self.d().start.into(), self.d().end.into())
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match (self.first_token(), self.last_token()) {
            (Some(f), Some(l)) => {
                TextRange::new(f.text_trimmed_range().start(), l.text_trimmed_range().end())
            }
            _ => self.text_range(),
        }
    }
    pub fn text(&self) -> SyntaxNodeText {
        SyntaxNodeText { t: self.t.text.clone(), range: self.text_range() }
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        self.text()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        SyntaxNodeText { t: self.t.text.clone(), range: self.text_trimmed_range() }
    }
    pub fn text_trimmed_into_token_text(&self) -> TokenText {
        TokenText { t: self.t.text.clone(), range: self.text_trimmed_range() }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut cur = self.clone();
        'outer: loop {
            for e in cur.children_with_tokens() {
                if e.text_range().contains_range(range) {
                    match e {
                        NodeOrToken::Node(n) => {
                            cur = n;
                            continue 'outer;
                        }
                        t => return t,
                    }
                }
            }
            return NodeOrToken::Node(cur);
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().find(|e| e.text_range().contains_range(range))
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let mut v: Vec<_> = self
            .descendants_tokens(Direction::Next)
            .filter(|t| t.text_range().contains_inclusive(offset) && !t.text_range().is_empty())
            .collect();
        match v.len() {
            0 => TokenAtOffset::None,
            1 => TokenAtOffset::Single(v.remove(0)),
            _ => {
                let r = v.remove(1);
                TokenAtOffset::Between(v.remove(0), r)
            }
        }
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_trailing_comments() || self.has_leading_comments()
    }
    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next)
            .any(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
            || self.last_token().is_some_and(|t| t.has_trailing_comments() || t.has_leading_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_non_whitespace_trivia())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.first_leading_trivia().is_some_and(|t| t.pieces().any(|p| p.is_newline()))
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
    pub fn is_root(&self) -> bool {
        self.d().parent.is_none()
    }
}
fn sib_of<L: Language>(p: &SyntaxNode<L>, slot: i64, dir: i64, nodes_only: bool) -> Option<SyntaxElement<L>> {
    let mut i = slot + dir;
    while i >= 0 && (i as usize) < p.d().slots.len() {
        match p.d().slots[i as usize] {
            Some(Elem::Node(n)) => return Some(NodeOrToken::Node(p.mk(n))),
            Some(Elem::Token(n)) if !nodes_only => return Some(NodeOrToken::Token(p.mkt(n))),
            _ => {}
        }
        i += dir;
    }
    None
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.t.text[self.text_range()])
    }
}
impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn rec<L: Language>(n: &SyntaxNode<L>, ind: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            writeln!(f, "{:ind$}{:?}@{:?}", "", n.kind(), n.text_range(), ind = ind)?;
            for c in n.children_with_tokens() {
                match c {
                    NodeOrToken::Node(n) => rec(&n, ind + 2, f)?,
                    NodeOrToken::Token(t) => writeln!(f, "{:ind$}{:?}", "", t, ind = ind + 2)?,
                }
            }
            Ok(())
        }
        rec(self, 0, f)
    }
}

impl<L: Language> SyntaxToken<L> {
    fn d(&self) -> &TokenData {
        &self.t.tokens[self.id as usize]
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(RawSyntaxKind(self.d().kind))
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        Some(SyntaxNode { t: self.t.clone(), id: self.d().parent, p: PhantomData })
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(self.parent(), |n| n.parent())
    }
    pub fn index(&self) -> usize {
        self.d().slot as usize
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::new(self.d().start.into(), self.d().end.into())
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        TextRange::new(self.d().trimmed_start.into(), self.d().trimmed_end.into())
    }
    pub fn text(&self) -> &str {
        &self.t.text[self.text_range()]
    }
    pub fn text_trimmed(&self) -> &str {
        &self.t.text[self.text_trimmed_range()]
    }
    pub fn token_text(&self) -> TokenText {
        TokenText { t: self.t.text.clone(), range: self.text_range() }
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText { t: self.t.text.clone(), range: self.text_trimmed_range() }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        sib_of(&self.parent()?, self.d().slot as i64, 1, false)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        sib_of(&self.parent()?, self.d().slot as i64, -1, false)
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        ((self.id as usize) + 1 < self.t.tokens.len())
            .then(|| SyntaxToken { t: self.t.clone(), id: self.id + 1, p: PhantomData })
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        (self.id > 0).then(|| SyntaxToken { t: self.t.clone(), id: self.id - 1, p: PhantomData })
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { tok: self.clone(), leading: true }
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia { tok: self.clone(), leading: false }
    }
    pub fn has_leading_comments(&self) -> bool {
        self.d().leading.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.d().trailing.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.d().leading.iter().any(|p| !p.kind.is_whitespace() && !p.kind.is_newline())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.d().leading.iter().any(|p| p.kind.is_newline())
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed())
    }
}

#[derive(Clone)]
pub struct SyntaxNodeChildren<L: Language> {
    it: std::vec::IntoIter<SyntaxNode<L>>,
}
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<SyntaxNode<L>> {
        self.it.next()
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxNodeChildren<L> {
    fn next_back(&mut self) -> Option<SyntaxNode<L>> {
        self.it.next_back()
    }
}
impl<L: Language> ExactSizeIterator for SyntaxNodeChildren<L> {
    fn len(&self) -> usize {
        self.it.len()
    }
}

// ------------------------------------------------------------------ trivia
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> {
    tok: SyntaxToken<L>,
    leading: bool,
}
impl<L: Language> SyntaxTrivia<L> {
    fn raw(&self) -> &[TriviaPiece] {
        if self.leading { &self.tok.d().leading } else { &self.tok.d().trailing }
    }
    fn start(&self) -> u32 {
        if self.leading { self.tok.d().start } else { self.tok.d().trimmed_end }
    }
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let mut pos = self.start();
        self.raw()
            .iter()
            .map(|p| {
                let r = TextRange::at(pos.into(), p.length);
                pos += p.length.raw;
                SyntaxTriviaPiece { trivia: self.clone(), kind: p.kind, range: r }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().next()
    }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> {
        self.pieces().last()
    }
    pub fn text(&self) -> &str {
        &self.tok.t.text[self.text_range()]
    }
    pub fn text_range(&self) -> TextRange {
        let len: u32 = self.raw().iter().map(|p| p.length.raw).sum();
        TextRange::at(self.start().into(), len.into())
    }
    pub fn is_empty(&self) -> bool {
        self.raw().is_empty()
    }
    pub fn has_skipped(&self) -> bool {
        false
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.tok.clone()
    }
}
impl<L: Language> fmt::Debug for SyntaxTrivia<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.raw())
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> {
    trivia: SyntaxTrivia<L>,
    kind: TriviaPieceKind,
    range: TextRange,
}
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind {
        self.kind
    }
    pub fn text(&self) -> &str {
        &self.trivia.tok.t.text[self.range]
    }
    pub fn text_len(&self) -> TextSize {
        self.range.len()
    }
    pub fn text_range(&self) -> TextRange {
        self.range
    }
    pub fn is_newline(&self) -> bool {
        self.kind.is_newline()
    }
    pub fn is_whitespace(&self) -> bool {
        self.kind.is_whitespace()
    }
    pub fn is_comments(&self) -> bool {
        self.kind.is_comment()
    }
    pub fn is_skipped(&self) -> bool {
        false
    }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> {
        self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone()))
    }
    pub fn token(&self) -> SyntaxToken<L> {
        self.trivia.tok.clone()
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPiece<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({:?})", self.kind, self.text())
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str {
        self.0.text()
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn has_newline(&self) -> bool {
        self.text().contains('\n')
    }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> {
        &self.0
    }
    pub fn into_piece(self) -> SyntaxTriviaPiece<L> {
        self.0
    }
}
impl<L: Language> fmt::Debug for SyntaxTriviaPieceComments<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Comments({:?})", self.text())
    }
}

// ------------------------------------------------------------------ text views
#[derive(Clone)]
pub struct SyntaxNodeText {
    t: Rc<str>,
    range: TextRange,
}
impl SyntaxNodeText {
    fn s(&self) -> &str {
        &self.t[self.range]
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.s().contains(c)
    }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        self.s().find(c).map(|i| TextSize::from(i as u32))
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        self.s().get(usize::from(offset)..)?.chars().next()
    }
    pub fn chars(&self) -> std::vec::IntoIter<char> {
        self.s().chars().collect::<Vec<_>>().into_iter()
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        f(self.s())
    }
    pub fn into_text(self) -> TokenText {
        TokenText { t: self.t, range: self.range }
    }
    pub fn starts_with(&self, p: &str) -> bool {
        self.s().starts_with(p)
    }
    pub fn ends_with(&self, p: &str) -> bool {
        self.s().ends_with(p)
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.s(), f)
    }
}
impl fmt::Debug for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.s(), f)
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, o: &str) -> bool {
        self.s() == o
    }
}
impl PartialEq<&str> for SyntaxNodeText {
    fn eq(&self, o: &&str) -> bool {
        self.s() == *o
    }
}
impl PartialEq<SyntaxNodeText> for str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        self == o.s()
    }
}
impl PartialEq<SyntaxNodeText> for &str {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        *self == o.s()
    }
}
impl PartialEq<String> for SyntaxNodeText {
    fn eq(&self, o: &String) -> bool {
        self.s() == o.as_str()
    }
}
impl PartialEq for SyntaxNodeText {
    fn eq(&self, o: &SyntaxNodeText) -> bool {
        self.s() == o.s()
    }
}
impl Eq for SyntaxNodeText {}

/// Reference-counted slice of the source text.
#[derive(Clone)]
pub struct TokenText {
    t: Rc<str>,
    range: TextRange,
}
pub type Text = TokenText;
impl TokenText {
    pub fn text(&self) -> &str {
        &self.t[self.range]
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn range(&self) -> TextRange {
        TextRange::up_to(self.range.len())
    }
    pub fn source_range(&self) -> TextRange {
        self.range
    }
    pub fn new_static(s: &'static str) -> Self {
        TokenText { t: Rc::from(s), range: TextRange::up_to(TextSize::of(s)) }
    }
    pub fn slice(mut self, r: TextRange) -> TokenText {
        self.range = TextRange::new(self.range.start() + r.start(), self.range.start() + r.end());
        self
    }
}
impl Deref for TokenText {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for TokenText {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl std::borrow::Borrow<str> for TokenText {
    fn borrow(&self) -> &str {
        self.text()
    }
}
impl fmt::Display for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl fmt::Debug for TokenText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.text(), f)
    }
}
impl PartialEq for TokenText {
    fn eq(&self, o: &Self) -> bool {
        self.text() == o.text()
    }
}
impl Eq for TokenText {}
impl PartialEq<str> for TokenText {
    fn eq(&self, o: &str) -> bool {
        self.text() == o
    }
}
impl PartialEq<&str> for TokenText {
    fn eq(&self, o: &&str) -> bool {
        self.text() == *o
    }
}
impl PartialEq<String> for TokenText {
    fn eq(&self, o: &String) -> bool {
        self.text() == o.as_str()
    }
}
impl PartialEq<TokenText> for &str {
    fn eq(&self, o: &TokenText) -> bool {
        *self == o.text()
    }
}
impl PartialEq<TokenText> for str {
    fn eq(&self, o: &TokenText) -> bool {
        self == o.text()
    }
}
impl PartialOrd for TokenText {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TokenText {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.text().cmp(o.text())
    }
}
impl Hash for TokenText {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.text().hash(h)
    }
}
impl From<TokenText> for String {
    fn from(t: TokenText) -> String {
        t.text().to_string()
    }
}
impl<'a> From<&'a TokenText> for Cow<'a, str> {
    fn from(t: &'a TokenText) -> Cow<'a, str> {
        Cow::Borrowed(t.text())
    }
}

// ------------------------------------------------------------------ NodeOrToken
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum NodeOrToken<N, T> {
    Node(N),
    Token(T),
}
impl<N, T> NodeOrToken<N, T> {
    pub fn into_node(self) -> Option<N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<T> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_node(&self) -> Option<&N> {
        match self {
            NodeOrToken::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_token(&self) -> Option<&T> {
        match self {
            NodeOrToken::Token(n) => Some(n),
            _ => None,
        }
    }
}
impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(n) => n.kind(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_range(),
            NodeOrToken::Token(n) => n.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(n) => n.text_trimmed_range(),
            NodeOrToken::Token(n) => n.text_trimmed_range(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(n) => n.parent(),
            NodeOrToken::Token(n) => n.parent(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(n) => n.index(),
            NodeOrToken::Token(n) => n.index(),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.next_sibling_or_token(),
            NodeOrToken::Token(n) => n.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(n) => n.prev_sibling_or_token(),
            NodeOrToken::Token(n) => n.prev_sibling_or_token(),
        }
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(n: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(n)
    }
}
impl<L: Language> fmt::Display for NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            NodeOrToken::Node(n) => n.fmt(f),
            NodeOrToken::Token(n) => fmt::Display::fmt(n, f),
        }
    }
}

// ------------------------------------------------------------------ AST
pub type SyntaxResult<T> = Result<T, SyntaxError>;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
    UnexpectedMetavariable,
}
impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SyntaxError::MissingRequiredChild => write!(f, "missing required child"),
            SyntaxError::UnexpectedBogusNode => write!(f, "unexpected bogus node"),
            SyntaxError::UnexpectedMetavariable => write!(f, "unexpected metavariable node"),
        }
    }
}
impl std::error::Error for SyntaxError {}

pub trait AstNode: Clone {
    type Language: Language;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>
    where
        Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None }
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> {
        if Self::can_cast(syntax.kind()) { Ok(Self::cast(syntax).unwrap()) } else { Err(syntax) }
    }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(self) -> Result<T, Self> {
        if T::can_cast(self.syntax().kind()) { Ok(T::cast(self.into_syntax()).unwrap()) } else { Err(self) }
    }
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        Self::cast(syntax).expect("unexpected kind")
    }
    fn to_trimmed_text(&self) -> TokenText {
        self.syntax().text_trimmed_into_token_text()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn text(&self) -> String {
        self.to_trimmed_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
}

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator { it: self.syntax_list().children(), p: PhantomData }
    }
    fn len(&self) -> usize {
        self.syntax_list().children().count()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().last()
    }
}
pub struct AstNodeListIterator<L: Language, N> {
    it: SyntaxNodeChildren<L>,
    p: PhantomData<N>,
}
impl<L: Language, N> Clone for AstNodeListIterator<L, N> {
    fn clone(&self) -> Self {
        Self { it: self.it.clone(), p: PhantomData }
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        Some(N::cast(self.it.next()?).expect("unexpected node in list"))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.it.len(), Some(self.it.len()))
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> {
    fn next_back(&mut self) -> Option<N> {
        Some(N::cast(self.it.next_back()?).expect("unexpected node in list"))
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}

#[derive(Clone, Debug)]
pub struct AstSeparatedElement<L: Language, N> {
    pub node: SyntaxResult<N>,
    pub trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L> + Clone> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        match &self.node {
            Ok(n) => Ok(n),
            Err(e) => Err(*e),
        }
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(Some(s)) => Ok(Some(s)),
            Ok(None) => Ok(None),
            Err(e) => Err(*e),
        }
    }
}
pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxNode<Self::Language>;
    fn elements(&self) -> std::vec::IntoIter<AstSeparatedElement<Self::Language, Self::Node>> {
        let mut out: Vec<AstSeparatedElement<Self::Language, Self::Node>> = vec![];
        for e in self.syntax_list().children_with_tokens() {
            match e {
                NodeOrToken::Node(n) => out.push(AstSeparatedElement {
                    node: Ok(Self::Node::cast(n).expect("unexpected node in list")),
                    trailing_separator: Ok(None),
                }),
                NodeOrToken::Token(t) => {
                    if let Some(l) = out.last_mut() {
                        l.trailing_separator = Ok(Some(t));
                    }
                }
            }
        }
        out.into_iter()
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Node> {
        AstSeparatedListNodesIterator {
            it: self.elements().map(|e| e.node).collect::<Vec<_>>().into_iter(),
        }
    }
    fn separators(&self) -> std::vec::IntoIter<SyntaxResult<SyntaxToken<Self::Language>>> {
        self.syntax_list().tokens().map(Ok).collect::<Vec<_>>().into_iter()
    }
    fn len(&self) -> usize {
        self.elements().len()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().last()
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        match self.syntax_list().children_with_tokens().last()? {
            NodeOrToken::Token(t) => Some(t),
            _ => None,
        }
    }
}
#[derive(Clone)]
pub struct AstSeparatedListNodesIterator<N> {
    it: std::vec::IntoIter<SyntaxResult<N>>,
}
impl<N> Iterator for AstSeparatedListNodesIterator<N> {
    type Item = SyntaxResult<N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
impl<N> DoubleEndedIterator for AstSeparatedListNodesIterator<N> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.it.next_back()
    }
}
impl<N> ExactSizeIterator for AstSeparatedListNodesIterator<N> {}

pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(parent: &SyntaxNode<L>, slot: u32) -> Option<N> {
        match parent.element_in_slot(slot)? {
            NodeOrToken::Node(n) => N::cast(n),
            _ => None,
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: u32) -> SyntaxResult<N> {
        node(p, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn token<L: Language>(p: &SyntaxNode<L>, slot: u32) -> Option<SyntaxToken<L>> {
        p.element_in_slot(slot)?.into_token()
    }
    pub fn required_token<L: Language>(p: &SyntaxNode<L>, slot: u32) -> SyntaxResult<SyntaxToken<L>> {
        token(p, slot).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn list<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, slot: u32) -> N {
        node(p, slot).expect("list slot must be present")
    }
}
