//! Offline stand-in for the `comments` module of `biome_formatter`:
//! the same comment attachment algorithm over the rowan stand-in.
pub mod comments {
    use biome_rowan::{
        Direction, Language, NodeOrToken, SyntaxKind, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments, WalkEvent,
    };
    use std::collections::HashMap;

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum CommentKind {
        InlineBlock,
        Block,
        Line,
    }
    impl CommentKind {
        pub const fn is_line(&self) -> bool {
            matches!(self, CommentKind::Line)
        }
        pub const fn is_block(&self) -> bool {
            matches!(self, CommentKind::Block)
        }
        pub const fn is_inline_block(&self) -> bool {
            matches!(self, CommentKind::InlineBlock)
        }
        pub const fn is_inline(&self) -> bool {
            matches!(self, CommentKind::InlineBlock)
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum CommentTextPosition {
        EndOfLine,
        OwnLine,
        SameLine,
    }
    impl CommentTextPosition {
        pub const fn is_same_line(&self) -> bool {
            matches!(self, Self::SameLine)
        }
        pub const fn is_own_line(&self) -> bool {
            matches!(self, Self::OwnLine)
        }
        pub const fn is_end_of_line(&self) -> bool {
            matches!(self, Self::EndOfLine)
        }
    }

    #[derive(Debug, Clone)]
    pub struct SourceComment<L: Language> {
        lines_before: u32,
        lines_after: u32,
        piece: SyntaxTriviaPieceComments<L>,
        kind: CommentKind,
    }
    impl<L: Language> SourceComment<L> {
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.piece
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
        pub fn lines_after(&self) -> u32 {
            self.lines_after
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
    }

    #[derive(Debug, Clone)]
    pub struct DecoratedComment<L: Language> {
        enclosing: SyntaxNode<L>,
        preceding: Option<SyntaxNode<L>>,
        following: Option<SyntaxNode<L>>,
        following_token: Option<SyntaxToken<L>>,
        text_position: CommentTextPosition,
        lines_before: u32,
        lines_after: u32,
        comment: SyntaxTriviaPieceComments<L>,
        kind: CommentKind,
    }
    impl<L: Language> DecoratedComment<L> {
        pub fn enclosing_node(&self) -> &SyntaxNode<L> {
            &self.enclosing
        }
        pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
            &self.comment
        }
        pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
            self.preceding.as_ref()
        }
        pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
            self.following.as_ref()
        }
        pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
            self.following_token.as_ref()
        }
        pub fn lines_before(&self) -> u32 {
            self.lines_before
        }
        pub fn lines_after(&self) -> u32 {
            self.lines_after
        }
        pub fn kind(&self) -> CommentKind {
            self.kind
        }
        pub fn text_position(&self) -> CommentTextPosition {
            self.text_position
        }
    }
    impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
        fn from(d: DecoratedComment<L>) -> Self {
            Self { lines_before: d.lines_before, lines_after: d.lines_after, piece: d.comment, kind: d.kind }
        }
    }

    #[derive(Debug)]
    pub enum CommentPlacement<L: Language> {
        Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
        Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
        Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
        Default(DecoratedComment<L>),
    }
    impl<L: Language> CommentPlacement<L> {
        pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Leading { node, comment: comment.into() }
        }
        pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Dangling { node, comment: comment.into() }
        }
        pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
            Self::Trailing { node, comment: comment.into() }
        }
        pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self {
            match self {
                CommentPlacement::Default(c) => f(c),
                p => p,
            }
        }
    }

    pub trait CommentStyle: Default {
        type Language: Language;
        fn is_suppression(_text: &str) -> bool {
            false
        }
        fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
        fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> {
            CommentPlacement::Default(comment)
        }
    }

    pub struct TransformSourceMap;

    #[derive(Debug, Clone)]
    struct Entry<L: Language> {
        leading: Vec<SourceComment<L>>,
        trailing: Vec<SourceComment<L>>,
        dangling: Vec<SourceComment<L>>,
    }
    #[derive(Debug, Clone)]
    pub struct Comments<L: Language> {
        map: HashMap<SyntaxNode<L>, Entry<L>>,
    }
    impl<L: Language> Default for Comments<L> {
        fn default() -> Self {
            Self { map: HashMap::new() }
        }
    }
    impl<L: Language> Comments<L> {
        pub fn from_node<S: CommentStyle<Language = L>>(
            root: &SyntaxNode<L>,
            style: &S,
            _map: Option<&TransformSourceMap>,
        ) -> Self {
            let mut v = Visitor {
                style,
                out: Comments::default(),
                last_token: None,
                preceding: None,
                following: None,
                parents: vec![],
                pending: vec![],
            };
            for e in root.preorder_with_tokens(Direction::Next) {
                match e {
                    WalkEvent::Enter(NodeOrToken::Node(n)) => v.enter(n),
                    WalkEvent::Leave(NodeOrToken::Node(n)) => v.leave(n),
                    WalkEvent::Enter(NodeOrToken::Token(t)) => v.token(t),
                    WalkEvent::Leave(NodeOrToken::Token(_)) => {}
                }
            }
            v.flush(None);
            v.out
        }
        pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.map.get(n).map_or(&[], |e| &e.leading)
        }
        pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.map.get(n).map_or(&[], |e| &e.trailing)
        }
        pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] {
            self.map.get(n).map_or(&[], |e| &e.dangling)
        }
        pub fn has_leading_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.leading_comments(n).is_empty()
        }
        pub fn has_trailing_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.trailing_comments(n).is_empty()
        }
        pub fn has_dangling_comments(&self, n: &SyntaxNode<L>) -> bool {
            !self.dangling_comments(n).is_empty()
        }
        pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool {
            self.map.contains_key(n)
        }
        pub fn leading_trailing_comments(&self, n: &SyntaxNode<L>) -> impl Iterator<Item = &SourceComment<L>> {
            self.leading_comments(n).iter().chain(self.trailing_comments(n))
        }
        pub fn leading_dangling_trailing_comments<'a>(
            &'a self,
            n: &'a SyntaxNode<L>,
        ) -> impl Iterator<Item = &'a SourceComment<L>> + 'a {
            self.leading_comments(n)
                .iter()
                .chain(self.dangling_comments(n))
                .chain(self.trailing_comments(n))
        }
    }

    struct Visitor<'a, L: Language, S> {
        style: &'a S,
        out: Comments<L>,
        last_token: Option<SyntaxToken<L>>,
        preceding: Option<SyntaxNode<L>>,
        following: Option<usize>,
        parents: Vec<SyntaxNode<L>>,
        pending: Vec<DecoratedComment<L>>,
    }
    impl<L: Language, S: CommentStyle<Language = L>> Visitor<'_, L, S> {
        fn enter(&mut self, n: SyntaxNode<L>) {
            if n.kind().is_list() {
                return;
            }
            let is_root = matches!(self.following, Some(0));
            if self.following.is_none() || is_root {
                self.flush(Some(n.clone()));
                self.following = Some(self.parents.len());
            }
            self.parents.push(n);
        }
        fn leave(&mut self, n: SyntaxNode<L>) {
            if n.kind().is_list() {
                return;
            }
            self.parents.pop();
            self.following = None;
            self.flush(None);
            self.preceding = Some(n);
        }
        fn enclosing(&self) -> SyntaxNode<L> {
            match self.following {
                None => self.parents.last().expect("enclosing").clone(),
                Some(0) => self.parents[0].clone(),
                Some(i) => self.parents[i - 1].clone(),
            }
        }
        fn token(&mut self, t: SyntaxToken<L>) {
            let mut found: Vec<(SyntaxTriviaPieceComments<L>, CommentTextPosition, u32)> = vec![];
            let mut lines = 0;
            let mut pos = CommentTextPosition::SameLine;
            match self.last_token.take() {
                Some(last) => {
                    for p in last.trailing_trivia().pieces() {
                        if let Some(c) = p.as_comments() {
                            found.push((c, CommentTextPosition::EndOfLine, 0));
                        }
                    }
                }
                None => pos = CommentTextPosition::OwnLine,
            }
            for p in t.leading_trivia().pieces() {
                if p.is_newline() {
                    lines += 1;
                    pos = CommentTextPosition::OwnLine;
                } else if let Some(c) = p.as_comments() {
                    found.push((c, pos, lines));
                    lines = 0;
                }
            }
            for (c, position, lines_before) in found {
                let kind = S::get_comment_kind(&c);
                let position = if kind.is_line() && position == CommentTextPosition::SameLine {
                    CommentTextPosition::EndOfLine
                } else {
                    position
                };
                let d = DecoratedComment {
                    enclosing: self.enclosing(),
                    preceding: self.preceding.clone(),
                    following: None,
                    following_token: Some(t.clone()),
                    text_position: position,
                    lines_before,
                    lines_after: 1,
                    comment: c,
                    kind,
                };
                self.pending.push(d);
            }
            self.last_token = Some(t);
            if let Some(i) = self.following {
                let n = self.parents.get(i).cloned();
                self.flush(n);
                self.following = None;
                self.preceding = None;
            }
        }
        fn flush(&mut self, following: Option<SyntaxNode<L>>) {
            for mut c in std::mem::take(&mut self.pending) {
                c.following = following.clone();
                let p = self.style.place_comment(c);
                self.add(p);
            }
        }
        fn entry(&mut self, n: SyntaxNode<L>) -> &mut Entry<L> {
            self.out
                .map
                .entry(n)
                .or_insert_with(|| Entry { leading: vec![], trailing: vec![], dangling: vec![] })
        }
        fn add(&mut self, p: CommentPlacement<L>) {
            match p {
                CommentPlacement::Leading { node, comment } => self.entry(node).leading.push(comment),
                CommentPlacement::Trailing { node, comment } => self.entry(node).trailing.push(comment),
                CommentPlacement::Dangling { node, comment } => self.entry(node).dangling.push(comment),
                CommentPlacement::Default(c) => {
                    let (pre, fol, enc) = (c.preceding.clone(), c.following.clone(), c.enclosing.clone());
                    let pos = c.text_position;
                    let s: SourceComment<L> = c.into();
                    match pos {
                        CommentTextPosition::EndOfLine => match (pre, fol) {
                            (Some(p), _) => self.entry(p).trailing.push(s),
                            (None, Some(f)) => self.entry(f).leading.push(s),
                            (None, None) => self.entry(enc).dangling.push(s),
                        },
                        CommentTextPosition::OwnLine => match (pre, fol) {
                            (_, Some(f)) => self.entry(f).leading.push(s),
                            (Some(p), None) => self.entry(p).trailing.push(s),
                            (None, None) => self.entry(enc).dangling.push(s),
                        },
                        CommentTextPosition::SameLine => match (pre, fol) {
                            (_, Some(f)) => self.entry(f).leading.push(s),
                            (Some(p), None) => self.entry(p).trailing.push(s),
                            (None, None) => self.entry(enc).dangling.push(s),
                        },
                    }
                }
            }
        }
    }
}
