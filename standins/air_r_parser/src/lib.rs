//! Offline stand-in for `air_r_parser`: a hand-written lexer and Pratt parser
//! for R that yields the same tree shapes (see ../air_r_syntax).
use air_r_syntax::RSyntaxKind::{self, *};
use air_r_syntax::{RLanguage, RRoot, RSyntaxNode};
use biome_rowan::{AstNode, Build, TextSize, TriviaPiece, TriviaPieceKind, build_tree};

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub struct RParserOptions {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError {
    pub offset: usize,
}

#[derive(Clone, Debug)]
pub struct Parse {
    root: RSyntaxNode,
    error: Option<ParseError>,
}
impl Parse {
    pub fn has_error(&self) -> bool {
        self.error.is_some()
    }
    pub fn error(&self) -> Option<&ParseError> {
        self.error.as_ref()
    }
    pub fn into_error(self) -> Option<ParseError> {
        self.error
    }
    pub fn syntax(&self) -> RSyntaxNode {
        self.root.clone()
    }
    pub fn tree(&self) -> RRoot {
        RRoot::cast(self.root.clone()).expect("root")
    }
}

#[derive(Clone, Debug)]
struct Tok {
    kind: RSyntaxKind,
    start: usize,
    len: usize,
    leading: Vec<TriviaPiece>,
    trailing: Vec<TriviaPiece>,
    /// a newline or `;` separates this token from the previous one
    sep: bool,
    nl: bool,
}

fn piece(kind: TriviaPieceKind, len: usize) -> TriviaPiece {
    TriviaPiece::new(kind, TextSize::from(len as u32))
}

fn is_id_start(c: char) -> bool {
    c.is_alphabetic() || c == '.' || c == '_'
}
fn is_id_cont(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '_'
}

struct Lexer<'a> {
    s: &'a str,
    pos: usize,
}

impl<'a> Lexer<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }

    fn trivia(&mut self) -> Vec<TriviaPiece> {
        let mut out = vec![];
        loop {
            let r = self.rest();
            let Some(c) = r.chars().next() else { break };
            if r.starts_with("\r\n") {
                out.push(piece(TriviaPieceKind::Newline, 2));
                self.pos += 2;
            } else if c == '\n' || c == '\r' {
                out.push(piece(TriviaPieceKind::Newline, 1));
                self.pos += 1;
            } else if c == ';' {
                out.push(piece(TriviaPieceKind::Skipped, 1));
                self.pos += 1;
            } else if c == '#' {
                let end = r.find('\n').unwrap_or(r.len());
                let mut e = end;
                if r[..e].ends_with('\r') {
                    e -= 1;
                }
                out.push(piece(TriviaPieceKind::SingleLineComment, e));
                self.pos += e;
            } else if c.is_whitespace() || c == '\u{feff}' {
                let n: usize = r
                    .chars()
                    .take_while(|c| (c.is_whitespace() || *c == '\u{feff}') && *c != '\n' && *c != '\r')
                    .map(|c| c.len_utf8())
                    .sum();
                out.push(piece(TriviaPieceKind::Whitespace, n));
                self.pos += n;
            } else {
                break;
            }
        }
        out
    }

    fn string(&self, q: char) -> Option<usize> {
        let r = self.rest();
        let mut it = r.char_indices().skip(1);
        while let Some((i, c)) = it.next() {
            if c == '\\' {
                it.next();
            } else if c == q {
                return Some(i + c.len_utf8());
            }
        }
        None
    }

    fn raw_string(&self) -> Option<Option<usize>> {
        // r"---( ... )---"
        let r = self.rest();
        let b = r.as_bytes();
        if b.len() < 2 || !(b[0] == b'r' || b[0] == b'R') || !(b[1] == b'"' || b[1] == b'\'') {
            return None;
        }
        let q = b[1];
        let mut i = 2;
        while i < b.len() && b[i] == b'-' {
            i += 1;
        }
        let dashes = i - 2;
        let close = match b.get(i) {
            Some(b'(') => ')',
            Some(b'[') => ']',
            Some(b'{') => '}',
            _ => return Some(None),
        };
        let end = format!("{}{}{}", close, "-".repeat(dashes), q as char);
        Some(r[i + 1..].find(&end).map(|p| i + 1 + p + end.len()))
    }

    fn number(&self) -> (RSyntaxKind, usize) {
        let b = self.rest().as_bytes();
        let mut i = 0;
        if b.len() > 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X') && b[2].is_ascii_hexdigit() {
            i = 2;
            while i < b.len() && b[i].is_ascii_hexdigit() {
                i += 1;
            }
            if i < b.len() && (b[i] == b'p' || b[i] == b'P') {
                i += 1;
                if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
                    i += 1;
                }
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
        } else {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && b[i] == b'.' {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
        }
        match b.get(i) {
            Some(b'L') => (R_INTEGER_LITERAL, i + 1),
            Some(b'i') => (R_COMPLEX_LITERAL, i + 1),
            _ => (R_DOUBLE_LITERAL, i),
        }
    }

    fn token(&mut self) -> Result<(RSyntaxKind, usize), usize> {
        let r = self.rest();
        let Some(c) = r.chars().next() else { return Ok((EOF, 0)) };
        if let Some(raw) = self.raw_string() {
            return raw.map(|l| (R_STRING_LITERAL, l)).ok_or(self.pos);
        }
        if c == '"' || c == '\'' {
            return self.string(c).map(|l| (R_STRING_LITERAL, l)).ok_or(self.pos);
        }
        if c == '`' {
            return self.string(c).map(|l| (IDENT, l)).ok_or(self.pos);
        }
        let c2 = r[c.len_utf8()..].chars().next();
        if c.is_ascii_digit() || (c == '.' && c2.is_some_and(|c| c.is_ascii_digit())) {
            return Ok(self.number());
        }
        if is_id_start(c) {
            let n: usize = r.chars().take_while(|c| is_id_cont(*c)).map(|c| c.len_utf8()).sum();
            let w = &r[..n];
            if w.starts_with('_') && n > 1 {
                return Err(self.pos);
            }
            let k = match w {
                "function" => FUNCTION_KW,
                "for" => FOR_KW,
                "in" => IN_KW,
                "while" => WHILE_KW,
                "repeat" => REPEAT_KW,
                "if" => IF_KW,
                "else" => ELSE_KW,
                "return" => RETURN_KW,
                "break" => BREAK_KW,
                "next" => NEXT_KW,
                "TRUE" => TRUE_KW,
                "FALSE" => FALSE_KW,
                "NULL" => NULL_KW,
                "Inf" => INF_KW,
                "NaN" => NAN_KW,
                "NA" => NA_LOGICAL_KW,
                "NA_integer_" => NA_INTEGER_KW,
                "NA_real_" => NA_DOUBLE_KW,
                "NA_complex_" => NA_COMPLEX_KW,
                "NA_character_" => NA_CHARACTER_KW,
                "..." => DOTS,
                _ => {
                    if w.len() > 2 && w.starts_with("..") && w[2..].bytes().all(|b| b.is_ascii_digit()) {
                        DOT_DOT_I
                    } else {
                        IDENT
                    }
                }
            };
            return Ok((k, n));
        }
        if c == '%' {
            let line = &r[..r.find('\n').unwrap_or(r.len())];
            return line[1..].find('%').map(|p| (SPECIAL, p + 2)).ok_or(self.pos);
        }
        const OPS: &[(&str, RSyntaxKind)] = &[
            ("<<-", SUPER_ASSIGN),
            ("->>", SUPER_ASSIGN_RIGHT),
            (":::", COLON3),
            ("<-", ASSIGN),
            ("->", ASSIGN_RIGHT),
            (":=", WALRUS),
            ("::", COLON2),
            ("||", OR2),
            ("|>", PIPE),
            ("&&", AND2),
            (">=", GREATER_THAN_OR_EQUAL_TO),
            ("<=", LESS_THAN_OR_EQUAL_TO),
            ("==", EQUAL2),
            ("!=", NOT_EQUAL),
            ("**", EXPONENTIATE2),
            ("[[", L_BRACK2),
            ("?", WAT),
            ("~", TILDE),
            ("|", OR),
            ("&", AND),
            ("!", BANG),
            (">", GREATER_THAN),
            ("<", LESS_THAN),
            ("+", PLUS),
            ("-", MINUS),
            ("*", MULTIPLY),
            ("/", DIVIDE),
            ("^", EXPONENTIATE),
            (":", COLON),
            ("$", DOLLAR),
            ("@", AT),
            ("=", EQUAL),
            ("\\", BACKSLASH),
            (",", COMMA),
            ("{", L_CURLY),
            ("}", R_CURLY),
            ("(", L_PAREN),
            (")", R_PAREN),
            ("[", L_BRACK),
            ("]", R_BRACK),
        ];
        for (s, k) in OPS {
            if r.starts_with(s) {
                return Ok((*k, s.len()));
            }
        }
        Err(self.pos)
    }
}

fn lex(s: &str) -> Result<Vec<Tok>, usize> {
    let mut lx = Lexer { s, pos: 0 };
    let mut out: Vec<Tok> = vec![];
    loop {
        let tr = lx.trivia();
        let sep = tr.iter().any(|p| matches!(p.kind, TriviaPieceKind::Newline | TriviaPieceKind::Skipped));
        let nl = tr.iter().any(|p| matches!(p.kind, TriviaPieceKind::Newline));
        let mut leading = tr;
        if let Some(prev) = out.last_mut() {
            // trailing trivia: up to, not including, the first newline
            let cut = leading.iter().position(|p| p.kind == TriviaPieceKind::Newline).unwrap_or(leading.len());
            // whitespace/comments on the same line belong to the previous token, except
            // when the next token follows on the same line without a comment.
            let rest = leading.split_off(cut);
            prev.trailing = leading;
            leading = rest;
        }
        let start = lx.pos;
        let (kind, len) = lx.token()?;
        lx.pos += len;
        out.push(Tok { kind, start, len, leading, trailing: vec![], sep, nl });
        if kind == EOF {
            return Ok(out);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Top,
    Brace,
    Paren,
}

struct P {
    toks: Vec<Tok>,
    i: usize,
    ctx: Vec<Ctx>,
    depth: usize,
}
type R<T> = Result<T, usize>;

fn node(kind: RSyntaxKind, slots: Vec<Option<Build>>) -> Build {
    Build::Node { kind: kind as u16, slots }
}

impl P {
    fn kind(&self) -> RSyntaxKind {
        self.toks[self.i].kind
    }
    fn err<T>(&self) -> R<T> {
        Err(self.toks[self.i].start)
    }
    fn bump(&mut self) -> Build {
        let t = &self.toks[self.i];
        self.i += 1;
        Build::Token {
            kind: t.kind as u16,
            leading: t.leading.clone(),
            len: t.len as u32,
            trailing: t.trailing.clone(),
        }
    }
    fn bump_as(&mut self, k: RSyntaxKind) -> Build {
        self.toks[self.i].kind = k;
        self.bump()
    }
    fn expect(&mut self, k: RSyntaxKind) -> R<Build> {
        if self.kind() == k { Ok(self.bump()) } else { self.err() }
    }
    fn cur(&self) -> Ctx {
        *self.ctx.last().unwrap()
    }
    /// does a statement separator precede the current token here?
    fn at_sep(&self) -> bool {
        let t = &self.toks[self.i];
        if self.cur() == Ctx::Paren { t.sep && !t.nl } else { t.sep }
    }

    fn expr_list(&mut self, end: RSyntaxKind) -> R<Build> {
        let mut v = vec![];
        let mut first = true;
        while self.kind() != end {
            if !first && !self.at_sep() {
                return self.err();
            }
            first = false;
            v.push(Some(self.expr(0)?));
        }
        Ok(node(R_EXPRESSION_LIST, v))
    }

    fn with<T>(&mut self, c: Ctx, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.ctx.push(c);
        let r = f(self);
        self.ctx.pop();
        r
    }

    fn infix(k: RSyntaxKind) -> Option<(u8, u8)> {
        Some(match k {
            WAT => (1, 2),
            EQUAL => (4, 3),
            ASSIGN | SUPER_ASSIGN | WALRUS => (6, 5),
            ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT => (7, 8),
            TILDE => (9, 10),
            OR | OR2 => (11, 12),
            AND | AND2 => (13, 14),
            GREATER_THAN | GREATER_THAN_OR_EQUAL_TO | LESS_THAN | LESS_THAN_OR_EQUAL_TO | EQUAL2 | NOT_EQUAL => (17, 18),
            PLUS | MINUS => (19, 20),
            MULTIPLY | DIVIDE => (21, 22),
            SPECIAL | PIPE => (23, 24),
            COLON => (25, 26),
            EXPONENTIATE | EXPONENTIATE2 => (30, 29),
            _ => return None,
        })
    }

    fn expr(&mut self, min: u8) -> R<Build> {
        self.depth += 1;
        if self.depth > 1200 {
            return self.err();
        }
        let r = self.expr_inner(min);
        self.depth -= 1;
        r
    }

    fn expr_inner(&mut self, min: u8) -> R<Build> {
        let mut left = self.prefix()?;
        loop {
            if self.at_sep() {
                return Ok(left);
            }
            let k = self.kind();
            match k {
                L_PAREN => {
                    let a = self.args(L_PAREN)?;
                    left = node(R_CALL, vec![Some(left), Some(a)]);
                }
                L_BRACK => {
                    let a = self.args(L_BRACK)?;
                    left = node(R_SUBSET, vec![Some(left), Some(a)]);
                }
                L_BRACK2 => {
                    let a = self.args(L_BRACK2)?;
                    left = node(R_SUBSET2, vec![Some(left), Some(a)]);
                }
                DOLLAR | AT => {
                    let op = self.bump();
                    let rhs = self.selector()?;
                    left = node(R_EXTRACT_EXPRESSION, vec![Some(left), Some(op), Some(rhs)]);
                }
                COLON2 | COLON3 => {
                    let ok = matches!(&left, Build::Node { kind, .. } if *kind == R_IDENTIFIER as u16 || *kind == R_STRING_VALUE as u16);
                    if !ok {
                        return self.err();
                    }
                    let op = self.bump();
                    let rhs = self.selector()?;
                    left = node(R_NAMESPACE_EXPRESSION, vec![Some(left), Some(op), Some(rhs)]);
                }
                _ => {
                    let Some((l, r)) = Self::infix(k) else { return Ok(left) };
                    if l < min {
                        return Ok(left);
                    }
                    let op = self.bump();
                    let right = self.expr(r)?;
                    left = node(R_BINARY_EXPRESSION, vec![Some(left), Some(op), Some(right)]);
                }
            }
        }
    }

    fn selector(&mut self) -> R<Build> {
        match self.kind() {
            IDENT | R_STRING_LITERAL | DOTS | DOT_DOT_I | L_PAREN | L_CURLY => self.prefix(),
            _ => self.err(),
        }
    }

    fn leaf(&mut self, k: RSyntaxKind) -> Build {
        let t = self.bump();
        node(k, vec![Some(t)])
    }

    fn cond(&mut self) -> R<(Build, Build, Build)> {
        let l = self.expect(L_PAREN)?;
        let c = self.with(Ctx::Paren, |p| p.expr(0))?;
        let r = self.expect(R_PAREN)?;
        Ok((l, c, r))
    }

    fn prefix(&mut self) -> R<Build> {
        Ok(match self.kind() {
            IDENT => self.leaf(R_IDENTIFIER),
            DOTS => self.leaf(R_DOTS),
            DOT_DOT_I => self.leaf(R_DOT_DOT_I),
            R_INTEGER_LITERAL => self.leaf(R_INTEGER_VALUE),
            R_DOUBLE_LITERAL => self.leaf(R_DOUBLE_VALUE),
            R_COMPLEX_LITERAL => self.leaf(R_COMPLEX_VALUE),
            R_STRING_LITERAL => self.leaf(R_STRING_VALUE),
            TRUE_KW => self.leaf(R_TRUE_EXPRESSION),
            FALSE_KW => self.leaf(R_FALSE_EXPRESSION),
            NULL_KW => self.leaf(R_NULL_EXPRESSION),
            INF_KW => self.leaf(R_INF_EXPRESSION),
            NAN_KW => self.leaf(R_NAN_EXPRESSION),
            NA_LOGICAL_KW | NA_INTEGER_KW | NA_DOUBLE_KW | NA_COMPLEX_KW | NA_CHARACTER_KW => self.leaf(R_NA_EXPRESSION),
            NEXT_KW => self.leaf(R_NEXT_EXPRESSION),
            BREAK_KW => self.leaf(R_BREAK_EXPRESSION),
            RETURN_KW => self.leaf(R_RETURN_EXPRESSION),
            MINUS | PLUS | BANG | TILDE | WAT => {
                let bp = match self.kind() {
                    MINUS | PLUS => 27,
                    BANG => 15,
                    TILDE => 10,
                    _ => 2,
                };
                let op = self.bump();
                let a = self.expr(bp)?;
                node(R_UNARY_EXPRESSION, vec![Some(op), Some(a)])
            }
            L_PAREN => {
                let l = self.bump();
                let b = self.with(Ctx::Paren, |p| p.expr(0))?;
                let r = self.expect(R_PAREN)?;
                node(R_PARENTHESIZED_EXPRESSION, vec![Some(l), Some(b), Some(r)])
            }
            L_CURLY => {
                let l = self.bump();
                let b = self.with(Ctx::Brace, |p| p.expr_list(R_CURLY))?;
                let r = self.expect(R_CURLY)?;
                node(R_BRACED_EXPRESSIONS, vec![Some(l), Some(b), Some(r)])
            }
            FUNCTION_KW | BACKSLASH => {
                let n = self.bump();
                let ps = self.params()?;
                let b = self.expr(0)?;
                node(R_FUNCTION_DEFINITION, vec![Some(n), Some(ps), Some(b)])
            }
            IF_KW => {
                let t = self.bump();
                let (l, c, r) = self.cond()?;
                let b = self.expr(0)?;
                let mut els = None;
                if self.kind() == ELSE_KW {
                    if self.at_sep() && self.cur() == Ctx::Top {
                        return self.err();
                    }
                    let e = self.bump();
                    let a = self.expr(0)?;
                    els = Some(node(R_ELSE_CLAUSE, vec![Some(e), Some(a)]));
                }
                node(R_IF_STATEMENT, vec![Some(t), Some(l), Some(c), Some(r), Some(b), els])
            }
            FOR_KW => {
                let t = self.bump();
                let l = self.expect(L_PAREN)?;
                if self.kind() != IDENT {
                    return self.err();
                }
                let v = self.leaf(R_IDENTIFIER);
                let i = self.expect(IN_KW)?;
                let s = self.with(Ctx::Paren, |p| p.expr(0))?;
                let r = self.expect(R_PAREN)?;
                let b = self.expr(0)?;
                node(R_FOR_STATEMENT, vec![Some(t), Some(l), Some(v), Some(i), Some(s), Some(r), Some(b)])
            }
            WHILE_KW => {
                let t = self.bump();
                let (l, c, r) = self.cond()?;
                let b = self.expr(0)?;
                node(R_WHILE_STATEMENT, vec![Some(t), Some(l), Some(c), Some(r), Some(b)])
            }
            REPEAT_KW => {
                let t = self.bump();
                let b = self.expr(0)?;
                node(R_REPEAT_STATEMENT, vec![Some(t), Some(b)])
            }
            _ => return self.err(),
        })
    }

    fn params(&mut self) -> R<Build> {
        let l = self.expect(L_PAREN)?;
        let items = self.with(Ctx::Paren, |p| {
            let mut v = vec![];
            if p.kind() == R_PAREN {
                return Ok(node(R_PARAMETER_LIST, v));
            }
            loop {
                let n = match p.kind() {
                    IDENT => p.leaf(R_IDENTIFIER),
                    DOTS => p.leaf(R_DOTS),
                    DOT_DOT_I => p.leaf(R_DOT_DOT_I),
                    _ => return p.err(),
                };
                let mut d = None;
                if p.kind() == EQUAL {
                    let e = p.bump();
                    let x = p.expr(5)?;
                    d = Some(node(R_PARAMETER_DEFAULT, vec![Some(e), Some(x)]));
                }
                v.push(Some(node(R_PARAMETER, vec![Some(n), d])));
                if p.kind() != COMMA {
                    break;
                }
                v.push(Some(p.bump()));
            }
            Ok(node(R_PARAMETER_LIST, v))
        })?;
        let r = self.expect(R_PAREN)?;
        Ok(node(R_PARAMETERS, vec![Some(l), Some(items), Some(r)]))
    }

    fn args(&mut self, open: RSyntaxKind) -> R<Build> {
        let (nk, close) = match open {
            L_PAREN => (R_CALL_ARGUMENTS, R_PAREN),
            L_BRACK => (R_SUBSET_ARGUMENTS, R_BRACK),
            _ => (R_SUBSET2_ARGUMENTS, R_BRACK),
        };
        let l = self.bump();
        let items = self.with(Ctx::Paren, |p| {
            let mut v = vec![];
            if p.kind() == close {
                return Ok(node(R_ARGUMENT_LIST, v));
            }
            loop {
                let k = p.kind();
                if k == COMMA || k == close {
                    v.push(Some(node(R_ARGUMENT, vec![None, None])));
                } else {
                    let mut name = None;
                    if matches!(k, IDENT | R_STRING_LITERAL | NULL_KW | DOTS | DOT_DOT_I) && p.toks[p.i + 1].kind == EQUAL {
                        let n = p.prefix()?;
                        let e = p.bump();
                        name = Some(node(R_ARGUMENT_NAME_CLAUSE, vec![Some(n), Some(e)]));
                    }
                    let mut val = None;
                    if !(p.kind() == COMMA || p.kind() == close) {
                        val = Some(p.expr(5)?);
                    }
                    v.push(Some(node(R_ARGUMENT, vec![name, val])));
                }
                if p.kind() != COMMA {
                    break;
                }
                v.push(Some(p.bump()));
            }
            Ok(node(R_ARGUMENT_LIST, v))
        })?;
        let r = if open == L_BRACK2 {
            // two adjacent `]`
            let (a, b) = (self.i, self.i + 1);
            if self.kind() != R_BRACK
                || self.toks[b].kind != R_BRACK
                || self.toks[b].start != self.toks[a].start + 1
            {
                return self.err();
            }
            let second = self.toks[b].clone();
            let t = &mut self.toks[a];
            t.len = 2;
            t.trailing = second.trailing;
            t.kind = R_BRACK2;
            let r = self.bump();
            self.i += 1;
            r
        } else {
            self.expect(close)?
        };
        Ok(node(nk, vec![Some(l), Some(items), Some(r)]))
    }
}

pub fn parse(text: &str, _options: RParserOptions) -> Parse {
    let res = lex(text).and_then(|toks| {
        let mut p = P { toks, i: 0, ctx: vec![Ctx::Top], depth: 0 };
        let list = p.expr_list(EOF)?;
        let eof = p.bump();
        Ok(node(R_ROOT, vec![None, Some(list), Some(eof)]))
    });
    match res {
        Ok(b) => Parse { root: build_tree::<RLanguage>(text, b), error: None },
        Err(offset) => {
            let b = node(
                R_ROOT,
                vec![
                    None,
                    Some(node(R_EXPRESSION_LIST, vec![])),
                    Some(Build::Token {
                        kind: EOF as u16,
                        leading: if text.is_empty() {
                            vec![]
                        } else {
                            vec![piece(TriviaPieceKind::Skipped, text.len())]
                        },
                        len: 0,
                        trailing: vec![],
                    }),
                ],
            );
            Parse { root: build_tree::<RLanguage>(text, b), error: Some(ParseError { offset }) }
        }
    }
}
