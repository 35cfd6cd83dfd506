//! GENERATED by gen.py - offline stand-in for `air_r_syntax`.
#![allow(clippy::all, non_camel_case_types)]

pub use biome_rowan::{TextRange, TextSize, TriviaPieceKind};
use biome_rowan::{AstNode, AstNodeList, AstNodeListIterator, AstSeparatedList, AstSeparatedListNodesIterator, Language, RawSyntaxKind, SyntaxKind, SyntaxResult, support};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u16)]
pub enum RSyntaxKind {
    TOMBSTONE,
    EOF,
    SEMICOLON,
    COMMA,
    L_CURLY,
    R_CURLY,
    L_PAREN,
    R_PAREN,
    L_BRACK,
    R_BRACK,
    L_BRACK2,
    R_BRACK2,
    DOTS,
    DOT_DOT_I,
    WAT,
    TILDE,
    ASSIGN,
    SUPER_ASSIGN,
    WALRUS,
    ASSIGN_RIGHT,
    SUPER_ASSIGN_RIGHT,
    OR,
    AND,
    OR2,
    AND2,
    BANG,
    GREATER_THAN,
    GREATER_THAN_OR_EQUAL_TO,
    LESS_THAN,
    LESS_THAN_OR_EQUAL_TO,
    EQUAL2,
    NOT_EQUAL,
    PLUS,
    MINUS,
    MULTIPLY,
    DIVIDE,
    EXPONENTIATE,
    EXPONENTIATE2,
    PIPE,
    SPECIAL,
    COLON,
    COLON2,
    COLON3,
    DOLLAR,
    AT,
    EQUAL,
    BACKSLASH,
    FUNCTION_KW,
    FOR_KW,
    IN_KW,
    WHILE_KW,
    REPEAT_KW,
    IF_KW,
    ELSE_KW,
    RETURN_KW,
    BREAK_KW,
    NEXT_KW,
    TRUE_KW,
    FALSE_KW,
    NULL_KW,
    INF_KW,
    NAN_KW,
    NA_LOGICAL_KW,
    NA_INTEGER_KW,
    NA_DOUBLE_KW,
    NA_COMPLEX_KW,
    NA_CHARACTER_KW,
    R_INTEGER_LITERAL,
    R_DOUBLE_LITERAL,
    R_COMPLEX_LITERAL,
    R_STRING_LITERAL,
    R_LOGICAL_LITERAL,
    IDENT,
    NEWLINE,
    WHITESPACE,
    COMMENT,
    UNICODE_BOM,
    ERROR_TOKEN,
    __TOKENS_END,
    R_ROOT,
    R_IDENTIFIER,
    R_DOTS,
    R_DOT_DOT_I,
    R_INTEGER_VALUE,
    R_DOUBLE_VALUE,
    R_COMPLEX_VALUE,
    R_STRING_VALUE,
    R_TRUE_EXPRESSION,
    R_FALSE_EXPRESSION,
    R_NULL_EXPRESSION,
    R_INF_EXPRESSION,
    R_NAN_EXPRESSION,
    R_NA_EXPRESSION,
    R_NEXT_EXPRESSION,
    R_BREAK_EXPRESSION,
    R_RETURN_EXPRESSION,
    R_FUNCTION_DEFINITION,
    R_PARAMETERS,
    R_PARAMETER,
    R_PARAMETER_DEFAULT,
    R_BRACED_EXPRESSIONS,
    R_PARENTHESIZED_EXPRESSION,
    R_CALL,
    R_SUBSET,
    R_SUBSET2,
    R_CALL_ARGUMENTS,
    R_SUBSET_ARGUMENTS,
    R_SUBSET2_ARGUMENTS,
    R_ARGUMENT,
    R_ARGUMENT_NAME_CLAUSE,
    R_IF_STATEMENT,
    R_ELSE_CLAUSE,
    R_FOR_STATEMENT,
    R_WHILE_STATEMENT,
    R_REPEAT_STATEMENT,
    R_UNARY_EXPRESSION,
    R_BINARY_EXPRESSION,
    R_EXTRACT_EXPRESSION,
    R_NAMESPACE_EXPRESSION,
    R_EXPRESSION_LIST,
    R_ARGUMENT_LIST,
    R_PARAMETER_LIST,
    R_BOGUS,
    R_BOGUS_VALUE,
    R_BOGUS_EXPRESSION,
    __LAST,
}
use RSyntaxKind::*;
const ALL: &[RSyntaxKind] = &[TOMBSTONE, EOF, SEMICOLON, COMMA, L_CURLY, R_CURLY, L_PAREN, R_PAREN, L_BRACK, R_BRACK, L_BRACK2, R_BRACK2, DOTS, DOT_DOT_I, WAT, TILDE, ASSIGN, SUPER_ASSIGN, WALRUS, ASSIGN_RIGHT, SUPER_ASSIGN_RIGHT, OR, AND, OR2, AND2, BANG, GREATER_THAN, GREATER_THAN_OR_EQUAL_TO, LESS_THAN, LESS_THAN_OR_EQUAL_TO, EQUAL2, NOT_EQUAL, PLUS, MINUS, MULTIPLY, DIVIDE, EXPONENTIATE, EXPONENTIATE2, PIPE, SPECIAL, COLON, COLON2, COLON3, DOLLAR, AT, EQUAL, BACKSLASH, FUNCTION_KW, FOR_KW, IN_KW, WHILE_KW, REPEAT_KW, IF_KW, ELSE_KW, RETURN_KW, BREAK_KW, NEXT_KW, TRUE_KW, FALSE_KW, NULL_KW, INF_KW, NAN_KW, NA_LOGICAL_KW, NA_INTEGER_KW, NA_DOUBLE_KW, NA_COMPLEX_KW, NA_CHARACTER_KW, R_INTEGER_LITERAL, R_DOUBLE_LITERAL, R_COMPLEX_LITERAL, R_STRING_LITERAL, R_LOGICAL_LITERAL, IDENT, NEWLINE, WHITESPACE, COMMENT, UNICODE_BOM, ERROR_TOKEN, __TOKENS_END, R_ROOT, R_IDENTIFIER, R_DOTS, R_DOT_DOT_I, R_INTEGER_VALUE, R_DOUBLE_VALUE, R_COMPLEX_VALUE, R_STRING_VALUE, R_TRUE_EXPRESSION, R_FALSE_EXPRESSION, R_NULL_EXPRESSION, R_INF_EXPRESSION, R_NAN_EXPRESSION, R_NA_EXPRESSION, R_NEXT_EXPRESSION, R_BREAK_EXPRESSION, R_RETURN_EXPRESSION, R_FUNCTION_DEFINITION, R_PARAMETERS, R_PARAMETER, R_PARAMETER_DEFAULT, R_BRACED_EXPRESSIONS, R_PARENTHESIZED_EXPRESSION, R_CALL, R_SUBSET, R_SUBSET2, R_CALL_ARGUMENTS, R_SUBSET_ARGUMENTS, R_SUBSET2_ARGUMENTS, R_ARGUMENT, R_ARGUMENT_NAME_CLAUSE, R_IF_STATEMENT, R_ELSE_CLAUSE, R_FOR_STATEMENT, R_WHILE_STATEMENT, R_REPEAT_STATEMENT, R_UNARY_EXPRESSION, R_BINARY_EXPRESSION, R_EXTRACT_EXPRESSION, R_NAMESPACE_EXPRESSION, R_EXPRESSION_LIST, R_ARGUMENT_LIST, R_PARAMETER_LIST, R_BOGUS, R_BOGUS_VALUE, R_BOGUS_EXPRESSION];
impl RSyntaxKind {
    pub fn is_punct(self) -> bool { (self as u16) > (EOF as u16) && (self as u16) < (FUNCTION_KW as u16) }
    pub fn is_keyword(self) -> bool { (self as u16) >= (FUNCTION_KW as u16) && (self as u16) <= (NA_CHARACTER_KW as u16) }
    pub fn is_literal(self) -> bool { (self as u16) >= (R_INTEGER_LITERAL as u16) && (self as u16) <= (R_LOGICAL_LITERAL as u16) }
    pub fn is_trivia(self) -> bool { matches!(self, NEWLINE | WHITESPACE | COMMENT) }
}
impl SyntaxKind for RSyntaxKind {
    fn is_list(&self) -> bool { matches!(self, R_EXPRESSION_LIST | R_ARGUMENT_LIST | R_PARAMETER_LIST) }
    fn is_bogus(&self) -> bool { matches!(self, R_BOGUS | R_BOGUS_VALUE | R_BOGUS_EXPRESSION) }
    fn to_raw(&self) -> RawSyntaxKind { RawSyntaxKind(*self as u16) }
    fn from_raw(raw: RawSyntaxKind) -> Self { ALL[raw.0 as usize] }
}
impl From<RSyntaxKind> for u16 { fn from(k: RSyntaxKind) -> u16 { k as u16 } }
#[derive(Debug, Default, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxNodeChildren = biome_rowan::SyntaxNodeChildren<RLanguage>;
pub type RSyntaxList = RSyntaxNode;
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RRoot { pub(crate) syntax: RSyntaxNode }
impl AstNode for RRoot {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ROOT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_ROOT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RRoot { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RRoot({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RRoot { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RRoot> for RSyntaxNode { fn from(n: RRoot) -> RSyntaxNode { n.syntax } }
impl From<RRoot> for RSyntaxElement { fn from(n: RRoot) -> RSyntaxElement { n.syntax.into() } }
impl RRoot {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn bom_token(&self) -> Option<RSyntaxToken> { support::token(&self.syntax, 0) }
    pub fn expressions(&self) -> RExpressionList { support::list(&self.syntax, 1) }
    pub fn eof_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RRootFields { RRootFields { bom_token: self.bom_token(), expressions: self.expressions(), eof_token: self.eof_token() } }
}
#[derive(Clone, Debug)]
pub struct RRootFields {
    pub bom_token: Option<RSyntaxToken>,
    pub expressions: RExpressionList,
    pub eof_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIdentifier { pub(crate) syntax: RSyntaxNode }
impl AstNode for RIdentifier {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_IDENTIFIER }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_IDENTIFIER { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RIdentifier({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RIdentifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RIdentifier> for RSyntaxNode { fn from(n: RIdentifier) -> RSyntaxNode { n.syntax } }
impl From<RIdentifier> for RSyntaxElement { fn from(n: RIdentifier) -> RSyntaxElement { n.syntax.into() } }
impl RIdentifier {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn name_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RIdentifierFields { RIdentifierFields { name_token: self.name_token() } }
}
#[derive(Clone, Debug)]
pub struct RIdentifierFields {
    pub name_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDots { pub(crate) syntax: RSyntaxNode }
impl AstNode for RDots {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_DOTS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RDots { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RDots({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RDots { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RDots> for RSyntaxNode { fn from(n: RDots) -> RSyntaxNode { n.syntax } }
impl From<RDots> for RSyntaxElement { fn from(n: RDots) -> RSyntaxElement { n.syntax.into() } }
impl RDots {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDotsFields { RDotsFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RDotsFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDotDotI { pub(crate) syntax: RSyntaxNode }
impl AstNode for RDotDotI {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOT_DOT_I }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_DOT_DOT_I { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RDotDotI { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RDotDotI({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RDotDotI { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RDotDotI> for RSyntaxNode { fn from(n: RDotDotI) -> RSyntaxNode { n.syntax } }
impl From<RDotDotI> for RSyntaxElement { fn from(n: RDotDotI) -> RSyntaxElement { n.syntax.into() } }
impl RDotDotI {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDotDotIFields { RDotDotIFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RDotDotIFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIntegerValue { pub(crate) syntax: RSyntaxNode }
impl AstNode for RIntegerValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_INTEGER_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_INTEGER_VALUE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RIntegerValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RIntegerValue({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RIntegerValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RIntegerValue> for RSyntaxNode { fn from(n: RIntegerValue) -> RSyntaxNode { n.syntax } }
impl From<RIntegerValue> for RSyntaxElement { fn from(n: RIntegerValue) -> RSyntaxElement { n.syntax.into() } }
impl RIntegerValue {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RIntegerValueFields { RIntegerValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RIntegerValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RDoubleValue { pub(crate) syntax: RSyntaxNode }
impl AstNode for RDoubleValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_DOUBLE_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_DOUBLE_VALUE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RDoubleValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RDoubleValue({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RDoubleValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RDoubleValue> for RSyntaxNode { fn from(n: RDoubleValue) -> RSyntaxNode { n.syntax } }
impl From<RDoubleValue> for RSyntaxElement { fn from(n: RDoubleValue) -> RSyntaxElement { n.syntax.into() } }
impl RDoubleValue {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RDoubleValueFields { RDoubleValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RDoubleValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RComplexValue { pub(crate) syntax: RSyntaxNode }
impl AstNode for RComplexValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_COMPLEX_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_COMPLEX_VALUE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RComplexValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RComplexValue({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RComplexValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RComplexValue> for RSyntaxNode { fn from(n: RComplexValue) -> RSyntaxNode { n.syntax } }
impl From<RComplexValue> for RSyntaxElement { fn from(n: RComplexValue) -> RSyntaxElement { n.syntax.into() } }
impl RComplexValue {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RComplexValueFields { RComplexValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RComplexValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RStringValue { pub(crate) syntax: RSyntaxNode }
impl AstNode for RStringValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_STRING_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_STRING_VALUE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RStringValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RStringValue({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RStringValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RStringValue> for RSyntaxNode { fn from(n: RStringValue) -> RSyntaxNode { n.syntax } }
impl From<RStringValue> for RSyntaxElement { fn from(n: RStringValue) -> RSyntaxElement { n.syntax.into() } }
impl RStringValue {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RStringValueFields { RStringValueFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RStringValueFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RTrueExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RTrueExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_TRUE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_TRUE_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RTrueExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RTrueExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RTrueExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RTrueExpression> for RSyntaxNode { fn from(n: RTrueExpression) -> RSyntaxNode { n.syntax } }
impl From<RTrueExpression> for RSyntaxElement { fn from(n: RTrueExpression) -> RSyntaxElement { n.syntax.into() } }
impl RTrueExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn true_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RTrueExpressionFields { RTrueExpressionFields { true_token: self.true_token() } }
}
#[derive(Clone, Debug)]
pub struct RTrueExpressionFields {
    pub true_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RFalseExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RFalseExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FALSE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_FALSE_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RFalseExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RFalseExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RFalseExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RFalseExpression> for RSyntaxNode { fn from(n: RFalseExpression) -> RSyntaxNode { n.syntax } }
impl From<RFalseExpression> for RSyntaxElement { fn from(n: RFalseExpression) -> RSyntaxElement { n.syntax.into() } }
impl RFalseExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn false_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RFalseExpressionFields { RFalseExpressionFields { false_token: self.false_token() } }
}
#[derive(Clone, Debug)]
pub struct RFalseExpressionFields {
    pub false_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNullExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RNullExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NULL_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_NULL_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RNullExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RNullExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RNullExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RNullExpression> for RSyntaxNode { fn from(n: RNullExpression) -> RSyntaxNode { n.syntax } }
impl From<RNullExpression> for RSyntaxElement { fn from(n: RNullExpression) -> RSyntaxElement { n.syntax.into() } }
impl RNullExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn null_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNullExpressionFields { RNullExpressionFields { null_token: self.null_token() } }
}
#[derive(Clone, Debug)]
pub struct RNullExpressionFields {
    pub null_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RInfExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RInfExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_INF_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_INF_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RInfExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RInfExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RInfExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RInfExpression> for RSyntaxNode { fn from(n: RInfExpression) -> RSyntaxNode { n.syntax } }
impl From<RInfExpression> for RSyntaxElement { fn from(n: RInfExpression) -> RSyntaxElement { n.syntax.into() } }
impl RInfExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn inf_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RInfExpressionFields { RInfExpressionFields { inf_token: self.inf_token() } }
}
#[derive(Clone, Debug)]
pub struct RInfExpressionFields {
    pub inf_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNanExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RNanExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NAN_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_NAN_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RNanExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RNanExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RNanExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RNanExpression> for RSyntaxNode { fn from(n: RNanExpression) -> RSyntaxNode { n.syntax } }
impl From<RNanExpression> for RSyntaxElement { fn from(n: RNanExpression) -> RSyntaxElement { n.syntax.into() } }
impl RNanExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn nan_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNanExpressionFields { RNanExpressionFields { nan_token: self.nan_token() } }
}
#[derive(Clone, Debug)]
pub struct RNanExpressionFields {
    pub nan_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNaExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RNaExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NA_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_NA_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RNaExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RNaExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RNaExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RNaExpression> for RSyntaxNode { fn from(n: RNaExpression) -> RSyntaxNode { n.syntax } }
impl From<RNaExpression> for RSyntaxElement { fn from(n: RNaExpression) -> RSyntaxElement { n.syntax.into() } }
impl RNaExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNaExpressionFields { RNaExpressionFields { value_token: self.value_token() } }
}
#[derive(Clone, Debug)]
pub struct RNaExpressionFields {
    pub value_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNextExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RNextExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NEXT_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_NEXT_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RNextExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RNextExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RNextExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RNextExpression> for RSyntaxNode { fn from(n: RNextExpression) -> RSyntaxNode { n.syntax } }
impl From<RNextExpression> for RSyntaxElement { fn from(n: RNextExpression) -> RSyntaxElement { n.syntax.into() } }
impl RNextExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn next_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RNextExpressionFields { RNextExpressionFields { next_token: self.next_token() } }
}
#[derive(Clone, Debug)]
pub struct RNextExpressionFields {
    pub next_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBreakExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBreakExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BREAK_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BREAK_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBreakExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBreakExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBreakExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBreakExpression> for RSyntaxNode { fn from(n: RBreakExpression) -> RSyntaxNode { n.syntax } }
impl From<RBreakExpression> for RSyntaxElement { fn from(n: RBreakExpression) -> RSyntaxElement { n.syntax.into() } }
impl RBreakExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn break_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RBreakExpressionFields { RBreakExpressionFields { break_token: self.break_token() } }
}
#[derive(Clone, Debug)]
pub struct RBreakExpressionFields {
    pub break_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RReturnExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RReturnExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_RETURN_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_RETURN_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RReturnExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RReturnExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RReturnExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RReturnExpression> for RSyntaxNode { fn from(n: RReturnExpression) -> RSyntaxNode { n.syntax } }
impl From<RReturnExpression> for RSyntaxElement { fn from(n: RReturnExpression) -> RSyntaxElement { n.syntax.into() } }
impl RReturnExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn return_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn as_fields(&self) -> RReturnExpressionFields { RReturnExpressionFields { return_token: self.return_token() } }
}
#[derive(Clone, Debug)]
pub struct RReturnExpressionFields {
    pub return_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RFunctionDefinition { pub(crate) syntax: RSyntaxNode }
impl AstNode for RFunctionDefinition {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FUNCTION_DEFINITION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_FUNCTION_DEFINITION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RFunctionDefinition { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RFunctionDefinition({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RFunctionDefinition { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RFunctionDefinition> for RSyntaxNode { fn from(n: RFunctionDefinition) -> RSyntaxNode { n.syntax } }
impl From<RFunctionDefinition> for RSyntaxElement { fn from(n: RFunctionDefinition) -> RSyntaxElement { n.syntax.into() } }
impl RFunctionDefinition {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn name(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn parameters(&self) -> SyntaxResult<RParameters> { support::required_node(&self.syntax, 1) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RFunctionDefinitionFields { RFunctionDefinitionFields { name: self.name(), parameters: self.parameters(), body: self.body() } }
}
#[derive(Clone, Debug)]
pub struct RFunctionDefinitionFields {
    pub name: SyntaxResult<RSyntaxToken>,
    pub parameters: SyntaxResult<RParameters>,
    pub body: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameters { pub(crate) syntax: RSyntaxNode }
impl AstNode for RParameters {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETERS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_PARAMETERS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RParameters { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RParameters({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RParameters { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RParameters> for RSyntaxNode { fn from(n: RParameters) -> RSyntaxNode { n.syntax } }
impl From<RParameters> for RSyntaxElement { fn from(n: RParameters) -> RSyntaxElement { n.syntax.into() } }
impl RParameters {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RParameterList { support::list(&self.syntax, 1) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RParametersFields { RParametersFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug)]
pub struct RParametersFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub items: RParameterList,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameter { pub(crate) syntax: RSyntaxNode }
impl AstNode for RParameter {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_PARAMETER { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RParameter { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RParameter({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RParameter { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RParameter> for RSyntaxNode { fn from(n: RParameter) -> RSyntaxNode { n.syntax } }
impl From<RParameter> for RSyntaxElement { fn from(n: RParameter) -> RSyntaxElement { n.syntax.into() } }
impl RParameter {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn name(&self) -> SyntaxResult<AnyRParameterName> { support::required_node(&self.syntax, 0) }
    pub fn default(&self) -> Option<RParameterDefault> { support::node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RParameterFields { RParameterFields { name: self.name(), default: self.default() } }
}
#[derive(Clone, Debug)]
pub struct RParameterFields {
    pub name: SyntaxResult<AnyRParameterName>,
    pub default: Option<RParameterDefault>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameterDefault { pub(crate) syntax: RSyntaxNode }
impl AstNode for RParameterDefault {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER_DEFAULT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_PARAMETER_DEFAULT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RParameterDefault { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RParameterDefault({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RParameterDefault { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RParameterDefault> for RSyntaxNode { fn from(n: RParameterDefault) -> RSyntaxNode { n.syntax } }
impl From<RParameterDefault> for RSyntaxElement { fn from(n: RParameterDefault) -> RSyntaxElement { n.syntax.into() } }
impl RParameterDefault {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn eq_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn value(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RParameterDefaultFields { RParameterDefaultFields { eq_token: self.eq_token(), value: self.value() } }
}
#[derive(Clone, Debug)]
pub struct RParameterDefaultFields {
    pub eq_token: SyntaxResult<RSyntaxToken>,
    pub value: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBracedExpressions { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBracedExpressions {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BRACED_EXPRESSIONS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BRACED_EXPRESSIONS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBracedExpressions { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBracedExpressions({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBracedExpressions { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBracedExpressions> for RSyntaxNode { fn from(n: RBracedExpressions) -> RSyntaxNode { n.syntax } }
impl From<RBracedExpressions> for RSyntaxElement { fn from(n: RBracedExpressions) -> RSyntaxElement { n.syntax.into() } }
impl RBracedExpressions {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_curly_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn expressions(&self) -> RExpressionList { support::list(&self.syntax, 1) }
    pub fn r_curly_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RBracedExpressionsFields { RBracedExpressionsFields { l_curly_token: self.l_curly_token(), expressions: self.expressions(), r_curly_token: self.r_curly_token() } }
}
#[derive(Clone, Debug)]
pub struct RBracedExpressionsFields {
    pub l_curly_token: SyntaxResult<RSyntaxToken>,
    pub expressions: RExpressionList,
    pub r_curly_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParenthesizedExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RParenthesizedExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARENTHESIZED_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_PARENTHESIZED_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RParenthesizedExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RParenthesizedExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RParenthesizedExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RParenthesizedExpression> for RSyntaxNode { fn from(n: RParenthesizedExpression) -> RSyntaxNode { n.syntax } }
impl From<RParenthesizedExpression> for RSyntaxElement { fn from(n: RParenthesizedExpression) -> RSyntaxElement { n.syntax.into() } }
impl RParenthesizedExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RParenthesizedExpressionFields { RParenthesizedExpressionFields { l_paren_token: self.l_paren_token(), body: self.body(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug)]
pub struct RParenthesizedExpressionFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RCall { pub(crate) syntax: RSyntaxNode }
impl AstNode for RCall {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_CALL }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_CALL { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RCall { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RCall({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RCall { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RCall> for RSyntaxNode { fn from(n: RCall) -> RSyntaxNode { n.syntax } }
impl From<RCall> for RSyntaxElement { fn from(n: RCall) -> RSyntaxElement { n.syntax.into() } }
impl RCall {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RCallArguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RCallFields { RCallFields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug)]
pub struct RCallFields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RCallArguments>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset { pub(crate) syntax: RSyntaxNode }
impl AstNode for RSubset {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_SUBSET { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RSubset { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RSubset({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RSubset { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RSubset> for RSyntaxNode { fn from(n: RSubset) -> RSyntaxNode { n.syntax } }
impl From<RSubset> for RSyntaxElement { fn from(n: RSubset) -> RSyntaxElement { n.syntax.into() } }
impl RSubset {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RSubsetArguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RSubsetFields { RSubsetFields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug)]
pub struct RSubsetFields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RSubsetArguments>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset2 { pub(crate) syntax: RSyntaxNode }
impl AstNode for RSubset2 {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET2 }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_SUBSET2 { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RSubset2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RSubset2({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RSubset2 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RSubset2> for RSyntaxNode { fn from(n: RSubset2) -> RSyntaxNode { n.syntax } }
impl From<RSubset2> for RSyntaxElement { fn from(n: RSubset2) -> RSyntaxElement { n.syntax.into() } }
impl RSubset2 {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn function(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn arguments(&self) -> SyntaxResult<RSubset2Arguments> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RSubset2Fields { RSubset2Fields { function: self.function(), arguments: self.arguments() } }
}
#[derive(Clone, Debug)]
pub struct RSubset2Fields {
    pub function: SyntaxResult<AnyRExpression>,
    pub arguments: SyntaxResult<RSubset2Arguments>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RCallArguments { pub(crate) syntax: RSyntaxNode }
impl AstNode for RCallArguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_CALL_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_CALL_ARGUMENTS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RCallArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RCallArguments({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RCallArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RCallArguments> for RSyntaxNode { fn from(n: RCallArguments) -> RSyntaxNode { n.syntax } }
impl From<RCallArguments> for RSyntaxElement { fn from(n: RCallArguments) -> RSyntaxElement { n.syntax.into() } }
impl RCallArguments {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::list(&self.syntax, 1) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RCallArgumentsFields { RCallArgumentsFields { l_paren_token: self.l_paren_token(), items: self.items(), r_paren_token: self.r_paren_token() } }
}
#[derive(Clone, Debug)]
pub struct RCallArgumentsFields {
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubsetArguments { pub(crate) syntax: RSyntaxNode }
impl AstNode for RSubsetArguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_SUBSET_ARGUMENTS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RSubsetArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RSubsetArguments({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RSubsetArguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RSubsetArguments> for RSyntaxNode { fn from(n: RSubsetArguments) -> RSyntaxNode { n.syntax } }
impl From<RSubsetArguments> for RSyntaxElement { fn from(n: RSubsetArguments) -> RSyntaxElement { n.syntax.into() } }
impl RSubsetArguments {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_brack_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::list(&self.syntax, 1) }
    pub fn r_brack_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RSubsetArgumentsFields { RSubsetArgumentsFields { l_brack_token: self.l_brack_token(), items: self.items(), r_brack_token: self.r_brack_token() } }
}
#[derive(Clone, Debug)]
pub struct RSubsetArgumentsFields {
    pub l_brack_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_brack_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RSubset2Arguments { pub(crate) syntax: RSyntaxNode }
impl AstNode for RSubset2Arguments {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_SUBSET2_ARGUMENTS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_SUBSET2_ARGUMENTS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RSubset2Arguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RSubset2Arguments({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RSubset2Arguments { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RSubset2Arguments> for RSyntaxNode { fn from(n: RSubset2Arguments) -> RSyntaxNode { n.syntax } }
impl From<RSubset2Arguments> for RSyntaxElement { fn from(n: RSubset2Arguments) -> RSyntaxElement { n.syntax.into() } }
impl RSubset2Arguments {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn l_brack2_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn items(&self) -> RArgumentList { support::list(&self.syntax, 1) }
    pub fn r_brack2_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 2) }
    pub fn as_fields(&self) -> RSubset2ArgumentsFields { RSubset2ArgumentsFields { l_brack2_token: self.l_brack2_token(), items: self.items(), r_brack2_token: self.r_brack2_token() } }
}
#[derive(Clone, Debug)]
pub struct RSubset2ArgumentsFields {
    pub l_brack2_token: SyntaxResult<RSyntaxToken>,
    pub items: RArgumentList,
    pub r_brack2_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgument { pub(crate) syntax: RSyntaxNode }
impl AstNode for RArgument {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_ARGUMENT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RArgument { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RArgument({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RArgument { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RArgument> for RSyntaxNode { fn from(n: RArgument) -> RSyntaxNode { n.syntax } }
impl From<RArgument> for RSyntaxElement { fn from(n: RArgument) -> RSyntaxElement { n.syntax.into() } }
impl RArgument {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn name_clause(&self) -> Option<RArgumentNameClause> { support::node(&self.syntax, 0) }
    pub fn value(&self) -> Option<AnyRExpression> { support::node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RArgumentFields { RArgumentFields { name_clause: self.name_clause(), value: self.value() } }
}
#[derive(Clone, Debug)]
pub struct RArgumentFields {
    pub name_clause: Option<RArgumentNameClause>,
    pub value: Option<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgumentNameClause { pub(crate) syntax: RSyntaxNode }
impl AstNode for RArgumentNameClause {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT_NAME_CLAUSE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_ARGUMENT_NAME_CLAUSE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RArgumentNameClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RArgumentNameClause({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RArgumentNameClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RArgumentNameClause> for RSyntaxNode { fn from(n: RArgumentNameClause) -> RSyntaxNode { n.syntax } }
impl From<RArgumentNameClause> for RSyntaxElement { fn from(n: RArgumentNameClause) -> RSyntaxElement { n.syntax.into() } }
impl RArgumentNameClause {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn name(&self) -> SyntaxResult<AnyRArgumentName> { support::required_node(&self.syntax, 0) }
    pub fn eq_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn as_fields(&self) -> RArgumentNameClauseFields { RArgumentNameClauseFields { name: self.name(), eq_token: self.eq_token() } }
}
#[derive(Clone, Debug)]
pub struct RArgumentNameClauseFields {
    pub name: SyntaxResult<AnyRArgumentName>,
    pub eq_token: SyntaxResult<RSyntaxToken>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RIfStatement { pub(crate) syntax: RSyntaxNode }
impl AstNode for RIfStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_IF_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_IF_STATEMENT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RIfStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RIfStatement({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RIfStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RIfStatement> for RSyntaxNode { fn from(n: RIfStatement) -> RSyntaxNode { n.syntax } }
impl From<RIfStatement> for RSyntaxElement { fn from(n: RIfStatement) -> RSyntaxElement { n.syntax.into() } }
impl RIfStatement {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn if_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn consequence(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn else_clause(&self) -> Option<RElseClause> { support::node(&self.syntax, 5) }
    pub fn as_fields(&self) -> RIfStatementFields { RIfStatementFields { if_token: self.if_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), consequence: self.consequence(), else_clause: self.else_clause() } }
}
#[derive(Clone, Debug)]
pub struct RIfStatementFields {
    pub if_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub condition: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub consequence: SyntaxResult<AnyRExpression>,
    pub else_clause: Option<RElseClause>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RElseClause { pub(crate) syntax: RSyntaxNode }
impl AstNode for RElseClause {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ELSE_CLAUSE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_ELSE_CLAUSE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RElseClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RElseClause({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RElseClause { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RElseClause> for RSyntaxNode { fn from(n: RElseClause) -> RSyntaxNode { n.syntax } }
impl From<RElseClause> for RSyntaxElement { fn from(n: RElseClause) -> RSyntaxElement { n.syntax.into() } }
impl RElseClause {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn else_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn alternative(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RElseClauseFields { RElseClauseFields { else_token: self.else_token(), alternative: self.alternative() } }
}
#[derive(Clone, Debug)]
pub struct RElseClauseFields {
    pub else_token: SyntaxResult<RSyntaxToken>,
    pub alternative: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RForStatement { pub(crate) syntax: RSyntaxNode }
impl AstNode for RForStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_FOR_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_FOR_STATEMENT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RForStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RForStatement({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RForStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RForStatement> for RSyntaxNode { fn from(n: RForStatement) -> RSyntaxNode { n.syntax } }
impl From<RForStatement> for RSyntaxElement { fn from(n: RForStatement) -> RSyntaxElement { n.syntax.into() } }
impl RForStatement {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn for_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn variable(&self) -> SyntaxResult<RIdentifier> { support::required_node(&self.syntax, 2) }
    pub fn in_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn sequence(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 5) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 6) }
    pub fn as_fields(&self) -> RForStatementFields { RForStatementFields { for_token: self.for_token(), l_paren_token: self.l_paren_token(), variable: self.variable(), in_token: self.in_token(), sequence: self.sequence(), r_paren_token: self.r_paren_token(), body: self.body() } }
}
#[derive(Clone, Debug)]
pub struct RForStatementFields {
    pub for_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub variable: SyntaxResult<RIdentifier>,
    pub in_token: SyntaxResult<RSyntaxToken>,
    pub sequence: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RWhileStatement { pub(crate) syntax: RSyntaxNode }
impl AstNode for RWhileStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_WHILE_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_WHILE_STATEMENT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RWhileStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RWhileStatement({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RWhileStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RWhileStatement> for RSyntaxNode { fn from(n: RWhileStatement) -> RSyntaxNode { n.syntax } }
impl From<RWhileStatement> for RSyntaxElement { fn from(n: RWhileStatement) -> RSyntaxElement { n.syntax.into() } }
impl RWhileStatement {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn while_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn l_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn condition(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn r_paren_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 3) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 4) }
    pub fn as_fields(&self) -> RWhileStatementFields { RWhileStatementFields { while_token: self.while_token(), l_paren_token: self.l_paren_token(), condition: self.condition(), r_paren_token: self.r_paren_token(), body: self.body() } }
}
#[derive(Clone, Debug)]
pub struct RWhileStatementFields {
    pub while_token: SyntaxResult<RSyntaxToken>,
    pub l_paren_token: SyntaxResult<RSyntaxToken>,
    pub condition: SyntaxResult<AnyRExpression>,
    pub r_paren_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RRepeatStatement { pub(crate) syntax: RSyntaxNode }
impl AstNode for RRepeatStatement {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_REPEAT_STATEMENT }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_REPEAT_STATEMENT { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RRepeatStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RRepeatStatement({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RRepeatStatement { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RRepeatStatement> for RSyntaxNode { fn from(n: RRepeatStatement) -> RSyntaxNode { n.syntax } }
impl From<RRepeatStatement> for RSyntaxElement { fn from(n: RRepeatStatement) -> RSyntaxElement { n.syntax.into() } }
impl RRepeatStatement {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn repeat_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn body(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RRepeatStatementFields { RRepeatStatementFields { repeat_token: self.repeat_token(), body: self.body() } }
}
#[derive(Clone, Debug)]
pub struct RRepeatStatementFields {
    pub repeat_token: SyntaxResult<RSyntaxToken>,
    pub body: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RUnaryExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RUnaryExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_UNARY_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_UNARY_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RUnaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RUnaryExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RUnaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RUnaryExpression> for RSyntaxNode { fn from(n: RUnaryExpression) -> RSyntaxNode { n.syntax } }
impl From<RUnaryExpression> for RSyntaxElement { fn from(n: RUnaryExpression) -> RSyntaxElement { n.syntax.into() } }
impl RUnaryExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 0) }
    pub fn argument(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 1) }
    pub fn as_fields(&self) -> RUnaryExpressionFields { RUnaryExpressionFields { operator: self.operator(), argument: self.argument() } }
}
#[derive(Clone, Debug)]
pub struct RUnaryExpressionFields {
    pub operator: SyntaxResult<RSyntaxToken>,
    pub argument: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBinaryExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBinaryExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BINARY_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BINARY_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBinaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBinaryExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBinaryExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBinaryExpression> for RSyntaxNode { fn from(n: RBinaryExpression) -> RSyntaxNode { n.syntax } }
impl From<RBinaryExpression> for RSyntaxElement { fn from(n: RBinaryExpression) -> RSyntaxElement { n.syntax.into() } }
impl RBinaryExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn left(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RBinaryExpressionFields { RBinaryExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug)]
pub struct RBinaryExpressionFields {
    pub left: SyntaxResult<AnyRExpression>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRExpression>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RExtractExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RExtractExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_EXTRACT_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_EXTRACT_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RExtractExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RExtractExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RExtractExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RExtractExpression> for RSyntaxNode { fn from(n: RExtractExpression) -> RSyntaxNode { n.syntax } }
impl From<RExtractExpression> for RSyntaxElement { fn from(n: RExtractExpression) -> RSyntaxElement { n.syntax.into() } }
impl RExtractExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn left(&self) -> SyntaxResult<AnyRExpression> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RExtractExpressionFields { RExtractExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug)]
pub struct RExtractExpressionFields {
    pub left: SyntaxResult<AnyRExpression>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRSelector>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RNamespaceExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RNamespaceExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_NAMESPACE_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_NAMESPACE_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RNamespaceExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RNamespaceExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RNamespaceExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RNamespaceExpression> for RSyntaxNode { fn from(n: RNamespaceExpression) -> RSyntaxNode { n.syntax } }
impl From<RNamespaceExpression> for RSyntaxElement { fn from(n: RNamespaceExpression) -> RSyntaxElement { n.syntax.into() } }
impl RNamespaceExpression {
    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self { Self { syntax } }
    pub fn left(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 0) }
    pub fn operator(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(&self.syntax, 1) }
    pub fn right(&self) -> SyntaxResult<AnyRSelector> { support::required_node(&self.syntax, 2) }
    pub fn as_fields(&self) -> RNamespaceExpressionFields { RNamespaceExpressionFields { left: self.left(), operator: self.operator(), right: self.right() } }
}
#[derive(Clone, Debug)]
pub struct RNamespaceExpressionFields {
    pub left: SyntaxResult<AnyRSelector>,
    pub operator: SyntaxResult<RSyntaxToken>,
    pub right: SyntaxResult<AnyRSelector>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RExpressionList { pub(crate) syntax: RSyntaxNode }
impl AstNode for RExpressionList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_EXPRESSION_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_EXPRESSION_LIST { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RExpressionList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RExpressionList({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RExpressionList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RExpressionList> for RSyntaxNode { fn from(n: RExpressionList) -> RSyntaxNode { n.syntax } }
impl From<RExpressionList> for RSyntaxElement { fn from(n: RExpressionList) -> RSyntaxElement { n.syntax.into() } }
impl AstNodeList for RExpressionList { type Language = RLanguage; type Node = AnyRExpression; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for &RExpressionList { type Item = AnyRExpression; type IntoIter = AstNodeListIterator<RLanguage, AnyRExpression>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl IntoIterator for RExpressionList { type Item = AnyRExpression; type IntoIter = AstNodeListIterator<RLanguage, AnyRExpression>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RArgumentList { pub(crate) syntax: RSyntaxNode }
impl AstNode for RArgumentList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_ARGUMENT_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_ARGUMENT_LIST { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RArgumentList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RArgumentList({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RArgumentList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RArgumentList> for RSyntaxNode { fn from(n: RArgumentList) -> RSyntaxNode { n.syntax } }
impl From<RArgumentList> for RSyntaxElement { fn from(n: RArgumentList) -> RSyntaxElement { n.syntax.into() } }
impl AstSeparatedList for RArgumentList { type Language = RLanguage; type Node = RArgument; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for &RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = AstSeparatedListNodesIterator<RArgument>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl IntoIterator for RArgumentList { type Item = SyntaxResult<RArgument>; type IntoIter = AstSeparatedListNodesIterator<RArgument>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RParameterList { pub(crate) syntax: RSyntaxNode }
impl AstNode for RParameterList {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_PARAMETER_LIST }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_PARAMETER_LIST { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RParameterList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RParameterList({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RParameterList { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RParameterList> for RSyntaxNode { fn from(n: RParameterList) -> RSyntaxNode { n.syntax } }
impl From<RParameterList> for RSyntaxElement { fn from(n: RParameterList) -> RSyntaxElement { n.syntax.into() } }
impl AstSeparatedList for RParameterList { type Language = RLanguage; type Node = RParameter; fn syntax_list(&self) -> &RSyntaxNode { &self.syntax } }
impl IntoIterator for &RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = AstSeparatedListNodesIterator<RParameter>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl IntoIterator for RParameterList { type Item = SyntaxResult<RParameter>; type IntoIter = AstSeparatedListNodesIterator<RParameter>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBogus { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBogus {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BOGUS }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BOGUS { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBogus { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBogus({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBogus { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBogus> for RSyntaxNode { fn from(n: RBogus) -> RSyntaxNode { n.syntax } }
impl From<RBogus> for RSyntaxElement { fn from(n: RBogus) -> RSyntaxElement { n.syntax.into() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBogusValue { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBogusValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BOGUS_VALUE }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BOGUS_VALUE { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBogusValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBogusValue({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBogusValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBogusValue> for RSyntaxNode { fn from(n: RBogusValue) -> RSyntaxNode { n.syntax } }
impl From<RBogusValue> for RSyntaxElement { fn from(n: RBogusValue) -> RSyntaxElement { n.syntax.into() } }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RBogusExpression { pub(crate) syntax: RSyntaxNode }
impl AstNode for RBogusExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { kind == R_BOGUS_EXPRESSION }
    fn cast(syntax: RSyntaxNode) -> Option<Self> { if syntax.kind() == R_BOGUS_EXPRESSION { Some(Self { syntax }) } else { None } }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax(self) -> RSyntaxNode { self.syntax }
}
impl fmt::Debug for RBogusExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RBogusExpression({:?})", self.syntax.text_trimmed().to_string()) } }
impl fmt::Display for RBogusExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.syntax, f) } }
impl From<RBogusExpression> for RSyntaxNode { fn from(n: RBogusExpression) -> RSyntaxNode { n.syntax } }
impl From<RBogusExpression> for RSyntaxElement { fn from(n: RBogusExpression) -> RSyntaxElement { n.syntax.into() } }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRValue {
    RBogusValue(RBogusValue),
    RIntegerValue(RIntegerValue),
    RDoubleValue(RDoubleValue),
    RComplexValue(RComplexValue),
    RStringValue(RStringValue),
}
impl AstNode for AnyRValue {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { RBogusValue::can_cast(kind) || RIntegerValue::can_cast(kind) || RDoubleValue::can_cast(kind) || RComplexValue::can_cast(kind) || RStringValue::can_cast(kind) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if RBogusValue::can_cast(syntax.kind()) { return Some(AnyRValue::RBogusValue(RBogusValue::cast(syntax)?)); }
        if RIntegerValue::can_cast(syntax.kind()) { return Some(AnyRValue::RIntegerValue(RIntegerValue::cast(syntax)?)); }
        if RDoubleValue::can_cast(syntax.kind()) { return Some(AnyRValue::RDoubleValue(RDoubleValue::cast(syntax)?)); }
        if RComplexValue::can_cast(syntax.kind()) { return Some(AnyRValue::RComplexValue(RComplexValue::cast(syntax)?)); }
        if RStringValue::can_cast(syntax.kind()) { return Some(AnyRValue::RStringValue(RStringValue::cast(syntax)?)); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRValue::RBogusValue(x) => x.syntax(), AnyRValue::RIntegerValue(x) => x.syntax(), AnyRValue::RDoubleValue(x) => x.syntax(), AnyRValue::RComplexValue(x) => x.syntax(), AnyRValue::RStringValue(x) => x.syntax(), } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRValue::RBogusValue(x) => x.into_syntax(), AnyRValue::RIntegerValue(x) => x.into_syntax(), AnyRValue::RDoubleValue(x) => x.into_syntax(), AnyRValue::RComplexValue(x) => x.into_syntax(), AnyRValue::RStringValue(x) => x.into_syntax(), } }
}
impl fmt::Display for AnyRValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl From<AnyRValue> for RSyntaxNode { fn from(n: AnyRValue) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRValue> for RSyntaxElement { fn from(n: AnyRValue) -> RSyntaxElement { n.into_syntax().into() } }
impl From<RBogusValue> for AnyRValue { fn from(n: RBogusValue) -> AnyRValue { AnyRValue::RBogusValue(n) } }
impl From<RIntegerValue> for AnyRValue { fn from(n: RIntegerValue) -> AnyRValue { AnyRValue::RIntegerValue(n) } }
impl From<RDoubleValue> for AnyRValue { fn from(n: RDoubleValue) -> AnyRValue { AnyRValue::RDoubleValue(n) } }
impl From<RComplexValue> for AnyRValue { fn from(n: RComplexValue) -> AnyRValue { AnyRValue::RComplexValue(n) } }
impl From<RStringValue> for AnyRValue { fn from(n: RStringValue) -> AnyRValue { AnyRValue::RStringValue(n) } }
impl AnyRValue {
    pub fn as_r_bogus_value(&self) -> Option<&RBogusValue> { match self { AnyRValue::RBogusValue(x) => Some(x), _ => None } }
    pub fn as_r_integer_value(&self) -> Option<&RIntegerValue> { match self { AnyRValue::RIntegerValue(x) => Some(x), _ => None } }
    pub fn as_r_double_value(&self) -> Option<&RDoubleValue> { match self { AnyRValue::RDoubleValue(x) => Some(x), _ => None } }
    pub fn as_r_complex_value(&self) -> Option<&RComplexValue> { match self { AnyRValue::RComplexValue(x) => Some(x), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRValue::RStringValue(x) => Some(x), _ => None } }
    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(self.syntax(), 0) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRSelector {
    RIdentifier(RIdentifier),
    RStringValue(RStringValue),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RCall(RCall),
    RSubset(RSubset),
    RSubset2(RSubset2),
    RBracedExpressions(RBracedExpressions),
    RParenthesizedExpression(RParenthesizedExpression),
    RExtractExpression(RExtractExpression),
    RNamespaceExpression(RNamespaceExpression),
    RReturnExpression(RReturnExpression),
}
impl AstNode for AnyRSelector {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { RIdentifier::can_cast(kind) || RStringValue::can_cast(kind) || RDots::can_cast(kind) || RDotDotI::can_cast(kind) || RCall::can_cast(kind) || RSubset::can_cast(kind) || RSubset2::can_cast(kind) || RBracedExpressions::can_cast(kind) || RParenthesizedExpression::can_cast(kind) || RExtractExpression::can_cast(kind) || RNamespaceExpression::can_cast(kind) || RReturnExpression::can_cast(kind) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if RIdentifier::can_cast(syntax.kind()) { return Some(AnyRSelector::RIdentifier(RIdentifier::cast(syntax)?)); }
        if RStringValue::can_cast(syntax.kind()) { return Some(AnyRSelector::RStringValue(RStringValue::cast(syntax)?)); }
        if RDots::can_cast(syntax.kind()) { return Some(AnyRSelector::RDots(RDots::cast(syntax)?)); }
        if RDotDotI::can_cast(syntax.kind()) { return Some(AnyRSelector::RDotDotI(RDotDotI::cast(syntax)?)); }
        if RCall::can_cast(syntax.kind()) { return Some(AnyRSelector::RCall(RCall::cast(syntax)?)); }
        if RSubset::can_cast(syntax.kind()) { return Some(AnyRSelector::RSubset(RSubset::cast(syntax)?)); }
        if RSubset2::can_cast(syntax.kind()) { return Some(AnyRSelector::RSubset2(RSubset2::cast(syntax)?)); }
        if RBracedExpressions::can_cast(syntax.kind()) { return Some(AnyRSelector::RBracedExpressions(RBracedExpressions::cast(syntax)?)); }
        if RParenthesizedExpression::can_cast(syntax.kind()) { return Some(AnyRSelector::RParenthesizedExpression(RParenthesizedExpression::cast(syntax)?)); }
        if RExtractExpression::can_cast(syntax.kind()) { return Some(AnyRSelector::RExtractExpression(RExtractExpression::cast(syntax)?)); }
        if RNamespaceExpression::can_cast(syntax.kind()) { return Some(AnyRSelector::RNamespaceExpression(RNamespaceExpression::cast(syntax)?)); }
        if RReturnExpression::can_cast(syntax.kind()) { return Some(AnyRSelector::RReturnExpression(RReturnExpression::cast(syntax)?)); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRSelector::RIdentifier(x) => x.syntax(), AnyRSelector::RStringValue(x) => x.syntax(), AnyRSelector::RDots(x) => x.syntax(), AnyRSelector::RDotDotI(x) => x.syntax(), AnyRSelector::RCall(x) => x.syntax(), AnyRSelector::RSubset(x) => x.syntax(), AnyRSelector::RSubset2(x) => x.syntax(), AnyRSelector::RBracedExpressions(x) => x.syntax(), AnyRSelector::RParenthesizedExpression(x) => x.syntax(), AnyRSelector::RExtractExpression(x) => x.syntax(), AnyRSelector::RNamespaceExpression(x) => x.syntax(), AnyRSelector::RReturnExpression(x) => x.syntax(), } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRSelector::RIdentifier(x) => x.into_syntax(), AnyRSelector::RStringValue(x) => x.into_syntax(), AnyRSelector::RDots(x) => x.into_syntax(), AnyRSelector::RDotDotI(x) => x.into_syntax(), AnyRSelector::RCall(x) => x.into_syntax(), AnyRSelector::RSubset(x) => x.into_syntax(), AnyRSelector::RSubset2(x) => x.into_syntax(), AnyRSelector::RBracedExpressions(x) => x.into_syntax(), AnyRSelector::RParenthesizedExpression(x) => x.into_syntax(), AnyRSelector::RExtractExpression(x) => x.into_syntax(), AnyRSelector::RNamespaceExpression(x) => x.into_syntax(), AnyRSelector::RReturnExpression(x) => x.into_syntax(), } }
}
impl fmt::Display for AnyRSelector { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl From<AnyRSelector> for RSyntaxNode { fn from(n: AnyRSelector) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRSelector> for RSyntaxElement { fn from(n: AnyRSelector) -> RSyntaxElement { n.into_syntax().into() } }
impl From<RIdentifier> for AnyRSelector { fn from(n: RIdentifier) -> AnyRSelector { AnyRSelector::RIdentifier(n) } }
impl From<RStringValue> for AnyRSelector { fn from(n: RStringValue) -> AnyRSelector { AnyRSelector::RStringValue(n) } }
impl From<RDots> for AnyRSelector { fn from(n: RDots) -> AnyRSelector { AnyRSelector::RDots(n) } }
impl From<RDotDotI> for AnyRSelector { fn from(n: RDotDotI) -> AnyRSelector { AnyRSelector::RDotDotI(n) } }
impl From<RCall> for AnyRSelector { fn from(n: RCall) -> AnyRSelector { AnyRSelector::RCall(n) } }
impl From<RSubset> for AnyRSelector { fn from(n: RSubset) -> AnyRSelector { AnyRSelector::RSubset(n) } }
impl From<RSubset2> for AnyRSelector { fn from(n: RSubset2) -> AnyRSelector { AnyRSelector::RSubset2(n) } }
impl From<RBracedExpressions> for AnyRSelector { fn from(n: RBracedExpressions) -> AnyRSelector { AnyRSelector::RBracedExpressions(n) } }
impl From<RParenthesizedExpression> for AnyRSelector { fn from(n: RParenthesizedExpression) -> AnyRSelector { AnyRSelector::RParenthesizedExpression(n) } }
impl From<RExtractExpression> for AnyRSelector { fn from(n: RExtractExpression) -> AnyRSelector { AnyRSelector::RExtractExpression(n) } }
impl From<RNamespaceExpression> for AnyRSelector { fn from(n: RNamespaceExpression) -> AnyRSelector { AnyRSelector::RNamespaceExpression(n) } }
impl From<RReturnExpression> for AnyRSelector { fn from(n: RReturnExpression) -> AnyRSelector { AnyRSelector::RReturnExpression(n) } }
impl AnyRSelector {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRSelector::RIdentifier(x) => Some(x), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRSelector::RStringValue(x) => Some(x), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRSelector::RDots(x) => Some(x), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRSelector::RDotDotI(x) => Some(x), _ => None } }
    pub fn as_r_call(&self) -> Option<&RCall> { match self { AnyRSelector::RCall(x) => Some(x), _ => None } }
    pub fn as_r_subset(&self) -> Option<&RSubset> { match self { AnyRSelector::RSubset(x) => Some(x), _ => None } }
    pub fn as_r_subset2(&self) -> Option<&RSubset2> { match self { AnyRSelector::RSubset2(x) => Some(x), _ => None } }
    pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> { match self { AnyRSelector::RBracedExpressions(x) => Some(x), _ => None } }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> { match self { AnyRSelector::RParenthesizedExpression(x) => Some(x), _ => None } }
    pub fn as_r_extract_expression(&self) -> Option<&RExtractExpression> { match self { AnyRSelector::RExtractExpression(x) => Some(x), _ => None } }
    pub fn as_r_namespace_expression(&self) -> Option<&RNamespaceExpression> { match self { AnyRSelector::RNamespaceExpression(x) => Some(x), _ => None } }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> { match self { AnyRSelector::RReturnExpression(x) => Some(x), _ => None } }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRParameterName {
    RIdentifier(RIdentifier),
    RDots(RDots),
    RDotDotI(RDotDotI),
}
impl AstNode for AnyRParameterName {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { RIdentifier::can_cast(kind) || RDots::can_cast(kind) || RDotDotI::can_cast(kind) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if RIdentifier::can_cast(syntax.kind()) { return Some(AnyRParameterName::RIdentifier(RIdentifier::cast(syntax)?)); }
        if RDots::can_cast(syntax.kind()) { return Some(AnyRParameterName::RDots(RDots::cast(syntax)?)); }
        if RDotDotI::can_cast(syntax.kind()) { return Some(AnyRParameterName::RDotDotI(RDotDotI::cast(syntax)?)); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRParameterName::RIdentifier(x) => x.syntax(), AnyRParameterName::RDots(x) => x.syntax(), AnyRParameterName::RDotDotI(x) => x.syntax(), } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRParameterName::RIdentifier(x) => x.into_syntax(), AnyRParameterName::RDots(x) => x.into_syntax(), AnyRParameterName::RDotDotI(x) => x.into_syntax(), } }
}
impl fmt::Display for AnyRParameterName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl From<AnyRParameterName> for RSyntaxNode { fn from(n: AnyRParameterName) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRParameterName> for RSyntaxElement { fn from(n: AnyRParameterName) -> RSyntaxElement { n.into_syntax().into() } }
impl From<RIdentifier> for AnyRParameterName { fn from(n: RIdentifier) -> AnyRParameterName { AnyRParameterName::RIdentifier(n) } }
impl From<RDots> for AnyRParameterName { fn from(n: RDots) -> AnyRParameterName { AnyRParameterName::RDots(n) } }
impl From<RDotDotI> for AnyRParameterName { fn from(n: RDotDotI) -> AnyRParameterName { AnyRParameterName::RDotDotI(n) } }
impl AnyRParameterName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRParameterName::RIdentifier(x) => Some(x), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRParameterName::RDots(x) => Some(x), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRParameterName::RDotDotI(x) => Some(x), _ => None } }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRArgumentName {
    RIdentifier(RIdentifier),
    RStringValue(RStringValue),
    RDots(RDots),
    RDotDotI(RDotDotI),
    RNullExpression(RNullExpression),
}
impl AstNode for AnyRArgumentName {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { RIdentifier::can_cast(kind) || RStringValue::can_cast(kind) || RDots::can_cast(kind) || RDotDotI::can_cast(kind) || RNullExpression::can_cast(kind) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if RIdentifier::can_cast(syntax.kind()) { return Some(AnyRArgumentName::RIdentifier(RIdentifier::cast(syntax)?)); }
        if RStringValue::can_cast(syntax.kind()) { return Some(AnyRArgumentName::RStringValue(RStringValue::cast(syntax)?)); }
        if RDots::can_cast(syntax.kind()) { return Some(AnyRArgumentName::RDots(RDots::cast(syntax)?)); }
        if RDotDotI::can_cast(syntax.kind()) { return Some(AnyRArgumentName::RDotDotI(RDotDotI::cast(syntax)?)); }
        if RNullExpression::can_cast(syntax.kind()) { return Some(AnyRArgumentName::RNullExpression(RNullExpression::cast(syntax)?)); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRArgumentName::RIdentifier(x) => x.syntax(), AnyRArgumentName::RStringValue(x) => x.syntax(), AnyRArgumentName::RDots(x) => x.syntax(), AnyRArgumentName::RDotDotI(x) => x.syntax(), AnyRArgumentName::RNullExpression(x) => x.syntax(), } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRArgumentName::RIdentifier(x) => x.into_syntax(), AnyRArgumentName::RStringValue(x) => x.into_syntax(), AnyRArgumentName::RDots(x) => x.into_syntax(), AnyRArgumentName::RDotDotI(x) => x.into_syntax(), AnyRArgumentName::RNullExpression(x) => x.into_syntax(), } }
}
impl fmt::Display for AnyRArgumentName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl From<AnyRArgumentName> for RSyntaxNode { fn from(n: AnyRArgumentName) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRArgumentName> for RSyntaxElement { fn from(n: AnyRArgumentName) -> RSyntaxElement { n.into_syntax().into() } }
impl From<RIdentifier> for AnyRArgumentName { fn from(n: RIdentifier) -> AnyRArgumentName { AnyRArgumentName::RIdentifier(n) } }
impl From<RStringValue> for AnyRArgumentName { fn from(n: RStringValue) -> AnyRArgumentName { AnyRArgumentName::RStringValue(n) } }
impl From<RDots> for AnyRArgumentName { fn from(n: RDots) -> AnyRArgumentName { AnyRArgumentName::RDots(n) } }
impl From<RDotDotI> for AnyRArgumentName { fn from(n: RDotDotI) -> AnyRArgumentName { AnyRArgumentName::RDotDotI(n) } }
impl From<RNullExpression> for AnyRArgumentName { fn from(n: RNullExpression) -> AnyRArgumentName { AnyRArgumentName::RNullExpression(n) } }
impl AnyRArgumentName {
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRArgumentName::RIdentifier(x) => Some(x), _ => None } }
    pub fn as_r_string_value(&self) -> Option<&RStringValue> { match self { AnyRArgumentName::RStringValue(x) => Some(x), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRArgumentName::RDots(x) => Some(x), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRArgumentName::RDotDotI(x) => Some(x), _ => None } }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> { match self { AnyRArgumentName::RNullExpression(x) => Some(x), _ => None } }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AnyRExpression {
    AnyRValue(AnyRValue),
    RBinaryExpression(RBinaryExpression),
    RBogusExpression(RBogusExpression),
    RBracedExpressions(RBracedExpressions),
    RBreakExpression(RBreakExpression),
    RCall(RCall),
    RDotDotI(RDotDotI),
    RDots(RDots),
    RExtractExpression(RExtractExpression),
    RFalseExpression(RFalseExpression),
    RForStatement(RForStatement),
    RFunctionDefinition(RFunctionDefinition),
    RIdentifier(RIdentifier),
    RIfStatement(RIfStatement),
    RInfExpression(RInfExpression),
    RNaExpression(RNaExpression),
    RNamespaceExpression(RNamespaceExpression),
    RNanExpression(RNanExpression),
    RNextExpression(RNextExpression),
    RNullExpression(RNullExpression),
    RParenthesizedExpression(RParenthesizedExpression),
    RRepeatStatement(RRepeatStatement),
    RReturnExpression(RReturnExpression),
    RSubset(RSubset),
    RSubset2(RSubset2),
    RTrueExpression(RTrueExpression),
    RUnaryExpression(RUnaryExpression),
    RWhileStatement(RWhileStatement),
}
impl AstNode for AnyRExpression {
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool { AnyRValue::can_cast(kind) || RBinaryExpression::can_cast(kind) || RBogusExpression::can_cast(kind) || RBracedExpressions::can_cast(kind) || RBreakExpression::can_cast(kind) || RCall::can_cast(kind) || RDotDotI::can_cast(kind) || RDots::can_cast(kind) || RExtractExpression::can_cast(kind) || RFalseExpression::can_cast(kind) || RForStatement::can_cast(kind) || RFunctionDefinition::can_cast(kind) || RIdentifier::can_cast(kind) || RIfStatement::can_cast(kind) || RInfExpression::can_cast(kind) || RNaExpression::can_cast(kind) || RNamespaceExpression::can_cast(kind) || RNanExpression::can_cast(kind) || RNextExpression::can_cast(kind) || RNullExpression::can_cast(kind) || RParenthesizedExpression::can_cast(kind) || RRepeatStatement::can_cast(kind) || RReturnExpression::can_cast(kind) || RSubset::can_cast(kind) || RSubset2::can_cast(kind) || RTrueExpression::can_cast(kind) || RUnaryExpression::can_cast(kind) || RWhileStatement::can_cast(kind) }
    fn cast(syntax: RSyntaxNode) -> Option<Self> {
        if AnyRValue::can_cast(syntax.kind()) { return Some(AnyRExpression::AnyRValue(AnyRValue::cast(syntax)?)); }
        if RBinaryExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RBinaryExpression(RBinaryExpression::cast(syntax)?)); }
        if RBogusExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RBogusExpression(RBogusExpression::cast(syntax)?)); }
        if RBracedExpressions::can_cast(syntax.kind()) { return Some(AnyRExpression::RBracedExpressions(RBracedExpressions::cast(syntax)?)); }
        if RBreakExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RBreakExpression(RBreakExpression::cast(syntax)?)); }
        if RCall::can_cast(syntax.kind()) { return Some(AnyRExpression::RCall(RCall::cast(syntax)?)); }
        if RDotDotI::can_cast(syntax.kind()) { return Some(AnyRExpression::RDotDotI(RDotDotI::cast(syntax)?)); }
        if RDots::can_cast(syntax.kind()) { return Some(AnyRExpression::RDots(RDots::cast(syntax)?)); }
        if RExtractExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RExtractExpression(RExtractExpression::cast(syntax)?)); }
        if RFalseExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RFalseExpression(RFalseExpression::cast(syntax)?)); }
        if RForStatement::can_cast(syntax.kind()) { return Some(AnyRExpression::RForStatement(RForStatement::cast(syntax)?)); }
        if RFunctionDefinition::can_cast(syntax.kind()) { return Some(AnyRExpression::RFunctionDefinition(RFunctionDefinition::cast(syntax)?)); }
        if RIdentifier::can_cast(syntax.kind()) { return Some(AnyRExpression::RIdentifier(RIdentifier::cast(syntax)?)); }
        if RIfStatement::can_cast(syntax.kind()) { return Some(AnyRExpression::RIfStatement(RIfStatement::cast(syntax)?)); }
        if RInfExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RInfExpression(RInfExpression::cast(syntax)?)); }
        if RNaExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RNaExpression(RNaExpression::cast(syntax)?)); }
        if RNamespaceExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RNamespaceExpression(RNamespaceExpression::cast(syntax)?)); }
        if RNanExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RNanExpression(RNanExpression::cast(syntax)?)); }
        if RNextExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RNextExpression(RNextExpression::cast(syntax)?)); }
        if RNullExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RNullExpression(RNullExpression::cast(syntax)?)); }
        if RParenthesizedExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RParenthesizedExpression(RParenthesizedExpression::cast(syntax)?)); }
        if RRepeatStatement::can_cast(syntax.kind()) { return Some(AnyRExpression::RRepeatStatement(RRepeatStatement::cast(syntax)?)); }
        if RReturnExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RReturnExpression(RReturnExpression::cast(syntax)?)); }
        if RSubset::can_cast(syntax.kind()) { return Some(AnyRExpression::RSubset(RSubset::cast(syntax)?)); }
        if RSubset2::can_cast(syntax.kind()) { return Some(AnyRExpression::RSubset2(RSubset2::cast(syntax)?)); }
        if RTrueExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RTrueExpression(RTrueExpression::cast(syntax)?)); }
        if RUnaryExpression::can_cast(syntax.kind()) { return Some(AnyRExpression::RUnaryExpression(RUnaryExpression::cast(syntax)?)); }
        if RWhileStatement::can_cast(syntax.kind()) { return Some(AnyRExpression::RWhileStatement(RWhileStatement::cast(syntax)?)); }
        None
    }
    fn syntax(&self) -> &RSyntaxNode { match self { AnyRExpression::AnyRValue(x) => x.syntax(), AnyRExpression::RBinaryExpression(x) => x.syntax(), AnyRExpression::RBogusExpression(x) => x.syntax(), AnyRExpression::RBracedExpressions(x) => x.syntax(), AnyRExpression::RBreakExpression(x) => x.syntax(), AnyRExpression::RCall(x) => x.syntax(), AnyRExpression::RDotDotI(x) => x.syntax(), AnyRExpression::RDots(x) => x.syntax(), AnyRExpression::RExtractExpression(x) => x.syntax(), AnyRExpression::RFalseExpression(x) => x.syntax(), AnyRExpression::RForStatement(x) => x.syntax(), AnyRExpression::RFunctionDefinition(x) => x.syntax(), AnyRExpression::RIdentifier(x) => x.syntax(), AnyRExpression::RIfStatement(x) => x.syntax(), AnyRExpression::RInfExpression(x) => x.syntax(), AnyRExpression::RNaExpression(x) => x.syntax(), AnyRExpression::RNamespaceExpression(x) => x.syntax(), AnyRExpression::RNanExpression(x) => x.syntax(), AnyRExpression::RNextExpression(x) => x.syntax(), AnyRExpression::RNullExpression(x) => x.syntax(), AnyRExpression::RParenthesizedExpression(x) => x.syntax(), AnyRExpression::RRepeatStatement(x) => x.syntax(), AnyRExpression::RReturnExpression(x) => x.syntax(), AnyRExpression::RSubset(x) => x.syntax(), AnyRExpression::RSubset2(x) => x.syntax(), AnyRExpression::RTrueExpression(x) => x.syntax(), AnyRExpression::RUnaryExpression(x) => x.syntax(), AnyRExpression::RWhileStatement(x) => x.syntax(), } }
    fn into_syntax(self) -> RSyntaxNode { match self { AnyRExpression::AnyRValue(x) => x.into_syntax(), AnyRExpression::RBinaryExpression(x) => x.into_syntax(), AnyRExpression::RBogusExpression(x) => x.into_syntax(), AnyRExpression::RBracedExpressions(x) => x.into_syntax(), AnyRExpression::RBreakExpression(x) => x.into_syntax(), AnyRExpression::RCall(x) => x.into_syntax(), AnyRExpression::RDotDotI(x) => x.into_syntax(), AnyRExpression::RDots(x) => x.into_syntax(), AnyRExpression::RExtractExpression(x) => x.into_syntax(), AnyRExpression::RFalseExpression(x) => x.into_syntax(), AnyRExpression::RForStatement(x) => x.into_syntax(), AnyRExpression::RFunctionDefinition(x) => x.into_syntax(), AnyRExpression::RIdentifier(x) => x.into_syntax(), AnyRExpression::RIfStatement(x) => x.into_syntax(), AnyRExpression::RInfExpression(x) => x.into_syntax(), AnyRExpression::RNaExpression(x) => x.into_syntax(), AnyRExpression::RNamespaceExpression(x) => x.into_syntax(), AnyRExpression::RNanExpression(x) => x.into_syntax(), AnyRExpression::RNextExpression(x) => x.into_syntax(), AnyRExpression::RNullExpression(x) => x.into_syntax(), AnyRExpression::RParenthesizedExpression(x) => x.into_syntax(), AnyRExpression::RRepeatStatement(x) => x.into_syntax(), AnyRExpression::RReturnExpression(x) => x.into_syntax(), AnyRExpression::RSubset(x) => x.into_syntax(), AnyRExpression::RSubset2(x) => x.into_syntax(), AnyRExpression::RTrueExpression(x) => x.into_syntax(), AnyRExpression::RUnaryExpression(x) => x.into_syntax(), AnyRExpression::RWhileStatement(x) => x.into_syntax(), } }
}
impl fmt::Display for AnyRExpression { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.syntax(), f) } }
impl From<AnyRExpression> for RSyntaxNode { fn from(n: AnyRExpression) -> RSyntaxNode { n.into_syntax() } }
impl From<AnyRExpression> for RSyntaxElement { fn from(n: AnyRExpression) -> RSyntaxElement { n.into_syntax().into() } }
impl From<AnyRValue> for AnyRExpression { fn from(n: AnyRValue) -> AnyRExpression { AnyRExpression::AnyRValue(n) } }
impl From<RBinaryExpression> for AnyRExpression { fn from(n: RBinaryExpression) -> AnyRExpression { AnyRExpression::RBinaryExpression(n) } }
impl From<RBogusExpression> for AnyRExpression { fn from(n: RBogusExpression) -> AnyRExpression { AnyRExpression::RBogusExpression(n) } }
impl From<RBracedExpressions> for AnyRExpression { fn from(n: RBracedExpressions) -> AnyRExpression { AnyRExpression::RBracedExpressions(n) } }
impl From<RBreakExpression> for AnyRExpression { fn from(n: RBreakExpression) -> AnyRExpression { AnyRExpression::RBreakExpression(n) } }
impl From<RCall> for AnyRExpression { fn from(n: RCall) -> AnyRExpression { AnyRExpression::RCall(n) } }
impl From<RDotDotI> for AnyRExpression { fn from(n: RDotDotI) -> AnyRExpression { AnyRExpression::RDotDotI(n) } }
impl From<RDots> for AnyRExpression { fn from(n: RDots) -> AnyRExpression { AnyRExpression::RDots(n) } }
impl From<RExtractExpression> for AnyRExpression { fn from(n: RExtractExpression) -> AnyRExpression { AnyRExpression::RExtractExpression(n) } }
impl From<RFalseExpression> for AnyRExpression { fn from(n: RFalseExpression) -> AnyRExpression { AnyRExpression::RFalseExpression(n) } }
impl From<RForStatement> for AnyRExpression { fn from(n: RForStatement) -> AnyRExpression { AnyRExpression::RForStatement(n) } }
impl From<RFunctionDefinition> for AnyRExpression { fn from(n: RFunctionDefinition) -> AnyRExpression { AnyRExpression::RFunctionDefinition(n) } }
impl From<RIdentifier> for AnyRExpression { fn from(n: RIdentifier) -> AnyRExpression { AnyRExpression::RIdentifier(n) } }
impl From<RIfStatement> for AnyRExpression { fn from(n: RIfStatement) -> AnyRExpression { AnyRExpression::RIfStatement(n) } }
impl From<RInfExpression> for AnyRExpression { fn from(n: RInfExpression) -> AnyRExpression { AnyRExpression::RInfExpression(n) } }
impl From<RNaExpression> for AnyRExpression { fn from(n: RNaExpression) -> AnyRExpression { AnyRExpression::RNaExpression(n) } }
impl From<RNamespaceExpression> for AnyRExpression { fn from(n: RNamespaceExpression) -> AnyRExpression { AnyRExpression::RNamespaceExpression(n) } }
impl From<RNanExpression> for AnyRExpression { fn from(n: RNanExpression) -> AnyRExpression { AnyRExpression::RNanExpression(n) } }
impl From<RNextExpression> for AnyRExpression { fn from(n: RNextExpression) -> AnyRExpression { AnyRExpression::RNextExpression(n) } }
impl From<RNullExpression> for AnyRExpression { fn from(n: RNullExpression) -> AnyRExpression { AnyRExpression::RNullExpression(n) } }
impl From<RParenthesizedExpression> for AnyRExpression { fn from(n: RParenthesizedExpression) -> AnyRExpression { AnyRExpression::RParenthesizedExpression(n) } }
impl From<RRepeatStatement> for AnyRExpression { fn from(n: RRepeatStatement) -> AnyRExpression { AnyRExpression::RRepeatStatement(n) } }
impl From<RReturnExpression> for AnyRExpression { fn from(n: RReturnExpression) -> AnyRExpression { AnyRExpression::RReturnExpression(n) } }
impl From<RSubset> for AnyRExpression { fn from(n: RSubset) -> AnyRExpression { AnyRExpression::RSubset(n) } }
impl From<RSubset2> for AnyRExpression { fn from(n: RSubset2) -> AnyRExpression { AnyRExpression::RSubset2(n) } }
impl From<RTrueExpression> for AnyRExpression { fn from(n: RTrueExpression) -> AnyRExpression { AnyRExpression::RTrueExpression(n) } }
impl From<RUnaryExpression> for AnyRExpression { fn from(n: RUnaryExpression) -> AnyRExpression { AnyRExpression::RUnaryExpression(n) } }
impl From<RWhileStatement> for AnyRExpression { fn from(n: RWhileStatement) -> AnyRExpression { AnyRExpression::RWhileStatement(n) } }
impl AnyRExpression {
    pub fn as_any_r_value(&self) -> Option<&AnyRValue> { match self { AnyRExpression::AnyRValue(x) => Some(x), _ => None } }
    pub fn as_r_binary_expression(&self) -> Option<&RBinaryExpression> { match self { AnyRExpression::RBinaryExpression(x) => Some(x), _ => None } }
    pub fn as_r_bogus_expression(&self) -> Option<&RBogusExpression> { match self { AnyRExpression::RBogusExpression(x) => Some(x), _ => None } }
    pub fn as_r_braced_expressions(&self) -> Option<&RBracedExpressions> { match self { AnyRExpression::RBracedExpressions(x) => Some(x), _ => None } }
    pub fn as_r_break_expression(&self) -> Option<&RBreakExpression> { match self { AnyRExpression::RBreakExpression(x) => Some(x), _ => None } }
    pub fn as_r_call(&self) -> Option<&RCall> { match self { AnyRExpression::RCall(x) => Some(x), _ => None } }
    pub fn as_r_dot_dot_i(&self) -> Option<&RDotDotI> { match self { AnyRExpression::RDotDotI(x) => Some(x), _ => None } }
    pub fn as_r_dots(&self) -> Option<&RDots> { match self { AnyRExpression::RDots(x) => Some(x), _ => None } }
    pub fn as_r_extract_expression(&self) -> Option<&RExtractExpression> { match self { AnyRExpression::RExtractExpression(x) => Some(x), _ => None } }
    pub fn as_r_false_expression(&self) -> Option<&RFalseExpression> { match self { AnyRExpression::RFalseExpression(x) => Some(x), _ => None } }
    pub fn as_r_for_statement(&self) -> Option<&RForStatement> { match self { AnyRExpression::RForStatement(x) => Some(x), _ => None } }
    pub fn as_r_function_definition(&self) -> Option<&RFunctionDefinition> { match self { AnyRExpression::RFunctionDefinition(x) => Some(x), _ => None } }
    pub fn as_r_identifier(&self) -> Option<&RIdentifier> { match self { AnyRExpression::RIdentifier(x) => Some(x), _ => None } }
    pub fn as_r_if_statement(&self) -> Option<&RIfStatement> { match self { AnyRExpression::RIfStatement(x) => Some(x), _ => None } }
    pub fn as_r_inf_expression(&self) -> Option<&RInfExpression> { match self { AnyRExpression::RInfExpression(x) => Some(x), _ => None } }
    pub fn as_r_na_expression(&self) -> Option<&RNaExpression> { match self { AnyRExpression::RNaExpression(x) => Some(x), _ => None } }
    pub fn as_r_namespace_expression(&self) -> Option<&RNamespaceExpression> { match self { AnyRExpression::RNamespaceExpression(x) => Some(x), _ => None } }
    pub fn as_r_nan_expression(&self) -> Option<&RNanExpression> { match self { AnyRExpression::RNanExpression(x) => Some(x), _ => None } }
    pub fn as_r_next_expression(&self) -> Option<&RNextExpression> { match self { AnyRExpression::RNextExpression(x) => Some(x), _ => None } }
    pub fn as_r_null_expression(&self) -> Option<&RNullExpression> { match self { AnyRExpression::RNullExpression(x) => Some(x), _ => None } }
    pub fn as_r_parenthesized_expression(&self) -> Option<&RParenthesizedExpression> { match self { AnyRExpression::RParenthesizedExpression(x) => Some(x), _ => None } }
    pub fn as_r_repeat_statement(&self) -> Option<&RRepeatStatement> { match self { AnyRExpression::RRepeatStatement(x) => Some(x), _ => None } }
    pub fn as_r_return_expression(&self) -> Option<&RReturnExpression> { match self { AnyRExpression::RReturnExpression(x) => Some(x), _ => None } }
    pub fn as_r_subset(&self) -> Option<&RSubset> { match self { AnyRExpression::RSubset(x) => Some(x), _ => None } }
    pub fn as_r_subset2(&self) -> Option<&RSubset2> { match self { AnyRExpression::RSubset2(x) => Some(x), _ => None } }
    pub fn as_r_true_expression(&self) -> Option<&RTrueExpression> { match self { AnyRExpression::RTrueExpression(x) => Some(x), _ => None } }
    pub fn as_r_unary_expression(&self) -> Option<&RUnaryExpression> { match self { AnyRExpression::RUnaryExpression(x) => Some(x), _ => None } }
    pub fn as_r_while_statement(&self) -> Option<&RWhileStatement> { match self { AnyRExpression::RWhileStatement(x) => Some(x), _ => None } }
}
