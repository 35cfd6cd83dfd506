#!/usr/bin/env python3
"""Generates src/lib.rs: typed R syntax nodes over the biome_rowan stand-in.
Slot layout follows air's published grammar (r.ungram)."""
import re
# (node, [(field, kind, type)]) kind: n=required node, n?=optional, t=required token, t?=optional token, l=list
G = [
 ("RRoot", [("bom_token","t?",""),("expressions","l","RExpressionList"),("eof_token","t","")]),
 ("RIdentifier", [("name_token","t","")]),
 ("RDots", [("value_token","t","")]),
 ("RDotDotI", [("value_token","t","")]),
 ("RIntegerValue", [("value_token","t","")]),
 ("RDoubleValue", [("value_token","t","")]),
 ("RComplexValue", [("value_token","t","")]),
 ("RStringValue", [("value_token","t","")]),
 ("RTrueExpression", [("true_token","t","")]),
 ("RFalseExpression", [("false_token","t","")]),
 ("RNullExpression", [("null_token","t","")]),
 ("RInfExpression", [("inf_token","t","")]),
 ("RNanExpression", [("nan_token","t","")]),
 ("RNaExpression", [("value_token","t","")]),
 ("RNextExpression", [("next_token","t","")]),
 ("RBreakExpression", [("break_token","t","")]),
 ("RReturnExpression", [("return_token","t","")]),
 ("RFunctionDefinition", [("name","t",""),("parameters","n","RParameters"),("body","n","AnyRExpression")]),
 ("RParameters", [("l_paren_token","t",""),("items","l","RParameterList"),("r_paren_token","t","")]),
 ("RParameter", [("name","n","AnyRParameterName"),("default","n?","RParameterDefault")]),
 ("RParameterDefault", [("eq_token","t",""),("value","n","AnyRExpression")]),
 ("RBracedExpressions", [("l_curly_token","t",""),("expressions","l","RExpressionList"),("r_curly_token","t","")]),
 ("RParenthesizedExpression", [("l_paren_token","t",""),("body","n","AnyRExpression"),("r_paren_token","t","")]),
 ("RCall", [("function","n","AnyRExpression"),("arguments","n","RCallArguments")]),
 ("RSubset", [("function","n","AnyRExpression"),("arguments","n","RSubsetArguments")]),
 ("RSubset2", [("function","n","AnyRExpression"),("arguments","n","RSubset2Arguments")]),
 ("RCallArguments", [("l_paren_token","t",""),("items","l","RArgumentList"),("r_paren_token","t","")]),
 ("RSubsetArguments", [("l_brack_token","t",""),("items","l","RArgumentList"),("r_brack_token","t","")]),
 ("RSubset2Arguments", [("l_brack2_token","t",""),("items","l","RArgumentList"),("r_brack2_token","t","")]),
 ("RArgument", [("name_clause","n?","RArgumentNameClause"),("value","n?","AnyRExpression")]),
 ("RArgumentNameClause", [("name","n","AnyRArgumentName"),("eq_token","t","")]),
 ("RIfStatement", [("if_token","t",""),("l_paren_token","t",""),("condition","n","AnyRExpression"),("r_paren_token","t",""),("consequence","n","AnyRExpression"),("else_clause","n?","RElseClause")]),
 ("RElseClause", [("else_token","t",""),("alternative","n","AnyRExpression")]),
 ("RForStatement", [("for_token","t",""),("l_paren_token","t",""),("variable","n","RIdentifier"),("in_token","t",""),("sequence","n","AnyRExpression"),("r_paren_token","t",""),("body","n","AnyRExpression")]),
 ("RWhileStatement", [("while_token","t",""),("l_paren_token","t",""),("condition","n","AnyRExpression"),("r_paren_token","t",""),("body","n","AnyRExpression")]),
 ("RRepeatStatement", [("repeat_token","t",""),("body","n","AnyRExpression")]),
 ("RUnaryExpression", [("operator","t",""),("argument","n","AnyRExpression")]),
 ("RBinaryExpression", [("left","n","AnyRExpression"),("operator","t",""),("right","n","AnyRExpression")]),
 ("RExtractExpression", [("left","n","AnyRExpression"),("operator","t",""),("right","n","AnyRSelector")]),
 ("RNamespaceExpression", [("left","n","AnyRSelector"),("operator","t",""),("right","n","AnyRSelector")]),
]
LISTS = [("RExpressionList","node","AnyRExpression"),("RArgumentList","sep","RArgument"),("RParameterList","sep","RParameter")]
BOGUS = ["RBogus","RBogusValue","RBogusExpression"]
ENUMS = {
 "AnyRValue": ["RBogusValue","RIntegerValue","RDoubleValue","RComplexValue","RStringValue"],
 "AnyRSelector": ["RIdentifier","RStringValue","RDots","RDotDotI","RCall","RSubset","RSubset2","RBracedExpressions","RParenthesizedExpression","RExtractExpression","RNamespaceExpression","RReturnExpression"],
 "AnyRParameterName": ["RIdentifier","RDots","RDotDotI"],
 "AnyRArgumentName": ["RIdentifier","RStringValue","RDots","RDotDotI","RNullExpression"],
 "AnyRExpression": ["AnyRValue","RBinaryExpression","RBogusExpression","RBracedExpressions","RBreakExpression","RCall","RDotDotI","RDots","RExtractExpression","RFalseExpression","RForStatement","RFunctionDefinition","RIdentifier","RIfStatement","RInfExpression","RNaExpression","RNamespaceExpression","RNanExpression","RNextExpression","RNullExpression","RParenthesizedExpression","RRepeatStatement","RReturnExpression","RSubset","RSubset2","RTrueExpression","RUnaryExpression","RWhileStatement"],
}
TOKENS = """SEMICOLON COMMA L_CURLY R_CURLY L_PAREN R_PAREN L_BRACK R_BRACK L_BRACK2 R_BRACK2 DOTS DOT_DOT_I
WAT TILDE ASSIGN SUPER_ASSIGN WALRUS ASSIGN_RIGHT SUPER_ASSIGN_RIGHT OR AND OR2 AND2 BANG GREATER_THAN
GREATER_THAN_OR_EQUAL_TO LESS_THAN LESS_THAN_OR_EQUAL_TO EQUAL2 NOT_EQUAL PLUS MINUS MULTIPLY DIVIDE EXPONENTIATE EXPONENTIATE2
PIPE SPECIAL COLON COLON2 COLON3 DOLLAR AT EQUAL BACKSLASH FUNCTION_KW FOR_KW IN_KW WHILE_KW REPEAT_KW IF_KW ELSE_KW RETURN_KW BREAK_KW NEXT_KW TRUE_KW FALSE_KW NULL_KW INF_KW NAN_KW NA_LOGICAL_KW NA_INTEGER_KW NA_DOUBLE_KW NA_COMPLEX_KW NA_CHARACTER_KW
R_INTEGER_LITERAL R_DOUBLE_LITERAL R_COMPLEX_LITERAL R_STRING_LITERAL R_LOGICAL_LITERAL IDENT NEWLINE WHITESPACE COMMENT UNICODE_BOM ERROR_TOKEN""".split()
def snake(n): return re.sub(r'(?<=[a-z0-9])(?=[A-Z])|(?<=R)(?=[A-Z])','_',n)
def K(n):
    s=snake(n).upper()
    return {"R_DOT_DOT_I":"R_DOT_DOT_I"}.get(s,s)
def low(n): return snake(n).lower()
o=[]; w=o.append
w("//! GENERATED by gen.py - offline stand-in for `air_r_syntax`.\n#![allow(clippy::all, non_camel_case_types)]\n")
w("pub use biome_rowan::{TextRange, TextSize, TriviaPieceKind};\nuse biome_rowan::{AstNode, AstNodeList, AstNodeListIterator, AstSeparatedList, AstSeparatedListNodesIterator, Language, RawSyntaxKind, SyntaxKind, SyntaxResult, support};\nuse std::fmt;\n")
kinds=["TOMBSTONE","EOF"]+TOKENS+["__TOKENS_END"]+[K(n) for n,_ in G]+[K(n) for n,_,_ in LISTS]+[K(b) for b in BOGUS]
w("#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(u16)]\npub enum RSyntaxKind {\n"+"".join("    %s,\n"%k for k in kinds)+"    __LAST,\n}")
w("use RSyntaxKind::*;\nconst ALL: &[RSyntaxKind] = &["+", ".join(kinds)+"];")
w("impl RSyntaxKind {\n    pub fn is_punct(self) -> bool { (self as u16) > (EOF as u16) && (self as u16) < (FUNCTION_KW as u16) }\n    pub fn is_keyword(self) -> bool { (self as u16) >= (FUNCTION_KW as u16) && (self as u16) <= (NA_CHARACTER_KW as u16) }\n    pub fn is_literal(self) -> bool { (self as u16) >= (R_INTEGER_LITERAL as u16) && (self as u16) <= (R_LOGICAL_LITERAL as u16) }\n    pub fn is_trivia(self) -> bool { matches!(self, NEWLINE | WHITESPACE | COMMENT) }\n}")
w("impl SyntaxKind for RSyntaxKind {\n    fn is_list(&self) -> bool { matches!(self, %s) }\n    fn is_bogus(&self) -> bool { matches!(self, %s) }\n    fn to_raw(&self) -> RawSyntaxKind { RawSyntaxKind(*self as u16) }\n    fn from_raw(raw: RawSyntaxKind) -> Self { ALL[raw.0 as usize] }\n}"%(" | ".join(K(n) for n,_,_ in LISTS)," | ".join(K(b) for b in BOGUS)))
w("impl From<RSyntaxKind> for u16 { fn from(k: RSyntaxKind) -> u16 { k as u16 } }")
w("#[derive(Debug, Default, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]\npub struct RLanguage;\nimpl Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }")
w("pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;\npub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;\npub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;\npub type RSyntaxNodeChildren = biome_rowan::SyntaxNodeChildren<RLanguage>;\npub type RSyntaxList = RSyntaxNode;")
def nodeimpl(n, kind):
    w(f"""#[derive(Clone, PartialEq, Eq, Hash)]
pub struct {n} {{ pub(crate) syntax: RSyntaxNode }}
impl AstNode for {n} {{
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool {{ kind == {kind} }}
    fn cast(syntax: RSyntaxNode) -> Option<Self> {{ if syntax.kind() == {kind} {{ Some(Self {{ syntax }}) }} else {{ None }} }}
    fn syntax(&self) -> &RSyntaxNode {{ &self.syntax }}
    fn into_syntax(self) -> RSyntaxNode {{ self.syntax }}
}}
impl fmt::Debug for {n} {{ fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ write!(f, "{n}({{:?}})", self.syntax.text_trimmed().to_string()) }} }}
impl fmt::Display for {n} {{ fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ fmt::Display::fmt(&self.syntax, f) }} }}
impl From<{n}> for RSyntaxNode {{ fn from(n: {n}) -> RSyntaxNode {{ n.syntax }} }}
impl From<{n}> for RSyntaxElement {{ fn from(n: {n}) -> RSyntaxElement {{ n.syntax.into() }} }}""")
for n,fs in G:
    nodeimpl(n,K(n))
    b=[f"    pub const unsafe fn new_unchecked(syntax: RSyntaxNode) -> Self {{ Self {{ syntax }} }}"]
    ff=[];init=[]
    for i,(f,k,t) in enumerate(fs):
        if k=="n": ty=f"SyntaxResult<{t}>"; ex=f"support::required_node(&self.syntax, {i})"
        elif k=="n?": ty=f"Option<{t}>"; ex=f"support::node(&self.syntax, {i})"
        elif k=="t": ty="SyntaxResult<RSyntaxToken>"; ex=f"support::required_token(&self.syntax, {i})"
        elif k=="t?": ty="Option<RSyntaxToken>"; ex=f"support::token(&self.syntax, {i})"
        else: ty=t; ex=f"support::list(&self.syntax, {i})"
        b.append(f"    pub fn {f}(&self) -> {ty} {{ {ex} }}")
        ff.append(f"    pub {f}: {ty},"); init.append(f"{f}: self.{f}()")
    b.append(f"    pub fn as_fields(&self) -> {n}Fields {{ {n}Fields {{ {', '.join(init)} }} }}")
    w(f"impl {n} {{\n"+"\n".join(b)+"\n}")
    w(f"#[derive(Clone, Debug)]\npub struct {n}Fields {{\n"+"\n".join(ff)+"\n}")
for n,k,t in LISTS:
    nodeimpl(n,K(n))
    if k=="node":
        w(f"""impl AstNodeList for {n} {{ type Language = RLanguage; type Node = {t}; fn syntax_list(&self) -> &RSyntaxNode {{ &self.syntax }} }}
impl IntoIterator for &{n} {{ type Item = {t}; type IntoIter = AstNodeListIterator<RLanguage, {t}>; fn into_iter(self) -> Self::IntoIter {{ self.iter() }} }}
impl IntoIterator for {n} {{ type Item = {t}; type IntoIter = AstNodeListIterator<RLanguage, {t}>; fn into_iter(self) -> Self::IntoIter {{ self.iter() }} }}""")
    else:
        w(f"""impl AstSeparatedList for {n} {{ type Language = RLanguage; type Node = {t}; fn syntax_list(&self) -> &RSyntaxNode {{ &self.syntax }} }}
impl IntoIterator for &{n} {{ type Item = SyntaxResult<{t}>; type IntoIter = AstSeparatedListNodesIterator<{t}>; fn into_iter(self) -> Self::IntoIter {{ self.iter() }} }}
impl IntoIterator for {n} {{ type Item = SyntaxResult<{t}>; type IntoIter = AstSeparatedListNodesIterator<{t}>; fn into_iter(self) -> Self::IntoIter {{ self.iter() }} }}""")
for b in BOGUS:
    nodeimpl(b,K(b))
for e,vs in ENUMS.items():
    w(f"#[derive(Clone, PartialEq, Eq, Hash, Debug)]\npub enum {e} {{\n"+"".join(f"    {v}({v}),\n" for v in vs)+"}")
    can=" || ".join(f"{v}::can_cast(kind)" for v in vs)
    cast="".join(f"        if {v}::can_cast(syntax.kind()) {{ return Some({e}::{v}({v}::cast(syntax)?)); }}\n" for v in vs)
    w(f"""impl AstNode for {e} {{
    type Language = RLanguage;
    fn can_cast(kind: RSyntaxKind) -> bool {{ {can} }}
    fn cast(syntax: RSyntaxNode) -> Option<Self> {{
{cast}        None
    }}
    fn syntax(&self) -> &RSyntaxNode {{ match self {{ {' '.join(f'{e}::{v}(x) => x.syntax(),' for v in vs)} }} }}
    fn into_syntax(self) -> RSyntaxNode {{ match self {{ {' '.join(f'{e}::{v}(x) => x.into_syntax(),' for v in vs)} }} }}
}}
impl fmt::Display for {e} {{ fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ fmt::Display::fmt(self.syntax(), f) }} }}
impl From<{e}> for RSyntaxNode {{ fn from(n: {e}) -> RSyntaxNode {{ n.into_syntax() }} }}
impl From<{e}> for RSyntaxElement {{ fn from(n: {e}) -> RSyntaxElement {{ n.into_syntax().into() }} }}""")
    ms=[]
    for v in vs:
        w(f"impl From<{v}> for {e} {{ fn from(n: {v}) -> {e} {{ {e}::{v}(n) }} }}")
        ms.append(f"    pub fn as_{low(v)}(&self) -> Option<&{v}> {{ match self {{ {e}::{v}(x) => Some(x), _ => None }} }}")
    if e=="AnyRValue":
        ms.append("    pub fn value_token(&self) -> SyntaxResult<RSyntaxToken> { support::required_token(self.syntax(), 0) }")
    w(f"impl {e} {{\n"+"\n".join(ms)+"\n}")
open(__file__.replace("gen.py","src/lib.rs"),"w").write("\n".join(o)+"\n")
