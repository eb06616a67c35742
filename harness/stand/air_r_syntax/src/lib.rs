//! Stand-in for air_r_syntax: the kinds and typed nodes of the R grammar (air's r.ungram).
#![allow(non_camel_case_types)]
pub use biome_rowan::{TextLen, TextRange, TextSize, TriviaPieceKind};
use biome_rowan::{AstNode, AstNodeList, AstSeparatedList, Language, SyntaxKind, SyntaxResult, support};

macro_rules! kinds {
    ($($k:ident)*) => {
        #[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd, Hash)]
        #[repr(u16)]
        pub enum RSyntaxKind { $($k),* }
        const KINDS: &[RSyntaxKind] = &[$(RSyntaxKind::$k),*];
    };
}
kinds! {
    EOF UNICODE_BOM
    L_CURLY R_CURLY L_BRACK R_BRACK L_BRACK2 R_BRACK2 L_PAREN R_PAREN COMMA
    WAT TILDE ASSIGN SUPER_ASSIGN WALRUS ASSIGN_RIGHT SUPER_ASSIGN_RIGHT EQUAL OR AND OR2 AND2 BANG
    GREATER_THAN GREATER_THAN_OR_EQUAL_TO LESS_THAN LESS_THAN_OR_EQUAL_TO EQUAL2 NOT_EQUAL
    PLUS MINUS MULTIPLY DIVIDE EXPONENTIATE EXPONENTIATE2 PIPE SPECIAL COLON COLON2 COLON3 DOLLAR AT BACKSLASH
    FUNCTION_KW FOR_KW IN_KW WHILE_KW REPEAT_KW IF_KW ELSE_KW RETURN_KW BREAK_KW NEXT_KW TRUE_KW FALSE_KW NULL_KW INF_KW NAN_KW
    NA_LOGICAL_KW DOTS DOTDOTI IDENT R_INT_LITERAL R_DOUBLE_LITERAL R_COMPLEX_LITERAL R_STRING_LITERAL
    R_ROOT R_EXPRESSION_LIST R_ARGUMENT_LIST R_PARAMETER_LIST R_BOGUS
    R_FUNCTION_DEFINITION R_PARAMETERS R_PARAMETER R_PARAMETER_DEFAULT
    R_FOR_STATEMENT R_WHILE_STATEMENT R_REPEAT_STATEMENT R_IF_STATEMENT R_ELSE_CLAUSE
    R_BRACED_EXPRESSIONS R_PARENTHESIZED_EXPRESSION R_CALL R_CALL_ARGUMENTS R_SUBSET R_SUBSET_ARGUMENTS R_SUBSET2 R_SUBSET2_ARGUMENTS
    R_ARGUMENT R_ARGUMENT_NAME_CLAUSE R_UNARY_EXPRESSION R_BINARY_EXPRESSION R_EXTRACT_EXPRESSION R_NAMESPACE_EXPRESSION
    R_IDENTIFIER R_DOTS R_DOT_DOT_I R_RETURN_EXPRESSION R_NEXT_EXPRESSION R_BREAK_EXPRESSION
    R_TRUE_EXPRESSION R_FALSE_EXPRESSION R_NULL_EXPRESSION R_INF_EXPRESSION R_NAN_EXPRESSION R_NA_EXPRESSION
    R_INTEGER_VALUE R_DOUBLE_VALUE R_COMPLEX_VALUE R_STRING_VALUE
}
use RSyntaxKind::*;
impl SyntaxKind for RSyntaxKind {
    fn to_raw(&self) -> u16 { *self as u16 }
    fn from_raw(raw: u16) -> Self { KINDS[raw as usize] }
    fn is_list(&self) -> bool { matches!(self, R_EXPRESSION_LIST | R_ARGUMENT_LIST | R_PARAMETER_LIST) }
    fn is_bogus(&self) -> bool { matches!(self, R_BOGUS) }
    fn is_root(&self) -> bool { matches!(self, R_ROOT) }
}
#[derive(Debug, Default, Hash, Copy, Eq, Ord, PartialEq, PartialOrd, Clone)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; type Root = RRoot; }
pub type RSyntaxNode = biome_rowan::SyntaxNode<RLanguage>;
pub type RSyntaxToken = biome_rowan::SyntaxToken<RLanguage>;
pub type RSyntaxElement = biome_rowan::SyntaxElement<RLanguage>;
pub type RSyntaxTrivia = biome_rowan::SyntaxTrivia<RLanguage>;

macro_rules! base {
    ($t:ident, $($k:ident)|+) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $t { syntax: RSyntaxNode }
        impl AstNode for $t {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { matches!(kind, $($k)|+) }
            fn cast(syntax: RSyntaxNode) -> Option<Self> { Self::can_cast(syntax.kind()).then(|| Self { syntax }) }
            fn syntax(&self) -> &RSyntaxNode { &self.syntax }
            fn into_syntax(self) -> RSyntaxNode { self.syntax }
        }
        impl From<$t> for RSyntaxNode { fn from(n: $t) -> RSyntaxNode { n.syntax } }
        impl std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.syntax) } }
        impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.syntax) } }
    };
}
macro_rules! ftype {
    (tok) => { SyntaxResult<RSyntaxToken> };
    (opttok) => { Option<RSyntaxToken> };
    ((req $t:ty)) => { SyntaxResult<$t> };
    ((opt $t:ty)) => { Option<$t> };
    ((list $t:ty)) => { $t };
}
macro_rules! fget {
    ($s:expr, $i:expr, tok) => { support::required_token($s, $i) };
    ($s:expr, $i:expr, opttok) => { support::token($s, $i) };
    ($s:expr, $i:expr, (req $t:ty)) => { support::required_node($s, $i) };
    ($s:expr, $i:expr, (opt $t:ty)) => { support::node($s, $i) };
    ($s:expr, $i:expr, (list $t:ty)) => { support::list($s, $i) };
}
macro_rules! node {
    ($t:ident $fields:ident $k:ident { $($i:literal $f:ident : $ty:tt),* $(,)? }) => {
        base!($t, $k);
        pub struct $fields { $(pub $f: ftype!($ty)),* }
        impl $t {
            pub fn as_fields(&self) -> $fields { $fields { $($f: self.$f()),* } }
            $(pub fn $f(&self) -> ftype!($ty) { fget!(&self.syntax, $i, $ty) })*
        }
    };
}
node!(RRoot RRootFields R_ROOT { 0 bom_token: opttok, 1 expressions: (list RExpressionList), 2 eof_token: tok });
node!(RFunctionDefinition RFunctionDefinitionFields R_FUNCTION_DEFINITION { 0 name: tok, 1 parameters: (req RParameters), 2 body: (req AnyRExpression) });
node!(RParameters RParametersFields R_PARAMETERS { 0 l_paren_token: tok, 1 items: (list RParameterList), 2 r_paren_token: tok });
node!(RParameter RParameterFields R_PARAMETER { 0 name: (req AnyRParameterName), 1 default: (opt RParameterDefault) });
node!(RParameterDefault RParameterDefaultFields R_PARAMETER_DEFAULT { 0 equal_token: tok, 1 value: (req AnyRExpression) });
node!(RForStatement RForStatementFields R_FOR_STATEMENT { 0 for_token: tok, 1 l_paren_token: tok, 2 variable: (req RIdentifier), 3 in_token: tok, 4 sequence: (req AnyRExpression), 5 r_paren_token: tok, 6 body: (req AnyRExpression) });
node!(RWhileStatement RWhileStatementFields R_WHILE_STATEMENT { 0 while_token: tok, 1 l_paren_token: tok, 2 condition: (req AnyRExpression), 3 r_paren_token: tok, 4 body: (req AnyRExpression) });
node!(RRepeatStatement RRepeatStatementFields R_REPEAT_STATEMENT { 0 repeat_token: tok, 1 body: (req AnyRExpression) });
node!(RIfStatement RIfStatementFields R_IF_STATEMENT { 0 if_token: tok, 1 l_paren_token: tok, 2 condition: (req AnyRExpression), 3 r_paren_token: tok, 4 consequence: (req AnyRExpression), 5 else_clause: (opt RElseClause) });
node!(RElseClause RElseClauseFields R_ELSE_CLAUSE { 0 else_token: tok, 1 alternative: (req AnyRExpression) });
node!(RBracedExpressions RBracedExpressionsFields R_BRACED_EXPRESSIONS { 0 l_curly_token: tok, 1 expressions: (list RExpressionList), 2 r_curly_token: tok });
node!(RParenthesizedExpression RParenthesizedExpressionFields R_PARENTHESIZED_EXPRESSION { 0 l_paren_token: tok, 1 body: (req AnyRExpression), 2 r_paren_token: tok });
node!(RCall RCallFields R_CALL { 0 function: (req AnyRExpression), 1 arguments: (req RCallArguments) });
node!(RCallArguments RCallArgumentsFields R_CALL_ARGUMENTS { 0 l_paren_token: tok, 1 items: (list RArgumentList), 2 r_paren_token: tok });
node!(RSubset RSubsetFields R_SUBSET { 0 function: (req AnyRExpression), 1 arguments: (req RSubsetArguments) });
node!(RSubsetArguments RSubsetArgumentsFields R_SUBSET_ARGUMENTS { 0 l_brack_token: tok, 1 items: (list RArgumentList), 2 r_brack_token: tok });
node!(RSubset2 RSubset2Fields R_SUBSET2 { 0 function: (req AnyRExpression), 1 arguments: (req RSubset2Arguments) });
node!(RSubset2Arguments RSubset2ArgumentsFields R_SUBSET2_ARGUMENTS { 0 l_brack2_token: tok, 1 items: (list RArgumentList), 2 r_brack2_token: tok });
node!(RArgument RArgumentFields R_ARGUMENT { 0 name_clause: (opt RArgumentNameClause), 1 value: (opt AnyRExpression) });
node!(RArgumentNameClause RArgumentNameClauseFields R_ARGUMENT_NAME_CLAUSE { 0 name: (req AnyRArgumentName), 1 equal_token: tok });
node!(RUnaryExpression RUnaryExpressionFields R_UNARY_EXPRESSION { 0 operator: tok, 1 argument: (req AnyRExpression) });
node!(RBinaryExpression RBinaryExpressionFields R_BINARY_EXPRESSION { 0 left: (req AnyRExpression), 1 operator: tok, 2 right: (req AnyRExpression) });
node!(RExtractExpression RExtractExpressionFields R_EXTRACT_EXPRESSION { 0 left: (req AnyRExpression), 1 operator: tok, 2 right: (req AnyRSelector) });
node!(RNamespaceExpression RNamespaceExpressionFields R_NAMESPACE_EXPRESSION { 0 left: (req AnyRSelector), 1 operator: tok, 2 right: (req AnyRSelector) });
node!(RIdentifier RIdentifierFields R_IDENTIFIER { 0 name_token: tok });
node!(RDots RDotsFields R_DOTS { 0 name_token: tok });
node!(RDotDotI RDotDotIFields R_DOT_DOT_I { 0 name_token: tok });
node!(RReturnExpression RReturnExpressionFields R_RETURN_EXPRESSION { 0 return_token: tok });
node!(RNextExpression RNextExpressionFields R_NEXT_EXPRESSION { 0 next_token: tok });
node!(RBreakExpression RBreakExpressionFields R_BREAK_EXPRESSION { 0 break_token: tok });
node!(RTrueExpression RTrueExpressionFields R_TRUE_EXPRESSION { 0 true_token: tok });
node!(RFalseExpression RFalseExpressionFields R_FALSE_EXPRESSION { 0 false_token: tok });
node!(RNullExpression RNullExpressionFields R_NULL_EXPRESSION { 0 null_token: tok });
node!(RInfExpression RInfExpressionFields R_INF_EXPRESSION { 0 inf_token: tok });
node!(RNanExpression RNanExpressionFields R_NAN_EXPRESSION { 0 nan_token: tok });
node!(RNaExpression RNaExpressionFields R_NA_EXPRESSION { 0 value_token: tok });
node!(RIntegerValue RIntegerValueFields R_INTEGER_VALUE { 0 value_token: tok });
node!(RDoubleValue RDoubleValueFields R_DOUBLE_VALUE { 0 value_token: tok });
node!(RComplexValue RComplexValueFields R_COMPLEX_VALUE { 0 value_token: tok });
node!(RStringValue RStringValueFields R_STRING_VALUE { 0 value_token: tok });
node!(RBogusExpression RBogusExpressionFields R_BOGUS {});

macro_rules! any {
    ($t:ident { $($v:ident $as:ident),* $(,)? } $(nested $n:ident $nas:ident)?) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub enum $t { $($v($v),)* $($n($n),)? }
        impl AstNode for $t {
            type Language = RLanguage;
            fn can_cast(kind: RSyntaxKind) -> bool { false $(|| $v::can_cast(kind))* $(|| $n::can_cast(kind))? }
            fn cast(syntax: RSyntaxNode) -> Option<Self> {
                let k = syntax.kind();
                $(if $v::can_cast(k) { return $v::cast(syntax).map($t::$v) })*
                $(if $n::can_cast(k) { return $n::cast(syntax).map($t::$n) })?
                None
            }
            fn syntax(&self) -> &RSyntaxNode { match self { $($t::$v(x) => x.syntax(),)* $($t::$n(x) => x.syntax(),)? } }
            fn into_syntax(self) -> RSyntaxNode { match self { $($t::$v(x) => x.into_syntax(),)* $($t::$n(x) => x.into_syntax(),)? } }
        }
        impl $t {
            $(pub fn $as(&self) -> Option<&$v> { match self { $t::$v(x) => Some(x), #[allow(unreachable_patterns)] _ => None } })*
            $(pub fn $nas(&self) -> Option<&$n> { match self { $t::$n(x) => Some(x), _ => None } })?
        }
        $(impl From<$v> for $t { fn from(n: $v) -> $t { $t::$v(n) } })*
        $(impl From<$n> for $t { fn from(n: $n) -> $t { $t::$n(n) } })?
        impl From<$t> for RSyntaxNode { fn from(n: $t) -> RSyntaxNode { n.into_syntax() } }
        impl std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.syntax()) } }
        impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.syntax()) } }
    };
}
any!(AnyRValue { RIntegerValue as_r_integer_value, RDoubleValue as_r_double_value, RComplexValue as_r_complex_value, RStringValue as_r_string_value });
any!(AnyRParameterName { RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i });
any!(AnyRSelector { RIdentifier as_r_identifier, RStringValue as_r_string_value, RDots as_r_dots, RDotDotI as_r_dot_dot_i,
    RCall as_r_call, RParenthesizedExpression as_r_parenthesized_expression, RBracedExpressions as_r_braced_expressions, RNullExpression as_r_null_expression, RReturnExpression as_r_return_expression });
any!(AnyRArgumentName { RIdentifier as_r_identifier, RStringValue as_r_string_value, RDots as_r_dots, RDotDotI as_r_dot_dot_i,
    RNullExpression as_r_null_expression });
any!(AnyRExpression {
    RFunctionDefinition as_r_function_definition, RForStatement as_r_for_statement, RWhileStatement as_r_while_statement,
    RRepeatStatement as_r_repeat_statement, RIfStatement as_r_if_statement, RBracedExpressions as_r_braced_expressions,
    RParenthesizedExpression as_r_parenthesized_expression, RCall as_r_call, RSubset as_r_subset, RSubset2 as_r_subset2,
    RUnaryExpression as_r_unary_expression, RBinaryExpression as_r_binary_expression, RExtractExpression as_r_extract_expression,
    RNamespaceExpression as_r_namespace_expression, RIdentifier as_r_identifier, RDots as_r_dots, RDotDotI as_r_dot_dot_i,
    RReturnExpression as_r_return_expression, RNextExpression as_r_next_expression, RBreakExpression as_r_break_expression,
    RTrueExpression as_r_true_expression, RFalseExpression as_r_false_expression, RNullExpression as_r_null_expression,
    RInfExpression as_r_inf_expression, RNanExpression as_r_nan_expression, RNaExpression as_r_na_expression,
    RBogusExpression as_r_bogus_expression,
} nested AnyRValue as_any_r_value);

base!(RExpressionList, R_EXPRESSION_LIST);
base!(RArgumentList, R_ARGUMENT_LIST);
base!(RParameterList, R_PARAMETER_LIST);
impl AstNodeList for RExpressionList {
    type Language = RLanguage;
    type Node = AnyRExpression;
    fn syntax_list(&self) -> &RSyntaxNode { &self.syntax }
    fn into_syntax_list(self) -> RSyntaxNode { self.syntax }
}
impl IntoIterator for RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = biome_rowan::AstNodeListIterator<RLanguage, AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl IntoIterator for &RExpressionList {
    type Item = AnyRExpression;
    type IntoIter = biome_rowan::AstNodeListIterator<RLanguage, AnyRExpression>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
macro_rules! sep {
    ($t:ident $n:ident) => {
        impl AstSeparatedList for $t {
            type Language = RLanguage;
            type Node = $n;
            fn syntax_list(&self) -> &RSyntaxNode { &self.syntax }
            fn into_syntax_list(self) -> RSyntaxNode { self.syntax }
        }
        impl IntoIterator for $t {
            type Item = SyntaxResult<$n>;
            type IntoIter = biome_rowan::AstSeparatedListNodesIterator<RLanguage, $n>;
            fn into_iter(self) -> Self::IntoIter { self.iter() }
        }
        impl IntoIterator for &$t {
            type Item = SyntaxResult<$n>;
            type IntoIter = biome_rowan::AstSeparatedListNodesIterator<RLanguage, $n>;
            fn into_iter(self) -> Self::IntoIter { self.iter() }
        }
    };
}
sep!(RArgumentList RArgument);
sep!(RParameterList RParameter);
