//! Stand-in for ruff_python_ast: the same node names, fields and helpers, as far as rtest could plausibly use them.
use ruff_text_size::{Ranged, TextRange};
use std::fmt;
use std::ops::Deref;

pub mod name {
    use std::fmt;
    use std::ops::Deref;

    #[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Name(pub String);

    impl Name {
        pub fn new(name: impl Into<String>) -> Self {
            Self(name.into())
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl Deref for Name {
        type Target = str;
        fn deref(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Debug for Name {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Name({:?})", self.0)
        }
    }
    impl fmt::Display for Name {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl AsRef<str> for Name {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
    impl std::borrow::Borrow<str> for Name {
        fn borrow(&self) -> &str {
            &self.0
        }
    }
    impl From<&str> for Name {
        fn from(s: &str) -> Self {
            Self(s.into())
        }
    }
    impl From<String> for Name {
        fn from(s: String) -> Self {
            Self(s)
        }
    }
    impl From<Name> for String {
        fn from(n: Name) -> Self {
            n.0
        }
    }
    impl From<&Name> for String {
        fn from(n: &Name) -> Self {
            n.0.clone()
        }
    }
    impl PartialEq<str> for Name {
        fn eq(&self, other: &str) -> bool {
            self.0 == other
        }
    }
    impl PartialEq<&str> for Name {
        fn eq(&self, other: &&str) -> bool {
            self.0 == *other
        }
    }
    impl PartialEq<String> for Name {
        fn eq(&self, other: &String) -> bool {
            &self.0 == other
        }
    }
}

use name::Name;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Identifier {
    pub id: Name,
    pub range: TextRange,
}

impl Identifier {
    pub fn new(id: impl Into<Name>, range: TextRange) -> Self {
        Self { id: id.into(), range }
    }
    pub fn id(&self) -> &Name {
        &self.id
    }
    pub fn as_str(&self) -> &str {
        &self.id
    }
}
impl Deref for Identifier {
    type Target = str;
    fn deref(&self) -> &str {
        &self.id
    }
}
impl fmt::Display for Identifier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.id)
    }
}
impl AsRef<str> for Identifier {
    fn as_ref(&self) -> &str {
        &self.id
    }
}
impl PartialEq<str> for Identifier {
    fn eq(&self, other: &str) -> bool {
        self.as_str() == other
    }
}
impl PartialEq<&str> for Identifier {
    fn eq(&self, other: &&str) -> bool {
        self.as_str() == *other
    }
}
impl PartialEq<String> for Identifier {
    fn eq(&self, other: &String) -> bool {
        self.as_str() == other
    }
}
impl From<Identifier> for Name {
    fn from(i: Identifier) -> Self {
        i.id
    }
}
impl Ranged for Identifier {
    fn range(&self) -> TextRange {
        self.range
    }
}

macro_rules! nodes {
    ($($name:ident { $($field:ident : $ty:ty),* $(,)? })*) => { $(
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name {
            pub range: TextRange,
            $(pub $field: $ty,)*
        }
        impl Ranged for $name {
            fn range(&self) -> TextRange {
                self.range
            }
        }
    )* };
}

macro_rules! choice {
    ($enum:ident { $($variant:ident ( $ty:ident ) $is:ident $as:ident $into:ident)* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum $enum {
            $($variant($ty),)*
        }
        impl Ranged for $enum {
            fn range(&self) -> TextRange {
                match self {
                    $(Self::$variant(x) => x.range(),)*
                }
            }
        }
        impl $enum {
            $(
                pub const fn $is(&self) -> bool {
                    matches!(self, Self::$variant(_))
                }
                pub fn $as(&self) -> Option<&$ty> {
                    match self {
                        Self::$variant(x) => Some(x),
                        _ => None,
                    }
                }
                pub fn $into(self) -> Option<$ty> {
                    match self {
                        Self::$variant(x) => Some(x),
                        _ => None,
                    }
                }
            )*
        }
        $(
            impl From<$ty> for $enum {
                fn from(x: $ty) -> Self {
                    Self::$variant(x)
                }
            }
        )*
    };
}

choice! { Mod {
    Module(ModModule) is_module as_module module
    Expression(ModExpression) is_expression as_expression expression
} }

choice! { Stmt {
    FunctionDef(StmtFunctionDef) is_function_def_stmt as_function_def_stmt function_def_stmt
    ClassDef(StmtClassDef) is_class_def_stmt as_class_def_stmt class_def_stmt
    Return(StmtReturn) is_return_stmt as_return_stmt return_stmt
    Delete(StmtDelete) is_delete_stmt as_delete_stmt delete_stmt
    TypeAlias(StmtTypeAlias) is_type_alias_stmt as_type_alias_stmt type_alias_stmt
    Assign(StmtAssign) is_assign_stmt as_assign_stmt assign_stmt
    AugAssign(StmtAugAssign) is_aug_assign_stmt as_aug_assign_stmt aug_assign_stmt
    AnnAssign(StmtAnnAssign) is_ann_assign_stmt as_ann_assign_stmt ann_assign_stmt
    For(StmtFor) is_for_stmt as_for_stmt for_stmt
    While(StmtWhile) is_while_stmt as_while_stmt while_stmt
    If(StmtIf) is_if_stmt as_if_stmt if_stmt
    With(StmtWith) is_with_stmt as_with_stmt with_stmt
    Match(StmtMatch) is_match_stmt as_match_stmt match_stmt
    Raise(StmtRaise) is_raise_stmt as_raise_stmt raise_stmt
    Try(StmtTry) is_try_stmt as_try_stmt try_stmt
    Assert(StmtAssert) is_assert_stmt as_assert_stmt assert_stmt
    Import(StmtImport) is_import_stmt as_import_stmt import_stmt
    ImportFrom(StmtImportFrom) is_import_from_stmt as_import_from_stmt import_from_stmt
    Global(StmtGlobal) is_global_stmt as_global_stmt global_stmt
    Nonlocal(StmtNonlocal) is_nonlocal_stmt as_nonlocal_stmt nonlocal_stmt
    Expr(StmtExpr) is_expr_stmt as_expr_stmt expr_stmt
    Pass(StmtPass) is_pass_stmt as_pass_stmt pass_stmt
    Break(StmtBreak) is_break_stmt as_break_stmt break_stmt
    Continue(StmtContinue) is_continue_stmt as_continue_stmt continue_stmt
} }

choice! { Expr {
    BoolOp(ExprBoolOp) is_bool_op_expr as_bool_op_expr bool_op_expr
    Named(ExprNamed) is_named_expr as_named_expr named_expr
    BinOp(ExprBinOp) is_bin_op_expr as_bin_op_expr bin_op_expr
    UnaryOp(ExprUnaryOp) is_unary_op_expr as_unary_op_expr unary_op_expr
    Lambda(ExprLambda) is_lambda_expr as_lambda_expr lambda_expr
    If(ExprIf) is_if_expr as_if_expr if_expr
    Dict(ExprDict) is_dict_expr as_dict_expr dict_expr
    Set(ExprSet) is_set_expr as_set_expr set_expr
    ListComp(ExprListComp) is_list_comp_expr as_list_comp_expr list_comp_expr
    SetComp(ExprSetComp) is_set_comp_expr as_set_comp_expr set_comp_expr
    DictComp(ExprDictComp) is_dict_comp_expr as_dict_comp_expr dict_comp_expr
    Generator(ExprGenerator) is_generator_expr as_generator_expr generator_expr
    Await(ExprAwait) is_await_expr as_await_expr await_expr
    Yield(ExprYield) is_yield_expr as_yield_expr yield_expr
    YieldFrom(ExprYieldFrom) is_yield_from_expr as_yield_from_expr yield_from_expr
    Compare(ExprCompare) is_compare_expr as_compare_expr compare_expr
    Call(ExprCall) is_call_expr as_call_expr call_expr
    FString(ExprFString) is_f_string_expr as_f_string_expr f_string_expr
    StringLiteral(ExprStringLiteral) is_string_literal_expr as_string_literal_expr string_literal_expr
    BytesLiteral(ExprBytesLiteral) is_bytes_literal_expr as_bytes_literal_expr bytes_literal_expr
    NumberLiteral(ExprNumberLiteral) is_number_literal_expr as_number_literal_expr number_literal_expr
    BooleanLiteral(ExprBooleanLiteral) is_boolean_literal_expr as_boolean_literal_expr boolean_literal_expr
    NoneLiteral(ExprNoneLiteral) is_none_literal_expr as_none_literal_expr none_literal_expr
    EllipsisLiteral(ExprEllipsisLiteral) is_ellipsis_literal_expr as_ellipsis_literal_expr ellipsis_literal_expr
    Attribute(ExprAttribute) is_attribute_expr as_attribute_expr attribute_expr
    Subscript(ExprSubscript) is_subscript_expr as_subscript_expr subscript_expr
    Starred(ExprStarred) is_starred_expr as_starred_expr starred_expr
    Name(ExprName) is_name_expr as_name_expr name_expr
    List(ExprList) is_list_expr as_list_expr list_expr
    Tuple(ExprTuple) is_tuple_expr as_tuple_expr tuple_expr
    Slice(ExprSlice) is_slice_expr as_slice_expr slice_expr
} }

impl Expr {
    pub const fn is_literal_expr(&self) -> bool {
        matches!(
            self,
            Expr::StringLiteral(_)
                | Expr::BytesLiteral(_)
                | Expr::NumberLiteral(_)
                | Expr::BooleanLiteral(_)
                | Expr::NoneLiteral(_)
                | Expr::EllipsisLiteral(_)
        )
    }
}

nodes! {
    ModModule { body: Vec<Stmt> }
    ModExpression { body: Box<Expr> }
    StmtFunctionDef {
        is_async: bool,
        decorator_list: Vec<Decorator>,
        name: Identifier,
        parameters: Box<Parameters>,
        returns: Option<Box<Expr>>,
        body: Vec<Stmt>,
    }
    StmtClassDef {
        decorator_list: Vec<Decorator>,
        name: Identifier,
        arguments: Option<Box<Arguments>>,
        body: Vec<Stmt>,
    }
    StmtReturn { value: Option<Box<Expr>> }
    StmtDelete { targets: Vec<Expr> }
    StmtTypeAlias { name: Box<Expr>, value: Box<Expr> }
    StmtAssign { targets: Vec<Expr>, value: Box<Expr> }
    StmtAugAssign { target: Box<Expr>, op: Operator, value: Box<Expr> }
    StmtAnnAssign { target: Box<Expr>, annotation: Box<Expr>, value: Option<Box<Expr>>, simple: bool }
    StmtFor { is_async: bool, target: Box<Expr>, iter: Box<Expr>, body: Vec<Stmt>, orelse: Vec<Stmt> }
    StmtWhile { test: Box<Expr>, body: Vec<Stmt>, orelse: Vec<Stmt> }
    StmtIf { test: Box<Expr>, body: Vec<Stmt>, elif_else_clauses: Vec<ElifElseClause> }
    ElifElseClause { test: Option<Expr>, body: Vec<Stmt> }
    StmtWith { is_async: bool, items: Vec<WithItem>, body: Vec<Stmt> }
    WithItem { context_expr: Expr, optional_vars: Option<Box<Expr>> }
    StmtMatch { subject: Box<Expr>, cases: Vec<MatchCase> }
    MatchCase { guard: Option<Box<Expr>>, body: Vec<Stmt> }
    StmtRaise { exc: Option<Box<Expr>>, cause: Option<Box<Expr>> }
    StmtTry {
        body: Vec<Stmt>,
        handlers: Vec<ExceptHandler>,
        orelse: Vec<Stmt>,
        finalbody: Vec<Stmt>,
        is_star: bool,
    }
    ExceptHandlerExceptHandler { type_: Option<Box<Expr>>, name: Option<Identifier>, body: Vec<Stmt> }
    StmtAssert { test: Box<Expr>, msg: Option<Box<Expr>> }
    StmtImport { names: Vec<Alias> }
    StmtImportFrom { module: Option<Identifier>, names: Vec<Alias>, level: u32 }
    StmtGlobal { names: Vec<Identifier> }
    StmtNonlocal { names: Vec<Identifier> }
    StmtExpr { value: Box<Expr> }
    StmtPass {}
    StmtBreak {}
    StmtContinue {}
    Alias { name: Identifier, asname: Option<Identifier> }
    Decorator { expression: Expr }
    Arguments { args: Box<[Expr]>, keywords: Box<[Keyword]> }
    Keyword { arg: Option<Identifier>, value: Expr }
    Parameters {
        posonlyargs: Vec<ParameterWithDefault>,
        args: Vec<ParameterWithDefault>,
        vararg: Option<Box<Parameter>>,
        kwonlyargs: Vec<ParameterWithDefault>,
        kwarg: Option<Box<Parameter>>,
    }
    Parameter { name: Identifier, annotation: Option<Box<Expr>> }
    ParameterWithDefault { parameter: Parameter, default: Option<Box<Expr>> }
    ExprBoolOp { op: BoolOp, values: Vec<Expr> }
    ExprNamed { target: Box<Expr>, value: Box<Expr> }
    ExprBinOp { left: Box<Expr>, op: Operator, right: Box<Expr> }
    ExprUnaryOp { op: UnaryOp, operand: Box<Expr> }
    ExprLambda { parameters: Option<Box<Parameters>>, body: Box<Expr> }
    ExprIf { test: Box<Expr>, body: Box<Expr>, orelse: Box<Expr> }
    ExprDict { items: Vec<DictItem> }
    ExprSet { elts: Vec<Expr> }
    ExprListComp { elt: Box<Expr>, generators: Vec<Comprehension> }
    ExprSetComp { elt: Box<Expr>, generators: Vec<Comprehension> }
    ExprDictComp { key: Box<Expr>, value: Box<Expr>, generators: Vec<Comprehension> }
    ExprGenerator { elt: Box<Expr>, generators: Vec<Comprehension>, parenthesized: bool }
    Comprehension { target: Expr, iter: Expr, ifs: Vec<Expr>, is_async: bool }
    ExprAwait { value: Box<Expr> }
    ExprYield { value: Option<Box<Expr>> }
    ExprYieldFrom { value: Box<Expr> }
    ExprCompare { left: Box<Expr>, ops: Box<[CmpOp]>, comparators: Box<[Expr]> }
    ExprCall { func: Box<Expr>, arguments: Arguments }
    ExprFString {}
    ExprStringLiteral { value: StringLiteralValue }
    ExprBytesLiteral { value: BytesLiteralValue }
    ExprNumberLiteral { value: Number }
    ExprBooleanLiteral { value: bool }
    ExprNoneLiteral {}
    ExprEllipsisLiteral {}
    ExprAttribute { value: Box<Expr>, attr: Identifier, ctx: ExprContext }
    ExprSubscript { value: Box<Expr>, slice: Box<Expr>, ctx: ExprContext }
    ExprStarred { value: Box<Expr>, ctx: ExprContext }
    ExprName { id: Name, ctx: ExprContext }
    ExprList { elts: Vec<Expr>, ctx: ExprContext }
    ExprTuple { elts: Vec<Expr>, ctx: ExprContext, parenthesized: bool }
    ExprSlice { lower: Option<Box<Expr>>, upper: Option<Box<Expr>>, step: Option<Box<Expr>> }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ExceptHandler {
    ExceptHandler(ExceptHandlerExceptHandler),
}

#[derive(Clone, Debug, PartialEq)]
pub struct DictItem {
    pub key: Option<Expr>,
    pub value: Expr,
}

impl ExprName {
    pub fn id(&self) -> &Name {
        &self.id
    }
}

macro_rules! sequence {
    ($($name:ident)*) => { $(
        impl $name {
            pub fn iter(&self) -> std::slice::Iter<'_, Expr> {
                self.elts.iter()
            }
            pub fn len(&self) -> usize {
                self.elts.len()
            }
            pub fn is_empty(&self) -> bool {
                self.elts.is_empty()
            }
        }
        impl<'a> IntoIterator for &'a $name {
            type IntoIter = std::slice::Iter<'a, Expr>;
            type Item = &'a Expr;
            fn into_iter(self) -> Self::IntoIter {
                self.elts.iter()
            }
        }
    )* };
}
sequence!(ExprList ExprTuple ExprSet);

impl Deref for ExprTuple {
    type Target = [Expr];
    fn deref(&self) -> &[Expr] {
        &self.elts
    }
}

impl ExprDict {
    pub fn iter(&self) -> std::slice::Iter<'_, DictItem> {
        self.items.iter()
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
}

impl Arguments {
    pub fn len(&self) -> usize {
        self.args.len() + self.keywords.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn find_keyword(&self, name: &str) -> Option<&Keyword> {
        self.keywords.iter().find(|k| k.arg.as_ref().is_some_and(|a| a.as_str() == name))
    }
    pub fn find_positional(&self, position: usize) -> Option<&Expr> {
        self.args.iter().take_while(|e| !e.is_starred_expr()).nth(position)
    }
    pub fn find_argument_value(&self, name: &str, position: usize) -> Option<&Expr> {
        self.find_keyword(name).map(|k| &k.value).or_else(|| self.find_positional(position))
    }
}

impl StmtClassDef {
    pub fn bases(&self) -> &[Expr] {
        match &self.arguments {
            Some(arguments) => &arguments.args,
            None => &[],
        }
    }
    pub fn keywords(&self) -> &[Keyword] {
        match &self.arguments {
            Some(arguments) => &arguments.keywords,
            None => &[],
        }
    }
}

impl Parameters {
    pub fn len(&self) -> usize {
        self.posonlyargs.len()
            + self.args.len()
            + usize::from(self.vararg.is_some())
            + self.kwonlyargs.len()
            + usize::from(self.kwarg.is_some())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

impl ParameterWithDefault {
    pub fn name(&self) -> &Identifier {
        &self.parameter.name
    }
    pub fn default(&self) -> Option<&Expr> {
        self.default.as_deref()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct StringLiteralValue(pub Box<str>);

impl StringLiteralValue {
    pub fn to_str(&self) -> &str {
        &self.0
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn chars(&self) -> std::str::Chars<'_> {
        self.0.chars()
    }
}
impl fmt::Display for StringLiteralValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl PartialEq<str> for StringLiteralValue {
    fn eq(&self, other: &str) -> bool {
        &*self.0 == other
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct BytesLiteralValue(pub Vec<u8>);

impl BytesLiteralValue {
    pub fn bytes(&self) -> impl Iterator<Item = u8> + '_ {
        self.0.iter().copied()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Number {
    Int(Int),
    Float(f64),
    Complex { real: f64, imag: f64 },
}

impl Number {
    pub const fn is_int(&self) -> bool {
        matches!(self, Self::Int(_))
    }
    pub fn as_int(&self) -> Option<&Int> {
        match self {
            Self::Int(i) => Some(i),
            _ => None,
        }
    }
}

/// A non-negative integer literal: up to `u64::MAX` as a number, beyond that as its digits.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Int(pub Box<str>);

impl Int {
    pub const ZERO_TEXT: &'static str = "0";
    fn small(&self) -> Option<u64> {
        self.0.parse().ok()
    }
    pub fn as_u8(&self) -> Option<u8> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_u16(&self) -> Option<u16> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_u32(&self) -> Option<u32> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_u64(&self) -> Option<u64> {
        self.small()
    }
    pub fn as_usize(&self) -> Option<usize> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_i8(&self) -> Option<i8> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_i16(&self) -> Option<i16> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_i32(&self) -> Option<i32> {
        self.small().and_then(|v| v.try_into().ok())
    }
    pub fn as_i64(&self) -> Option<i64> {
        self.small().and_then(|v| v.try_into().ok())
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

macro_rules! tags {
    ($($name:ident { $($variant:ident)* })*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum $name {
            $($variant,)*
        }
        impl $name {
            pub fn from_tag(tag: &str) -> Option<Self> {
                match tag {
                    $(stringify!($variant) => Some(Self::$variant),)*
                    _ => None,
                }
            }
        }
    )* };
}

tags! {
    UnaryOp { Invert Not UAdd USub }
    BoolOp { And Or }
    Operator { Add Sub Mult MatMult Div Mod Pow LShift RShift BitOr BitXor BitAnd FloorDiv }
    CmpOp { Eq NotEq Lt LtE Gt GtE Is IsNot In NotIn }
    ExprContext { Load Store Del Invalid }
}
