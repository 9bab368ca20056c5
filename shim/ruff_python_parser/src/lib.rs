//! Stand-in for ruff_python_parser: CPython's own parser, run in a helper process, gives the tree.
use ruff_python_ast::name::Name;
use ruff_python_ast::*;
use ruff_text_size::{Ranged, TextRange, TextSize};
use serde::de::Deserialize;
use serde_json::Value;
use std::fmt;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Module,
    Expression,
    ParenthesizedExpression,
    Ipython,
}

#[derive(Debug, Clone)]
pub struct ParseOptions {
    pub mode: Mode,
}

impl From<Mode> for ParseOptions {
    fn from(mode: Mode) -> Self {
        Self { mode }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ParseErrorType {
    OtherError(String),
}

impl fmt::Display for ParseErrorType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let Self::OtherError(message) = self;
        f.write_str(message)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError {
    pub error: ParseErrorType,
    pub location: TextRange,
}

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} at byte range {:?}", self.error, self.location)
    }
}

impl std::error::Error for ParseError {}

impl Ranged for ParseError {
    fn range(&self) -> TextRange {
        self.location
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Parsed<T> {
    syntax: T,
}

impl<T> Parsed<T> {
    pub fn syntax(&self) -> &T {
        &self.syntax
    }
    pub fn into_syntax(self) -> T {
        self.syntax
    }
    pub fn errors(&self) -> &[ParseError] {
        &[]
    }
    pub fn has_valid_syntax(&self) -> bool {
        true
    }
}

impl Parsed<ModModule> {
    pub fn suite(&self) -> &[Stmt] {
        &self.syntax.body
    }
    pub fn into_suite(self) -> Vec<Stmt> {
        self.syntax.body
    }
}

pub fn parse(source: &str, options: ParseOptions) -> Result<Parsed<Mod>, ParseError> {
    assert_eq!(options.mode, Mode::Module, "this stand-in parses modules only");
    parse_module(source).map(|p| Parsed { syntax: Mod::Module(p.syntax) })
}

pub fn parse_module(source: &str) -> Result<Parsed<ModModule>, ParseError> {
    let answer = ask(source);
    if let Some(message) = answer.get("error") {
        return Err(ParseError {
            error: ParseErrorType::OtherError(message.as_str().unwrap_or("?").to_string()),
            location: TextRange::default(),
        });
    }
    let body = stmts(&answer["ok"]);
    let end = TextSize::try_from(source.len()).unwrap_or_default();
    Ok(Parsed { syntax: ModModule { range: TextRange::new(TextSize::default(), end), body } })
}

struct Helper {
    pid: u32,
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

static HELPER: Mutex<Option<Helper>> = Mutex::new(None);
const SCRIPT: &str = include_str!("parse.py");

fn start() -> Helper {
    let python = std::env::var("RTEST_SHIM_PYTHON").unwrap_or_else(|_| "/opt/vp/venv/bin/python".to_string());
    let mut child = Command::new(python)
        .args(["-I", "-S", "-c", SCRIPT])
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the parser's helper process does not start");
    Helper {
        pid: std::process::id(),
        stdin: child.stdin.take().expect("stdin"),
        stdout: BufReader::new(child.stdout.take().expect("stdout")),
        _child: child,
    }
}

fn ask(source: &str) -> Value {
    let mut guard = HELPER.lock().unwrap_or_else(|e| e.into_inner());
    if guard.as_ref().is_none_or(|h| h.pid != std::process::id()) {
        *guard = Some(start());
    }
    let helper = guard.as_mut().expect("started");
    let mut line = Vec::new();
    let sent = writeln!(helper.stdin, "{}", source.len())
        .and_then(|()| helper.stdin.write_all(source.as_bytes()))
        .and_then(|()| helper.stdin.flush())
        .and_then(|()| helper.stdout.by_ref().read_until(b'\n', &mut line));
    if sent.is_err() || line.is_empty() {
        *guard = None;
        return serde_json::json!({"error": "the parser gave up"});
    }
    let mut reader = serde_json::Deserializer::from_slice(&line);
    reader.disable_recursion_limit();
    Value::deserialize(&mut reader).expect("the parser's answer")
}

fn kind(v: &Value) -> &str {
    v[0].as_str().expect("a node")
}

fn range(v: &Value) -> TextRange {
    let at = |i: usize| TextSize::new(v[i].as_u64().unwrap_or(0) as u32);
    TextRange::new(at(1), at(2))
}

fn list<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().map(|a| a.iter().map(f).collect()).unwrap_or_default()
}

fn stmts(v: &Value) -> Vec<Stmt> {
    list(v, stmt)
}

fn exprs(v: &Value) -> Vec<Expr> {
    list(v, expr)
}

fn opt(v: &Value) -> Option<Box<Expr>> {
    (!v.is_null()).then(|| boxed(v))
}

fn boxed(v: &Value) -> Box<Expr> {
    Box::new(expr(v))
}

fn ident(v: &Value, range: TextRange) -> Identifier {
    Identifier::new(v.as_str().expect("a name"), range)
}

fn opt_ident(v: &Value, range: TextRange) -> Option<Identifier> {
    v.as_str().map(|s| Identifier::new(s, range))
}

fn ctx(v: &Value) -> ExprContext {
    v.as_str().and_then(ExprContext::from_tag).unwrap_or(ExprContext::Load)
}

fn decorators(v: &Value) -> Vec<Decorator> {
    list(v, |d| Decorator { range: range(d), expression: expr(d) })
}

fn keyword(v: &Value) -> Keyword {
    let f = &v[3];
    Keyword { range: range(v), arg: opt_ident(&f["arg"], range(v)), value: expr(&f["value"]) }
}

fn arguments(args: &Value, keywords: &Value, range: TextRange) -> Arguments {
    Arguments { range, args: exprs(args).into(), keywords: list(keywords, keyword).into() }
}

fn alias(v: &Value) -> Alias {
    let f = &v[3];
    Alias { range: range(v), name: ident(&f["name"], range(v)), asname: opt_ident(&f["asname"], range(v)) }
}

fn parameter(v: &Value) -> Parameter {
    let f = &v[3];
    Parameter { range: range(v), name: ident(&f["arg"], range(v)), annotation: opt(&f["annotation"]) }
}

fn parameters(v: &Value) -> Parameters {
    let f = &v[3];
    let with = |v: &Value| ParameterWithDefault { range: range(v), parameter: parameter(v), default: None };
    let mut posonlyargs = list(&f["posonlyargs"], with);
    let mut args = list(&f["args"], with);
    let mut kwonlyargs = list(&f["kwonlyargs"], with);
    let mut defaults = exprs(&f["defaults"]);
    for p in args.iter_mut().rev().chain(posonlyargs.iter_mut().rev()) {
        p.default = defaults.pop().map(Box::new);
    }
    for (p, d) in kwonlyargs.iter_mut().zip(list(&f["kw_defaults"], opt)) {
        p.default = d;
    }
    let single = |v: &Value| (!v.is_null()).then(|| Box::new(parameter(v)));
    Parameters {
        range: range(v),
        posonlyargs,
        args,
        vararg: single(&f["vararg"]),
        kwonlyargs,
        kwarg: single(&f["kwarg"]),
    }
}

/// `elif` chains are nested in CPython's tree and flat in ruff's.
fn clauses(orelse: &Value) -> Vec<ElifElseClause> {
    let mut found = Vec::new();
    let mut rest = orelse;
    while let Some(body) = rest.as_array().filter(|b| !b.is_empty()) {
        if body.len() == 1 && kind(&body[0]) == "If" {
            let f = &body[0][3];
            found.push(ElifElseClause {
                range: range(&body[0]),
                test: Some(expr(&f["test"])),
                body: stmts(&f["body"]),
            });
            rest = &f["orelse"];
        } else {
            found.push(ElifElseClause { range: range(&body[0]), test: None, body: stmts(rest) });
            break;
        }
    }
    found
}

/// From the first decorator, as ruff counts it, to the end.
fn decorated(v: &Value, decorators: &[Decorator]) -> TextRange {
    let own = range(v);
    match decorators.first() {
        // the `@` is not part of the expression
        Some(d) => TextRange::new(TextSize::new(d.range.start().to_u32().saturating_sub(1)), own.end()),
        None => own,
    }
}

fn stmt(v: &Value) -> Stmt {
    let f = &v[3];
    let range = range(v);
    let flag = |name: &str| kind(v) == name;
    match kind(v) {
        "FunctionDef" | "AsyncFunctionDef" => {
            let decorator_list = decorators(&f["decorator_list"]);
            Stmt::FunctionDef(StmtFunctionDef {
                range: decorated(v, &decorator_list),
                is_async: flag("AsyncFunctionDef"),
                decorator_list,
                name: ident(&f["name"], range),
                parameters: Box::new(parameters(&f["args"])),
                returns: opt(&f["returns"]),
                body: stmts(&f["body"]),
            })
        }
        "ClassDef" => {
            let decorator_list = decorators(&f["decorator_list"]);
            let given = arguments(&f["bases"], &f["keywords"], range);
            Stmt::ClassDef(StmtClassDef {
                range: decorated(v, &decorator_list),
                decorator_list,
                name: ident(&f["name"], range),
                arguments: (!given.is_empty()).then(|| Box::new(given)),
                body: stmts(&f["body"]),
            })
        }
        "Return" => Stmt::Return(StmtReturn { range, value: opt(&f["value"]) }),
        "Delete" => Stmt::Delete(StmtDelete { range, targets: exprs(&f["targets"]) }),
        "TypeAlias" => {
            Stmt::TypeAlias(StmtTypeAlias { range, name: boxed(&f["name"]), value: boxed(&f["value"]) })
        }
        "Assign" => Stmt::Assign(StmtAssign { range, targets: exprs(&f["targets"]), value: boxed(&f["value"]) }),
        "AugAssign" => Stmt::AugAssign(StmtAugAssign {
            range,
            target: boxed(&f["target"]),
            op: operator(&f["op"]),
            value: boxed(&f["value"]),
        }),
        "AnnAssign" => Stmt::AnnAssign(StmtAnnAssign {
            range,
            target: boxed(&f["target"]),
            annotation: boxed(&f["annotation"]),
            value: opt(&f["value"]),
            simple: f["simple"].as_i64() == Some(1),
        }),
        "For" | "AsyncFor" => Stmt::For(StmtFor {
            range,
            is_async: flag("AsyncFor"),
            target: boxed(&f["target"]),
            iter: boxed(&f["iter"]),
            body: stmts(&f["body"]),
            orelse: stmts(&f["orelse"]),
        }),
        "While" => Stmt::While(StmtWhile {
            range,
            test: boxed(&f["test"]),
            body: stmts(&f["body"]),
            orelse: stmts(&f["orelse"]),
        }),
        "If" => Stmt::If(StmtIf {
            range,
            test: boxed(&f["test"]),
            body: stmts(&f["body"]),
            elif_else_clauses: clauses(&f["orelse"]),
        }),
        "With" | "AsyncWith" => Stmt::With(StmtWith {
            range,
            is_async: flag("AsyncWith"),
            items: list(&f["items"], |i| WithItem {
                range,
                context_expr: expr(&i[3]["context_expr"]),
                optional_vars: opt(&i[3]["optional_vars"]),
            }),
            body: stmts(&f["body"]),
        }),
        "Match" => Stmt::Match(StmtMatch {
            range,
            subject: boxed(&f["subject"]),
            cases: list(&f["cases"], |c| MatchCase {
                range,
                guard: opt(&c[3]["guard"]),
                body: stmts(&c[3]["body"]),
            }),
        }),
        "Raise" => Stmt::Raise(StmtRaise { range, exc: opt(&f["exc"]), cause: opt(&f["cause"]) }),
        "Try" | "TryStar" => Stmt::Try(StmtTry {
            range,
            body: stmts(&f["body"]),
            handlers: list(&f["handlers"], |h| {
                ExceptHandler::ExceptHandler(ExceptHandlerExceptHandler {
                    range,
                    type_: opt(&h[3]["type"]),
                    name: opt_ident(&h[3]["name"], range),
                    body: stmts(&h[3]["body"]),
                })
            }),
            orelse: stmts(&f["orelse"]),
            finalbody: stmts(&f["finalbody"]),
            is_star: flag("TryStar"),
        }),
        "Assert" => Stmt::Assert(StmtAssert { range, test: boxed(&f["test"]), msg: opt(&f["msg"]) }),
        "Import" => Stmt::Import(StmtImport { range, names: list(&f["names"], alias) }),
        "ImportFrom" => Stmt::ImportFrom(StmtImportFrom {
            range,
            module: opt_ident(&f["module"], range),
            names: list(&f["names"], alias),
            level: f["level"].as_u64().unwrap_or(0) as u32,
        }),
        "Global" => Stmt::Global(StmtGlobal { range, names: list(&f["names"], |n| ident(n, range)) }),
        "Nonlocal" => Stmt::Nonlocal(StmtNonlocal { range, names: list(&f["names"], |n| ident(n, range)) }),
        "Expr" => Stmt::Expr(StmtExpr { range, value: boxed(&f["value"]) }),
        "Pass" => Stmt::Pass(StmtPass { range }),
        "Break" => Stmt::Break(StmtBreak { range }),
        "Continue" => Stmt::Continue(StmtContinue { range }),
        other => panic!("statement {other} is unknown to the parser stand-in"),
    }
}

fn operator(v: &Value) -> Operator {
    v.as_str().and_then(Operator::from_tag).expect("an operator")
}

fn generators(v: &Value) -> Vec<Comprehension> {
    list(v, |c| {
        let f = &c[3];
        Comprehension {
            range: range(c),
            target: expr(&f["target"]),
            iter: expr(&f["iter"]),
            ifs: exprs(&f["ifs"]),
            is_async: f["is_async"].as_i64() == Some(1),
        }
    })
}

/// A float written by `float.hex`: exact.
fn float(v: &Value) -> f64 {
    let text = v.as_str().expect("a float");
    if text == "inf" {
        return f64::INFINITY;
    }
    let (mantissa, exponent) = text.trim_start_matches("0x").split_once('p').expect("a hexadecimal float");
    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
    let digits = u64::from_str_radix(&format!("{whole}{fraction}"), 16).expect("digits");
    let exponent: i32 = exponent.parse().expect("an exponent");
    let scale = exponent - 4 * fraction.len() as i32;
    // two exact steps, so that subnormal values do not underflow on the way
    let half = scale / 2;
    digits as f64 * 2f64.powi(half) * 2f64.powi(scale - half)
}

fn expr(v: &Value) -> Expr {
    let f = &v[3];
    let range = range(v);
    match kind(v) {
        "BoolOp" => Expr::BoolOp(ExprBoolOp {
            range,
            op: f["op"].as_str().and_then(BoolOp::from_tag).expect("an operator"),
            values: exprs(&f["values"]),
        }),
        "NamedExpr" => Expr::Named(ExprNamed { range, target: boxed(&f["target"]), value: boxed(&f["value"]) }),
        "BinOp" => Expr::BinOp(ExprBinOp {
            range,
            left: boxed(&f["left"]),
            op: operator(&f["op"]),
            right: boxed(&f["right"]),
        }),
        "UnaryOp" => Expr::UnaryOp(ExprUnaryOp {
            range,
            op: f["op"].as_str().and_then(UnaryOp::from_tag).expect("an operator"),
            operand: boxed(&f["operand"]),
        }),
        "Lambda" => Expr::Lambda(ExprLambda {
            range,
            parameters: Some(Box::new(parameters(&f["args"]))),
            body: boxed(&f["body"]),
        }),
        "IfExp" => Expr::If(ExprIf {
            range,
            test: boxed(&f["test"]),
            body: boxed(&f["body"]),
            orelse: boxed(&f["orelse"]),
        }),
        "Dict" => Expr::Dict(ExprDict {
            range,
            items: list(&f["keys"], |k| opt(k).map(|k| *k))
                .into_iter()
                .zip(exprs(&f["values"]))
                .map(|(key, value)| DictItem { key, value })
                .collect(),
        }),
        "Set" => Expr::Set(ExprSet { range, elts: exprs(&f["elts"]) }),
        "ListComp" => Expr::ListComp(ExprListComp {
            range,
            elt: boxed(&f["elt"]),
            generators: generators(&f["generators"]),
        }),
        "SetComp" => {
            Expr::SetComp(ExprSetComp { range, elt: boxed(&f["elt"]), generators: generators(&f["generators"]) })
        }
        "DictComp" => Expr::DictComp(ExprDictComp {
            range,
            key: boxed(&f["key"]),
            value: boxed(&f["value"]),
            generators: generators(&f["generators"]),
        }),
        "GeneratorExp" => Expr::Generator(ExprGenerator {
            range,
            elt: boxed(&f["elt"]),
            generators: generators(&f["generators"]),
            parenthesized: true,
        }),
        "Await" => Expr::Await(ExprAwait { range, value: boxed(&f["value"]) }),
        "Yield" => Expr::Yield(ExprYield { range, value: opt(&f["value"]) }),
        "YieldFrom" => Expr::YieldFrom(ExprYieldFrom { range, value: boxed(&f["value"]) }),
        "Compare" => Expr::Compare(ExprCompare {
            range,
            left: boxed(&f["left"]),
            ops: list(&f["ops"], |o| o.as_str().and_then(CmpOp::from_tag).expect("an operator")).into(),
            comparators: exprs(&f["comparators"]).into(),
        }),
        "Call" => Expr::Call(ExprCall {
            range,
            func: boxed(&f["func"]),
            arguments: arguments(&f["args"], &f["keywords"], range),
        }),
        "JoinedStr" | "FormattedValue" => Expr::FString(ExprFString { range }),
        "Str" => Expr::StringLiteral(ExprStringLiteral {
            range,
            value: StringLiteralValue(f["value"].as_str().expect("a string").into()),
        }),
        "Bytes" => Expr::BytesLiteral(ExprBytesLiteral {
            range,
            value: BytesLiteralValue(list(&f["value"], |b| b.as_u64().unwrap_or(0) as u8)),
        }),
        "Int" => Expr::NumberLiteral(ExprNumberLiteral {
            range,
            value: Number::Int(Int(f["value"].as_str().expect("digits").into())),
        }),
        "Float" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Float(float(&f["value"])) }),
        "Complex" => Expr::NumberLiteral(ExprNumberLiteral {
            range,
            value: Number::Complex { real: 0.0, imag: float(&f["value"]) },
        }),
        "Bool" => Expr::BooleanLiteral(ExprBooleanLiteral { range, value: f["value"].as_bool().unwrap_or(false) }),
        "None" => Expr::NoneLiteral(ExprNoneLiteral { range }),
        "Ellipsis" => Expr::EllipsisLiteral(ExprEllipsisLiteral { range }),
        "Attribute" => Expr::Attribute(ExprAttribute {
            range,
            value: boxed(&f["value"]),
            attr: ident(&f["attr"], range),
            ctx: ctx(&f["ctx"]),
        }),
        "Subscript" => Expr::Subscript(ExprSubscript {
            range,
            value: boxed(&f["value"]),
            slice: boxed(&f["slice"]),
            ctx: ctx(&f["ctx"]),
        }),
        "Starred" => Expr::Starred(ExprStarred { range, value: boxed(&f["value"]), ctx: ctx(&f["ctx"]) }),
        "Name" => Expr::Name(ExprName {
            range,
            id: Name::new(f["id"].as_str().expect("a name")),
            ctx: ctx(&f["ctx"]),
        }),
        "List" => Expr::List(ExprList { range, elts: exprs(&f["elts"]), ctx: ctx(&f["ctx"]) }),
        "Tuple" => {
            Expr::Tuple(ExprTuple { range, elts: exprs(&f["elts"]), ctx: ctx(&f["ctx"]), parenthesized: true })
        }
        "Slice" => Expr::Slice(ExprSlice {
            range,
            lower: opt(&f["lower"]),
            upper: opt(&f["upper"]),
            step: opt(&f["step"]),
        }),
        other => panic!("expression {other} is unknown to the parser stand-in"),
    }
}
