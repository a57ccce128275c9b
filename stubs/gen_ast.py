"""Generates ruff_python_ast/src/lib.rs: the node types of ruff's Python AST as plain data (a signature stub)."""
NODES = {
 # Stmt
 'StmtFunctionDef': 'is_async:bool decorator_list:Vec<Decorator> name:Identifier type_params:Option<Box<TypeParams>> parameters:Box<Parameters> returns:Option<Box<Expr>> body:Vec<Stmt>',
 'StmtClassDef': 'decorator_list:Vec<Decorator> name:Identifier type_params:Option<Box<TypeParams>> arguments:Option<Box<Arguments>> body:Vec<Stmt>',
 'StmtReturn': 'value:Option<Box<Expr>>', 'StmtDelete': 'targets:Vec<Expr>',
 'StmtTypeAlias': 'name:Box<Expr> type_params:Option<Box<TypeParams>> value:Box<Expr>',
 'StmtAssign': 'targets:Vec<Expr> value:Box<Expr>',
 'StmtAugAssign': 'target:Box<Expr> op:Operator value:Box<Expr>',
 'StmtAnnAssign': 'target:Box<Expr> annotation:Box<Expr> value:Option<Box<Expr>> simple:bool',
 'StmtFor': 'is_async:bool target:Box<Expr> iter:Box<Expr> body:Vec<Stmt> orelse:Vec<Stmt>',
 'StmtWhile': 'test:Box<Expr> body:Vec<Stmt> orelse:Vec<Stmt>',
 'StmtIf': 'test:Box<Expr> body:Vec<Stmt> elif_else_clauses:Vec<ElifElseClause>',
 'StmtWith': 'is_async:bool items:Vec<WithItem> body:Vec<Stmt>',
 'StmtMatch': 'subject:Box<Expr> cases:Vec<MatchCase>',
 'StmtRaise': 'exc:Option<Box<Expr>> cause:Option<Box<Expr>>',
 'StmtTry': 'body:Vec<Stmt> handlers:Vec<ExceptHandler> orelse:Vec<Stmt> finalbody:Vec<Stmt> is_star:bool',
 'StmtAssert': 'test:Box<Expr> msg:Option<Box<Expr>>',
 'StmtImport': 'names:Vec<Alias>',
 'StmtImportFrom': 'module:Option<Identifier> names:Vec<Alias> level:u32',
 'StmtGlobal': 'names:Vec<Identifier>', 'StmtNonlocal': 'names:Vec<Identifier>',
 'StmtExpr': 'value:Box<Expr>', 'StmtPass': '', 'StmtBreak': '', 'StmtContinue': '',
 'StmtIpyEscapeCommand': 'value:Box<str>',
 # Expr
 'ExprBoolOp': 'op:BoolOp values:Vec<Expr>', 'ExprNamed': 'target:Box<Expr> value:Box<Expr>',
 'ExprBinOp': 'left:Box<Expr> op:Operator right:Box<Expr>', 'ExprUnaryOp': 'op:UnaryOp operand:Box<Expr>',
 'ExprLambda': 'parameters:Option<Box<Parameters>> body:Box<Expr>',
 'ExprIf': 'test:Box<Expr> body:Box<Expr> orelse:Box<Expr>',
 'ExprDict': 'items:Vec<DictItem>', 'ExprSet': 'elts:Vec<Expr>',
 'ExprListComp': 'elt:Box<Expr> generators:Vec<Comprehension>',
 'ExprSetComp': 'elt:Box<Expr> generators:Vec<Comprehension>',
 'ExprDictComp': 'key:Box<Expr> value:Box<Expr> generators:Vec<Comprehension>',
 'ExprGenerator': 'elt:Box<Expr> generators:Vec<Comprehension> parenthesized:bool',
 'ExprAwait': 'value:Box<Expr>', 'ExprYield': 'value:Option<Box<Expr>>', 'ExprYieldFrom': 'value:Box<Expr>',
 'ExprCompare': 'left:Box<Expr> ops:Box<[CmpOp]> comparators:Box<[Expr]>',
 'ExprCall': 'func:Box<Expr> arguments:Arguments',
 'ExprFString': 'value:FStringValue', 'ExprTString': 'value:FStringValue',
 'ExprStringLiteral': 'value:StringLiteralValue', 'ExprBytesLiteral': 'value:BytesLiteralValue',
 'ExprNumberLiteral': 'value:Number', 'ExprBooleanLiteral': 'value:bool', 'ExprNoneLiteral': '',
 'ExprEllipsisLiteral': '', 'ExprAttribute': 'value:Box<Expr> attr:Identifier ctx:ExprContext',
 'ExprSubscript': 'value:Box<Expr> slice:Box<Expr> ctx:ExprContext',
 'ExprStarred': 'value:Box<Expr> ctx:ExprContext', 'ExprName': 'id:Name ctx:ExprContext',
 'ExprList': 'elts:Vec<Expr> ctx:ExprContext', 'ExprTuple': 'elts:Vec<Expr> ctx:ExprContext parenthesized:bool',
 'ExprSlice': 'lower:Option<Box<Expr>> upper:Option<Box<Expr>> step:Option<Box<Expr>>',
 'ExprIpyEscapeCommand': 'value:Box<str>',
 # other
 'ModModule': 'body:Vec<Stmt>', 'ModExpression': 'body:Box<Expr>',
 'Decorator': 'expression:Expr', 'Keyword': 'arg:Option<Identifier> value:Expr',
 'Arguments': 'args:Box<[Expr]> keywords:Box<[Keyword]>',
 'Alias': 'name:Identifier asname:Option<Identifier>',
 'ElifElseClause': 'test:Option<Expr> body:Vec<Stmt>',
 'WithItem': 'context_expr:Expr optional_vars:Option<Box<Expr>>',
 'MatchCase': 'pattern:Pattern guard:Option<Box<Expr>> body:Vec<Stmt>', 'Pattern': '',
 'ExceptHandlerExceptHandler': 'type_:Option<Box<Expr>> name:Option<Identifier> body:Vec<Stmt>',
 'Comprehension': 'target:Expr iter:Expr ifs:Vec<Expr> is_async:bool',
 'Parameter': 'name:Identifier annotation:Option<Box<Expr>>',
 'ParameterWithDefault': 'parameter:Parameter default:Option<Box<Expr>>',
 'Parameters': 'posonlyargs:Vec<ParameterWithDefault> args:Vec<ParameterWithDefault> vararg:Option<Box<Parameter>> kwonlyargs:Vec<ParameterWithDefault> kwarg:Option<Box<Parameter>>',
 'TypeParams': '', 'DictItem': 'key:Option<Expr> value:Expr',
}
NORANGE = {'DictItem'}
out = ['//! Signature stub of `ruff_python_ast` generated by gen_ast.py: data types only, never executed.',
 '#![allow(clippy::all)]', 'use ruff_text_size::{Ranged, TextRange};', 'use std::fmt; use std::ops::Deref;', 'pub mod name { pub use super::Name; }']
def cam(n): return n
for n, f in NODES.items():
    fs = [x.split(':',1) for x in f.split()] if f else []
    if n not in NORANGE: fs.append(['range','TextRange'])
    out.append('#[derive(Clone, Debug, PartialEq)] pub struct %s { %s }' % (n, ' '.join('pub %s: %s,' % (a,b) for a,b in fs)))
    if n in NORANGE:
        out.append('impl Ranged for %s { fn range(&self) -> TextRange { self.value.range() } }' % n)
    else:
        out.append('impl Ranged for %s { fn range(&self) -> TextRange { self.range } }' % n)
def snake(s):
    o=''
    for i,c in enumerate(s):
        if c.isupper() and i: o+='_'
        o+=c.lower()
    return o
def enum(name, prefix, variants):
    out.append('#[derive(Clone, Debug, PartialEq)] pub enum %s { %s }' % (name, ' '.join('%s(%s),' % (v, prefix+v) for v in variants)))
    out.append('impl Ranged for %s { fn range(&self) -> TextRange { match self { %s } } }' % (name, ' '.join('Self::%s(n) => n.range(),' % v for v in variants)))
    m=[]
    for v in variants:
        t=prefix+v; s=snake(v)+'_'+snake(name) if name in('Stmt','Expr') else snake(v)
        m.append('pub const fn is_%s(&self) -> bool { matches!(self, Self::%s(_)) }' % (s,v))
        m.append('pub fn as_%s(&self) -> Option<&%s> { if let Self::%s(n) = self { Some(n) } else { None } }' % (s,t,v))
        m.append('pub fn %s(self) -> Option<%s> { if let Self::%s(n) = self { Some(n) } else { None } }' % (s,t,v))
        m.append('pub fn expect_%s(self) -> %s { if let Self::%s(n) = self { n } else { panic!() } }' % (s,t,v))
        out.append('impl From<%s> for %s { fn from(n: %s) -> Self { Self::%s(n) } }' % (t,name,t,v))
    out.append('impl %s { %s }' % (name, ' '.join(m)))
enum('Stmt','Stmt',[n[4:] for n in NODES if n.startswith('Stmt')])
enum('Expr','Expr',[n[4:] for n in NODES if n.startswith('Expr')])
enum('Mod','Mod',['Module','Expression'])
enum('ExceptHandler','ExceptHandler',['ExceptHandler'])
out.append('''
pub type Suite = Vec<Stmt>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct Name(Box<str>);
impl Name { pub fn new(s: impl AsRef<str>) -> Self { Self(s.as_ref().into()) } pub fn new_static(s: &'static str) -> Self { Self(s.into()) } pub fn as_str(&self) -> &str { &self.0 } pub fn empty() -> Self { Self::default() } }
impl Deref for Name { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for Name { fn as_ref(&self) -> &str { &self.0 } }
impl std::borrow::Borrow<str> for Name { fn borrow(&self) -> &str { &self.0 } }
impl fmt::Display for Name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl PartialEq<str> for Name { fn eq(&self, o: &str) -> bool { &*self.0 == o } }
impl PartialEq<&str> for Name { fn eq(&self, o: &&str) -> bool { &*self.0 == *o } }
impl PartialEq<String> for Name { fn eq(&self, o: &String) -> bool { &*self.0 == o.as_str() } }
impl From<String> for Name { fn from(s: String) -> Self { Self(s.into()) } }
impl From<&str> for Name { fn from(s: &str) -> Self { Self(s.into()) } }
impl From<Name> for String { fn from(s: Name) -> String { s.0.into() } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Identifier { pub id: Name, pub range: TextRange }
impl Identifier { pub fn new(id: impl Into<Name>, range: TextRange) -> Self { Self { id: id.into(), range } } pub fn id(&self) -> &Name { &self.id } pub fn is_valid(&self) -> bool { !self.id.is_empty() } pub fn as_str(&self) -> &str { self.id.as_str() } }
impl Ranged for Identifier { fn range(&self) -> TextRange { self.range } }
impl Deref for Identifier { type Target = str; fn deref(&self) -> &str { self.id.as_str() } }
impl AsRef<str> for Identifier { fn as_ref(&self) -> &str { self.id.as_str() } }
impl fmt::Display for Identifier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.id.as_str()) } }
impl PartialEq<str> for Identifier { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl PartialEq<&str> for Identifier { fn eq(&self, o: &&str) -> bool { self.as_str() == *o } }
impl PartialEq<String> for Identifier { fn eq(&self, o: &String) -> bool { self.as_str() == o } }
impl From<Identifier> for Name { fn from(i: Identifier) -> Name { i.id } }
#[derive(Clone, Debug, PartialEq)] pub enum Number { Int(Int), Float(f64), Complex { real: f64, imag: f64 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct Int(Box<str>);
impl Int { pub fn as_u8(&self) -> Option<u8> { self.0.parse().ok() } pub fn as_u16(&self) -> Option<u16> { self.0.parse().ok() } pub fn as_u32(&self) -> Option<u32> { self.0.parse().ok() } pub fn as_u64(&self) -> Option<u64> { self.0.parse().ok() } pub fn as_usize(&self) -> Option<usize> { self.0.parse().ok() } pub fn as_i8(&self) -> Option<i8> { self.0.parse().ok() } pub fn as_i16(&self) -> Option<i16> { self.0.parse().ok() } pub fn as_i32(&self) -> Option<i32> { self.0.parse().ok() } pub fn as_i64(&self) -> Option<i64> { self.0.parse().ok() } }
impl fmt::Display for Int { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, PartialEq)] pub struct StringLiteral { pub value: Box<str>, pub range: TextRange }
impl StringLiteral { pub fn as_str(&self) -> &str { &self.value } }
#[derive(Clone, Debug, PartialEq)] pub struct StringLiteralValue { parts: Vec<StringLiteral>, s: String }
impl StringLiteralValue { pub fn to_str(&self) -> &str { &self.s } pub fn is_empty(&self) -> bool { self.s.is_empty() } pub fn len(&self) -> usize { self.s.len() } pub fn is_implicit_concatenated(&self) -> bool { self.parts.len() > 1 } pub fn iter(&self) -> std::slice::Iter<'_, StringLiteral> { self.parts.iter() } pub fn chars(&self) -> impl Iterator<Item = char> + '_ { self.s.chars() } }
impl fmt::Display for StringLiteralValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.s) } }
impl PartialEq<str> for StringLiteralValue { fn eq(&self, o: &str) -> bool { self.s == o } }
impl PartialEq<&str> for StringLiteralValue { fn eq(&self, o: &&str) -> bool { self.s == *o } }
#[derive(Clone, Debug, PartialEq)] pub struct BytesLiteralValue { parts: Vec<u8> }
impl BytesLiteralValue { pub fn bytes(&self) -> impl Iterator<Item = u8> + '_ { self.parts.iter().copied() } pub fn is_empty(&self) -> bool { self.parts.is_empty() } pub fn len(&self) -> usize { self.parts.len() } }
#[derive(Clone, Debug, PartialEq)] pub struct FStringValue { parts: Vec<StringLiteral> }
impl FStringValue { pub fn iter(&self) -> std::slice::Iter<'_, StringLiteral> { self.parts.iter() } }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum BoolOp { And, Or }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum Operator { Add, Sub, Mult, MatMult, Div, Mod, Pow, LShift, RShift, BitOr, BitXor, BitAnd, FloorDiv }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum UnaryOp { Invert, Not, UAdd, USub }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum CmpOp { Eq, NotEq, Lt, LtE, Gt, GtE, Is, IsNot, In, NotIn }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub enum ExprContext { Load, Store, Del, Invalid }
impl Expr { pub const fn is_literal_expr(&self) -> bool { matches!(self, Self::StringLiteral(_) | Self::BytesLiteral(_) | Self::NumberLiteral(_) | Self::BooleanLiteral(_) | Self::NoneLiteral(_) | Self::EllipsisLiteral(_)) } }
impl Arguments { pub fn find_keyword(&self, n: &str) -> Option<&Keyword> { self.keywords.iter().find(|k| k.arg.as_ref().is_some_and(|a| a.as_str() == n)) } pub fn find_positional(&self, i: usize) -> Option<&Expr> { self.args.get(i) } pub fn find_argument_value(&self, n: &str, i: usize) -> Option<&Expr> { self.find_keyword(n).map(|k| &k.value).or_else(|| self.find_positional(i)) } pub fn len(&self) -> usize { self.args.len() + self.keywords.len() } pub fn is_empty(&self) -> bool { self.len() == 0 } }
impl StmtClassDef { pub fn bases(&self) -> &[Expr] { match &self.arguments { Some(a) => &a.args, None => &[] } } pub fn keywords(&self) -> &[Keyword] { match &self.arguments { Some(a) => &a.keywords, None => &[] } } }
impl Deref for TypeParams { type Target = TextRange; fn deref(&self) -> &TextRange { &self.range } }
macro_rules! seq { ($($t:ident),*) => { $( impl $t { pub fn len(&self) -> usize { self.elts.len() } pub fn is_empty(&self) -> bool { self.elts.is_empty() } pub fn iter(&self) -> std::slice::Iter<'_, Expr> { self.elts.iter() } } impl<'a> IntoIterator for &'a $t { type Item = &'a Expr; type IntoIter = std::slice::Iter<'a, Expr>; fn into_iter(self) -> Self::IntoIter { self.elts.iter() } } )* } }
seq!(ExprList, ExprTuple, ExprSet);
impl ExprDict { pub fn len(&self) -> usize { self.items.len() } pub fn is_empty(&self) -> bool { self.items.is_empty() } pub fn iter(&self) -> std::slice::Iter<'_, DictItem> { self.items.iter() } }
''')
src='\n'.join(out)+'\n'
src=src.replace('pub type_:','pub r#type:')
open('ruff_python_ast/src/lib.rs','w').write(src)
