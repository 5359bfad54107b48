//! Syntax tree of the zserio language (independent of /repo).
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Mul, Div, Mod, Add, Sub, Shl, Shr, Lt, Le, Gt, Ge, Eq, Ne, And, Xor, Or, LAnd, LOr,
}
#[derive(Debug, Clone, PartialEq)]
pub enum UnOp { Plus, Minus, Not, BitNot }

#[derive(Debug, Clone)]
pub enum Expr {
    Int(i128),
    Float(f64),
    Bool(bool),
    Str(String),
    Id(String),
    Index,
    Dot(Box<Expr>, String),
    Call(Box<Expr>),
    At(Box<Expr>, Box<Expr>),
    Isset(Box<Expr>, Box<Expr>),
    Lengthof(Box<Expr>),
    Valueof(Box<Expr>),
    Numbits(Box<Expr>),
    Un(UnOp, Box<Expr>),
    Bin(Op, Box<Expr>, Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
}

#[derive(Debug, Clone)]
pub enum Width { Fixed(u8), Dyn(Rc<Expr>) }

#[derive(Debug, Clone)]
pub struct TypeRef {
    pub name: String,            // may be qualified a.b.C
    pub width: Option<Width>,
    pub targs: Vec<TypeRef>,
    pub args: Vec<Rc<Expr>>,
}

#[derive(Debug, Clone)]
pub enum Arr { None, Auto, Fixed(Rc<Expr>) }

#[derive(Debug, Clone)]
pub struct Field {
    pub name: String,
    pub ty: TypeRef,
    pub arr: Arr,
    pub packed: bool,
    pub implicit: bool,
    pub optional: bool,
    pub align: Option<u64>,
    pub offset: Option<Rc<Expr>>,
    pub init: Option<Rc<Expr>>,
    pub cond: Option<Rc<Expr>>,
    pub constraint: Option<Rc<Expr>>,
}

#[derive(Debug, Clone)]
pub struct Func { pub name: String, pub ret: TypeRef, pub body: Rc<Expr> }

#[derive(Debug, Clone)]
pub struct Param { pub ty: TypeRef, pub name: String }

#[derive(Debug, Clone)]
pub struct Case { pub conds: Vec<Rc<Expr>>, pub field: Option<Field> }

#[derive(Debug, Clone)]
pub enum Body {
    Struct { fields: Vec<Field> },
    Choice { sel: Rc<Expr>, cases: Vec<Case>, default: Option<Option<Field>> },
    Union { fields: Vec<Field> },
}

#[derive(Debug)]
pub struct Compound {
    pub name: String,
    pub pkg: String,
    pub tparams: Vec<String>,
    pub params: Vec<Param>,
    pub body: Body,
    pub funcs: Vec<Func>,
}

#[derive(Debug)]
pub struct EnumDecl { pub name: String, pub pkg: String, pub ty: TypeRef, pub items: Vec<(String, Option<Rc<Expr>>)> }
#[derive(Debug)]
pub struct MaskDecl { pub name: String, pub pkg: String, pub ty: TypeRef, pub items: Vec<(String, Option<Rc<Expr>>)> }
#[derive(Debug)]
pub struct ConstDecl { pub name: String, pub pkg: String, pub ty: TypeRef, pub value: Rc<Expr> }
#[derive(Debug)]
pub struct SubtypeDecl { pub name: String, pub pkg: String, pub ty: TypeRef }
#[derive(Debug)]
pub struct InstDecl { pub name: String, pub pkg: String, pub ty: TypeRef }

#[derive(Debug, Clone)]
pub enum Decl {
    Comp(Rc<Compound>),
    Enum(Rc<EnumDecl>),
    Mask(Rc<MaskDecl>),
    Const(Rc<ConstDecl>),
    Sub(Rc<SubtypeDecl>),
    Inst(Rc<InstDecl>),
}
impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::Comp(d) => &d.name, Decl::Enum(d) => &d.name, Decl::Mask(d) => &d.name,
            Decl::Const(d) => &d.name, Decl::Sub(d) => &d.name, Decl::Inst(d) => &d.name,
        }
    }
}

#[derive(Debug)]
pub struct Package {
    pub name: String,
    pub imports: Vec<(String, Option<String>)>,
    pub decls: Vec<Decl>,
}
