//! Lexer and recursive-descent parser for the zserio language.
use crate::ast::*;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
enum T { Id(String), Int(i128), Float(f64), Str(String), P(&'static str), Eof }

const PUNCT: &[&str] = &[
    "&&", "||", "<<", "<=", ">=", "==", "!=", "{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", ".", "+", "-",
    "*", "/", "%", "&", "|", "^", "~", "!", "?", "=", "@",
];

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    'l: while i < b.len() {
        let c = b[i];
        if c.is_whitespace() { i += 1; continue; }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' { i += 1; }
            continue;
        }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') { i += 1; }
            i += 2;
            continue;
        }
        if c.is_ascii_alphabetic() || c == '_' || c == '@' && b.get(i + 1).is_some_and(|x| *x == 'd' || *x == 'r') {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1; }
            out.push(T::Id(b[st..i].iter().collect()));
            continue;
        }
        if c.is_ascii_digit() || c == '.' && b.get(i + 1).is_some_and(|d| d.is_ascii_digit()) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '.') { 
                // exponent sign
                if (b[i] == 'e' || b[i] == 'E') && !b[st..i].iter().any(|x| *x == 'x' || *x == 'X') && i + 1 < b.len() && (b[i+1] == '-' || b[i+1] == '+') { i += 1; }
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let l = w.to_ascii_lowercase();
            if let Some(h) = l.strip_prefix("0x") {
                out.push(T::Int(i128::from_str_radix(h, 16).map_err(|e| format!("{w}: {e}"))?));
            } else if l.ends_with('b') && l[..l.len() - 1].chars().all(|c| c == '0' || c == '1') {
                out.push(T::Int(i128::from_str_radix(&l[..l.len() - 1], 2).map_err(|e| format!("{w}: {e}"))?));
            } else if l.contains('.') || l.contains('e') || l.ends_with('f') {
                let z = l.trim_end_matches('f');
                let mut f: f64 = z.parse().map_err(|e| format!("{w}: {e}"))?;
                if l.ends_with('f') { f = (f as f32) as f64; }
                out.push(T::Float(f));
            } else if l.len() > 1 && l.starts_with('0') {
                out.push(T::Int(i128::from_str_radix(&l[1..], 8).map_err(|e| format!("{w}: {e}"))?));
            } else {
                out.push(T::Int(l.parse().map_err(|e| format!("{w}: {e}"))?));
            }
            continue;
        }
        if c == '"' {
            i += 1;
            let mut r = String::new();
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match b.get(i) {
                        Some('n') => r.push('\n'), Some('t') => r.push('\t'), Some('r') => r.push('\r'),
                        Some('"') => r.push('"'), Some('\\') => r.push('\\'), Some('f') => r.push('\u{c}'),
                        Some('0') => { let mut v = 0u32; for _ in 0..2 { if let Some(d) = b.get(i + 1).and_then(|c| c.to_digit(8)) { v = v * 8 + d; i += 1; } } r.push(char::from_u32(v).unwrap()); }
                        Some('x') => { let h: String = b[i+1..i+3].iter().collect(); r.push(u8::from_str_radix(&h,16).map_err(|e| e.to_string())? as char); i += 2; }
                        Some('u') => { let h: String = b[i+1..i+5].iter().collect(); r.push(char::from_u32(u32::from_str_radix(&h,16).map_err(|e| e.to_string())?).ok_or("u")?); i += 4; }
                        x => return Err(format!("escape {x:?}")),
                    }
                } else { r.push(b[i]); }
                i += 1;
            }
            i += 1;
            out.push(T::Str(r));
            continue;
        }
        for p in PUNCT {
            let pc: Vec<char> = p.chars().collect();
            if b[i..].starts_with(&pc) {
                out.push(T::P(p));
                i += pc.len();
                continue 'l;
            }
        }
        return Err(format!("unexpected character {c:?}"));
    }
    out.push(T::Eof);
    Ok(out)
}

struct P { t: Vec<T>, i: usize, pkg: String, nogt: u32 }
type R<X> = Result<X, String>;

pub fn parse_package(src: &str) -> R<Package> {
    let mut p = P { t: lex(src)?, i: 0, pkg: String::new(), nogt: 0 };
    p.package().map_err(|e| format!("{e} near token {} {:?}", p.i, &p.t[p.i.saturating_sub(3)..(p.i + 3).min(p.t.len())]))
}

impl P {
    fn peek(&self) -> &T { &self.t[self.i] }
    fn next(&mut self) -> T { let x = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1; } x }
    fn is(&self, s: &'static str) -> bool { *self.peek() == T::P(s) }
    fn kw(&self, s: &str) -> bool { matches!(self.peek(), T::Id(x) if x == s) }
    fn eat(&mut self, s: &'static str) -> bool { if self.is(s) { self.i += 1; true } else { false } }
    fn eat_kw(&mut self, s: &str) -> bool { if self.kw(s) { self.i += 1; true } else { false } }
    fn want(&mut self, s: &'static str) -> R<()> { if self.eat(s) { Ok(()) } else { Err(format!("expected {s}, got {:?}", self.peek())) } }
    fn id(&mut self) -> R<String> { match self.next() { T::Id(x) => Ok(x), x => Err(format!("expected identifier, got {x:?}")) } }

    fn package(&mut self) -> R<Package> {
        let mut name = String::new();
        if self.eat_kw("zserio_compatibility_version") { self.want("(")?; self.next(); self.want(")")?; self.want(";")?; }
        if self.eat_kw("package") {
            name = self.id()?;
            while self.eat(".") { name += "."; name += &self.id()?; }
            self.want(";")?;
        }
        self.pkg = name.clone();
        let mut imports = vec![];
        while self.eat_kw("import") {
            let mut parts = vec![self.id()?];
            let mut sym = None;
            let mut star = false;
            while self.eat(".") {
                if self.eat("*") { star = true; break; }
                parts.push(self.id()?);
            }
            if !star { sym = parts.pop(); }
            self.want(";")?;
            imports.push((parts.join("."), sym));
        }
        let mut decls = vec![];
        while *self.peek() != T::Eof {
            // Declarations without an encoding of their own.
            if ["service", "pubsub", "rule_group", "sql_table", "sql_database"].iter().any(|k| self.kw(k)) {
                let mut depth = 0;
                loop {
                    match self.next() {
                        T::P("{") => depth += 1,
                        T::P("}") => depth -= 1,
                        T::P(";") if depth == 0 => break,
                        T::Eof => return Err("unterminated declaration".into()),
                        _ => {}
                    }
                }
                continue;
            }
            decls.push(self.decl()?);
        }
        Ok(Package { name, imports, decls })
    }

    fn tparams(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("<") {
            loop { v.push(self.id()?); if !self.eat(",") { break; } }
            self.want(">")?;
        }
        Ok(v)
    }
    fn params(&mut self) -> R<Vec<Param>> {
        let mut v = vec![];
        if self.eat("(") {
            loop {
                let ty = self.type_ref(false)?;
                let name = self.id()?;
                v.push(Param { ty, name });
                if !self.eat(",") { break; }
            }
            self.want(")")?;
        }
        Ok(v)
    }
    fn decl(&mut self) -> R<Decl> {
        let kw = self.id()?;
        let pkg = self.pkg.clone();
        match kw.as_str() {
            "const" => {
                let ty = self.type_ref(false)?;
                let name = self.id()?;
                self.want("=")?;
                let value = Rc::new(self.expr()?);
                self.want(";")?;
                Ok(Decl::Const(Rc::new(ConstDecl { name, pkg, ty, value })))
            }
            "subtype" => {
                let ty = self.type_ref(false)?;
                let name = self.id()?;
                self.want(";")?;
                Ok(Decl::Sub(Rc::new(SubtypeDecl { name, pkg, ty })))
            }
            "instantiate" => {
                let ty = self.type_ref(false)?;
                let name = self.id()?;
                self.want(";")?;
                Ok(Decl::Inst(Rc::new(InstDecl { name, pkg, ty })))
            }
            "enum" | "bitmask" => {
                let ty = self.type_ref(false)?;
                let name = self.id()?;
                self.want("{")?;
                let mut items = vec![];
                while !self.eat("}") {
                    let mut n = self.id()?;
                    if n == "@deprecated" || n == "@removed" { n = self.id()?; }
                    let e = if self.eat("=") { Some(Rc::new(self.expr()?)) } else { None };
                    items.push((n, e));
                    if !self.eat(",") { self.want("}")?; break; }
                }
                self.want(";")?;
                if kw == "enum" { Ok(Decl::Enum(Rc::new(EnumDecl { name, pkg, ty, items }))) }
                else { Ok(Decl::Mask(Rc::new(MaskDecl { name, pkg, ty, items }))) }
            }
            "struct" | "union" => {
                let name = self.id()?;
                let tparams = self.tparams()?;
                let params = self.params()?;
                self.want("{")?;
                let mut fields = vec![];
                let mut funcs = vec![];
                while !self.eat("}") {
                    if self.kw("function") { funcs.push(self.func()?); } else { fields.push(self.field()?); self.want(";")?; }
                }
                self.want(";")?;
                let body = if kw == "struct" { Body::Struct { fields } } else { Body::Union { fields } };
                Ok(Decl::Comp(Rc::new(Compound { name, pkg, tparams, params, body, funcs })))
            }
            "choice" => {
                let name = self.id()?;
                let tparams = self.tparams()?;
                let params = self.params()?;
                if !self.eat_kw("on") { return Err("expected on".into()); }
                let sel = Rc::new(self.expr()?);
                self.want("{")?;
                let mut cases = vec![];
                let mut default = None;
                let mut funcs = vec![];
                while !self.eat("}") {
                    if self.kw("function") { funcs.push(self.func()?); continue; }
                    if self.eat_kw("default") {
                        self.want(":")?;
                        default = Some(if self.is(";") { None } else { Some(self.field()?) });
                        self.want(";")?;
                        continue;
                    }
                    let mut conds = vec![];
                    while self.eat_kw("case") { conds.push(Rc::new(self.expr()?)); self.want(":")?; }
                    if conds.is_empty() { return Err("expected case".into()); }
                    let field = if self.is(";") { None } else { Some(self.field()?) };
                    self.want(";")?;
                    cases.push(Case { conds, field });
                }
                self.want(";")?;
                Ok(Decl::Comp(Rc::new(Compound { name, pkg, tparams, params, body: Body::Choice { sel, cases, default }, funcs })))
            }
            x => Err(format!("unexpected declaration {x}")),
        }
    }
    fn func(&mut self) -> R<Func> {
        self.next();
        let ret = self.type_ref(false)?;
        let name = self.id()?;
        self.want("(")?;
        self.want(")")?;
        self.want("{")?;
        if !self.eat_kw("return") { return Err("expected return".into()); }
        let body = Rc::new(self.expr()?);
        self.want(";")?;
        self.want("}")?;
        self.eat(";");
        Ok(Func { name, ret, body })
    }
    fn field(&mut self) -> R<Field> {
        let mut f = Field {
            name: String::new(), ty: TypeRef { name: String::new(), width: None, targs: vec![], args: vec![] }, arr: Arr::None,
            packed: false, implicit: false, optional: false, align: None, offset: None, init: None, cond: None, constraint: None,
        };
        if self.kw("align") {
            self.next();
            self.want("(")?;
            match self.next() { T::Int(n) => f.align = Some(n as u64), x => return Err(format!("align {x:?}")) }
            self.want(")")?;
            self.want(":")?;
        }
        // offset: try to parse an expression followed by ':'
        let save = self.i;
        if !self.kw("optional") && !self.kw("extend") && !self.kw("packed") && !self.kw("implicit") && !self.kw("bit") && !self.kw("int") {
            if let Ok(e) = self.expr() {
                if matches!(e, Expr::Id(_) | Expr::Dot(..) | Expr::At(..)) && self.eat(":") { f.offset = Some(Rc::new(e)); } else { self.i = save; }
            } else { self.i = save; }
        }
        self.eat_kw("extend");
        if self.eat_kw("optional") { f.optional = true; }
        if self.eat_kw("packed") { f.packed = true; }
        if self.eat_kw("implicit") { f.implicit = true; }
        f.ty = self.type_ref(true)?;
        f.name = self.id()?;
        if self.eat("[") {
            if self.eat("]") { f.arr = Arr::Auto; } else { f.arr = Arr::Fixed(Rc::new(self.expr()?)); self.want("]")?; }
        }
        if self.eat("=") { f.init = Some(Rc::new(self.expr()?)); }
        if self.eat_kw("if") { f.cond = Some(Rc::new(self.expr()?)); }
        if self.eat(":") { f.constraint = Some(Rc::new(self.expr()?)); }
        Ok(f)
    }
    fn type_ref(&mut self, args: bool) -> R<TypeRef> {
        let mut name = self.id()?;
        let mut t = TypeRef { name: String::new(), width: None, targs: vec![], args: vec![] };
        if name == "bit" || name == "int" {
            if self.eat(":") {
                match self.next() { T::Int(n) => t.width = Some(Width::Fixed(n as u8)), x => return Err(format!("bit width {x:?}")) }
            } else if self.eat("<") {
                self.nogt += 1;
                let e = self.expr();
                self.nogt -= 1;
                t.width = Some(Width::Dyn(Rc::new(e?)));
                self.want(">")?;
            }
            t.name = name;
            return Ok(t);
        }
        while self.is(".") { self.next(); name += "."; name += &self.id()?; }
        t.name = name;
        if self.eat("<") {
            loop { t.targs.push(self.type_ref(args)?); if !self.eat(",") { break; } }
            self.want(">")?;
        }
        if args && self.eat("(") {
            loop { t.args.push(Rc::new(self.expr()?)); if !self.eat(",") { break; } }
            self.want(")")?;
        }
        Ok(t)
    }

    pub fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn binop(&mut self, lvl: usize) -> Option<Op> {
        let t = match self.peek() { T::P(p) => *p, _ => return None };
        let r = match (lvl, t) {
            (0, "||") => Op::LOr, (1, "&&") => Op::LAnd, (2, "|") => Op::Or, (3, "^") => Op::Xor, (4, "&") => Op::And,
            (5, "==") => Op::Eq, (5, "!=") => Op::Ne,
            (6, "<") => Op::Lt, (6, "<=") => Op::Le, (6, ">=") => Op::Ge,
            (6, ">") => { if self.nogt > 0 { return None; } if self.t[self.i + 1] == T::P(">") { return None; } Op::Gt }
            (7, "<<") => Op::Shl,
            (7, ">") => { if self.nogt > 0 { return None; } if self.t[self.i + 1] != T::P(">") { return None; } self.i += 1; Op::Shr }
            (8, "+") => Op::Add, (8, "-") => Op::Sub, (9, "*") => Op::Mul, (9, "/") => Op::Div, (9, "%") => Op::Mod,
            _ => return None,
        };
        self.i += 1;
        Some(r)
    }
    fn bin(&mut self, lvl: usize) -> R<Expr> {
        if lvl == 10 { return self.unary(); }
        let mut l = self.bin(lvl + 1)?;
        while let Some(op) = self.binop(lvl) {
            let r = self.bin(lvl + 1)?;
            l = Expr::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> R<Expr> {
        let u = if self.eat("+") { UnOp::Plus } else if self.eat("-") { UnOp::Minus } else if self.eat("!") { UnOp::Not }
            else if self.eat("~") { UnOp::BitNot } else { return self.postfix() };
        Ok(Expr::Un(u, Box::new(self.unary()?)))
    }
    fn postfix(&mut self) -> R<Expr> {
        let mut e = self.primary()?;
        loop {
            if self.is("(") && self.t[self.i + 1] == T::P(")") { self.i += 2; e = Expr::Call(Box::new(e)); }
            else if self.eat("[") {
                let save = std::mem::take(&mut self.nogt);
                let i = self.expr();
                self.nogt = save;
                let i = i?;
                self.want("]")?; e = Expr::At(Box::new(e), Box::new(i));
            }
            else if self.eat(".") { let n = self.id()?; e = Expr::Dot(Box::new(e), n); }
            else { return Ok(e); }
        }
    }
    fn paren1(&mut self) -> R<Box<Expr>> { self.want("(")?; let save = std::mem::take(&mut self.nogt); let e = self.expr(); self.nogt = save; let e = e?; self.want(")")?; Ok(Box::new(e)) }
    fn primary(&mut self) -> R<Expr> {
        if self.is("(") { return Ok(*self.paren1()?); }
        if self.eat("@") { let n = self.id()?; return if n == "index" { Ok(Expr::Index) } else { Err(format!("@{n}")) }; }
        match self.next() {
            T::Int(n) => Ok(Expr::Int(n)),
            T::Float(f) => Ok(Expr::Float(f)),
            T::Str(s) => Ok(Expr::Str(s)),
            T::Id(n) => match n.as_str() {
                "true" => Ok(Expr::Bool(true)),
                "false" => Ok(Expr::Bool(false)),
                "lengthof" => Ok(Expr::Lengthof(self.paren1()?)),
                "valueof" => Ok(Expr::Valueof(self.paren1()?)),
                "numbits" => Ok(Expr::Numbits(self.paren1()?)),
                "isset" => {
                    self.want("(")?;
                    let a = self.expr()?;
                    self.want(",")?;
                    let b = self.expr()?;
                    self.want(")")?;
                    Ok(Expr::Isset(Box::new(a), Box::new(b)))
                }
                _ => Ok(Expr::Id(n)),
            },
            x => Err(format!("unexpected {x:?} in expression")),
        }
    }
}
