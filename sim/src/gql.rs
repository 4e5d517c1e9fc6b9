//! A small GraphQL parser and printer (executable documents only), written
//! independently of the router's.
use crate::json::{wstr, J};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Int(String),
    Float(String),
    Str(String),
    Bool(bool),
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
    Var(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Val)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Field(Fld),
    Inline { cond: Option<String>, dirs: Vec<Dir>, sels: Vec<Sel> },
    Spread { name: String, dirs: Vec<Dir> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub alias: Option<String>,
    pub name: String,
    pub args: Vec<(String, Val)>,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}
impl Fld {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
    pub fn new(name: &str) -> Fld {
        Fld { alias: None, name: name.into(), args: vec![], dirs: vec![], sels: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    N(String),
    L(Box<Ty>),
    NN(Box<Ty>),
}
impl Ty {
    pub fn name(&self) -> &str {
        match self {
            Ty::N(s) => s,
            Ty::L(t) | Ty::NN(t) => t.name(),
        }
    }
    pub fn print(&self) -> String {
        match self {
            Ty::N(s) => s.clone(),
            Ty::L(t) => format!("[{}]", t.print()),
            Ty::NN(t) => format!("{}!", t.print()),
        }
    }
    pub fn nn(&self) -> bool {
        matches!(self, Ty::NN(_))
    }
    pub fn parse(s: &str) -> Ty {
        let mut p = P { b: s.as_bytes(), i: 0 };
        p.ty().unwrap()
    }
}
#[derive(Clone, Debug)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub kind: String,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub ops: Vec<Op>,
    pub frags: BTreeMap<String, (String, Vec<Sel>)>,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() {
            match self.b[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' | b',' => self.i += 1,
                b'#' => {
                    while self.i < self.b.len() && self.b[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                0xEF if self.b[self.i..].starts_with(&[0xEF, 0xBB, 0xBF]) => self.i += 3,
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {}", c as char, self.i))
        }
    }
    fn spread(&mut self) -> bool {
        self.ws();
        if self.b[self.i..].starts_with(b"...") {
            self.i += 3;
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> R<String> {
        self.ws();
        let s = self.i;
        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'_') {
            self.i += 1;
        }
        if s == self.i || self.b[s].is_ascii_digit() {
            return Err(format!("expected a name at {}", s));
        }
        Ok(String::from_utf8_lossy(&self.b[s..self.i]).to_string())
    }
    fn ty(&mut self) -> R<Ty> {
        let t = if self.eat(b'[') {
            let t = self.ty()?;
            self.expect(b']')?;
            Ty::L(Box::new(t))
        } else {
            Ty::N(self.name()?)
        };
        Ok(if self.eat(b'!') { Ty::NN(Box::new(t)) } else { t })
    }
    fn string(&mut self) -> R<String> {
        if self.b[self.i..].starts_with(b"\"\"\"") {
            self.i += 3;
            let s = self.i;
            while self.i < self.b.len() && !self.b[self.i..].starts_with(b"\"\"\"") {
                if self.b[self.i..].starts_with(b"\\\"\"\"") {
                    self.i += 4;
                } else {
                    self.i += 1;
                }
            }
            let raw = String::from_utf8_lossy(&self.b[s..self.i]).replace("\\\"\"\"", "\"\"\"");
            self.i += 3;
            return Ok(block_string(&raw));
        }
        // same escapes as JSON
        let s = self.i;
        self.i += 1;
        while self.i < self.b.len() && self.b[self.i] != b'"' {
            if self.b[self.i] == b'\\' {
                self.i += 1;
            }
            self.i += 1;
        }
        if self.i >= self.b.len() {
            return Err("unterminated string".into());
        }
        self.i += 1;
        match J::parse(&self.b[s..self.i]) {
            Ok(J::Str(x)) => Ok(x),
            _ => Err("bad string".into()),
        }
    }
    fn val(&mut self) -> R<Val> {
        match self.peek() {
            b'$' => {
                self.i += 1;
                Ok(Val::Var(self.name()?))
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b']') {
                    v.push(self.val()?);
                }
                Ok(Val::List(v))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    let n = self.name()?;
                    self.expect(b':')?;
                    v.push((n, self.val()?));
                }
                Ok(Val::Obj(v))
            }
            b'"' => Ok(Val::Str(self.string()?)),
            c if c == b'-' || c.is_ascii_digit() => {
                let s = self.i;
                self.i += 1;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'.' | b'e' | b'E' | b'+' | b'-') {
                    self.i += 1;
                }
                let t = String::from_utf8_lossy(&self.b[s..self.i]).to_string();
                Ok(if t.contains(['.', 'e', 'E']) { Val::Float(t) } else { Val::Int(t) })
            }
            _ => {
                let n = self.name()?;
                Ok(match n.as_str() {
                    "true" => Val::Bool(true),
                    "false" => Val::Bool(false),
                    "null" => Val::Null,
                    _ => Val::Enum(n),
                })
            }
        }
    }
    fn args(&mut self) -> R<Vec<(String, Val)>> {
        let mut v = vec![];
        if self.eat(b'(') {
            while !self.eat(b')') {
                let n = self.name()?;
                self.expect(b':')?;
                v.push((n, self.val()?));
            }
        }
        Ok(v)
    }
    fn dirs(&mut self) -> R<Vec<Dir>> {
        let mut v = vec![];
        while self.eat(b'@') {
            let name = self.name()?;
            v.push(Dir { name, args: self.args()? });
        }
        Ok(v)
    }
    fn sels(&mut self) -> R<Vec<Sel>> {
        let mut v = vec![];
        self.expect(b'{')?;
        while !self.eat(b'}') {
            if self.i >= self.b.len() {
                return Err("unexpected end".into());
            }
            if self.spread() {
                let save = self.i;
                if self.peek().is_ascii_alphabetic() || self.peek() == b'_' {
                    let n = self.name()?;
                    if n != "on" {
                        v.push(Sel::Spread { name: n, dirs: self.dirs()? });
                        continue;
                    }
                    let c = self.name()?;
                    let dirs = self.dirs()?;
                    v.push(Sel::Inline { cond: Some(c), dirs, sels: self.sels()? });
                } else {
                    self.i = save;
                    let dirs = self.dirs()?;
                    v.push(Sel::Inline { cond: None, dirs, sels: self.sels()? });
                }
                continue;
            }
            let mut f = Fld::new(&self.name()?);
            if self.eat(b':') {
                f.alias = Some(std::mem::replace(&mut f.name, self.name()?));
            }
            f.args = self.args()?;
            f.dirs = self.dirs()?;
            if self.peek() == b'{' {
                f.sels = self.sels()?;
            }
            v.push(Sel::Field(f));
        }
        Ok(v)
    }
    fn doc(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        while self.peek() != 0 {
            if self.peek() == b'{' {
                let sels = self.sels()?;
                d.ops.push(Op { kind: "query".into(), name: None, vars: vec![], dirs: vec![], sels });
                continue;
            }
            let kw = self.name()?;
            if kw == "fragment" {
                let n = self.name()?;
                self.name()?;
                let c = self.name()?;
                self.dirs()?;
                let s = self.sels()?;
                d.frags.insert(n, (c, s));
                continue;
            }
            if !matches!(kw.as_str(), "query" | "mutation" | "subscription") {
                return Err(format!("unexpected {}", kw));
            }
            let name = if self.peek().is_ascii_alphabetic() || self.peek() == b'_' { Some(self.name()?) } else { None };
            let mut vars = vec![];
            if self.eat(b'(') {
                while !self.eat(b')') {
                    self.expect(b'$')?;
                    let n = self.name()?;
                    self.expect(b':')?;
                    let ty = self.ty()?;
                    let default = if self.eat(b'=') { Some(self.val()?) } else { None };
                    self.dirs()?;
                    vars.push(VarDef { name: n, ty, default });
                }
            }
            let dirs = self.dirs()?;
            let sels = self.sels()?;
            d.ops.push(Op { kind: kw, name, vars, dirs, sels });
        }
        Ok(d)
    }
}
fn block_string(raw: &str) -> String {
    let lines: Vec<&str> = raw.split('\n').map(|l| l.trim_end_matches('\r')).collect();
    let ind = lines.iter().skip(1).filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    let mut v: Vec<String> = lines.iter().enumerate().map(|(i, l)| if i == 0 { l.to_string() } else { l.get(ind..).unwrap_or("").to_string() }).collect();
    while v.first().map(|l| l.trim().is_empty()).unwrap_or(false) {
        v.remove(0);
    }
    while v.last().map(|l| l.trim().is_empty()).unwrap_or(false) {
        v.pop();
    }
    v.join("\n")
}
pub fn parse(s: &str) -> R<Doc> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    p.doc()
}

// ---------------------------------------------------------------- printing
pub fn pval(v: &Val, o: &mut String) {
    match v {
        Val::Null => *o += "null",
        Val::Int(s) | Val::Float(s) | Val::Enum(s) => *o += s,
        Val::Str(s) => wstr(s, o),
        Val::Bool(b) => *o += if *b { "true" } else { "false" },
        Val::Var(s) => {
            o.push('$');
            *o += s
        }
        Val::List(l) => {
            o.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    *o += ", "
                }
                pval(x, o)
            }
            o.push(']')
        }
        Val::Obj(l) => {
            o.push('{');
            for (i, (k, x)) in l.iter().enumerate() {
                if i > 0 {
                    *o += ", "
                }
                *o += k;
                *o += ": ";
                pval(x, o)
            }
            o.push('}')
        }
    }
}
fn pargs(a: &[(String, Val)], o: &mut String) {
    if a.is_empty() {
        return;
    }
    o.push('(');
    for (i, (k, v)) in a.iter().enumerate() {
        if i > 0 {
            *o += ", "
        }
        *o += k;
        *o += ": ";
        pval(v, o)
    }
    o.push(')')
}
fn pdirs(d: &[Dir], o: &mut String) {
    for x in d {
        *o += " @";
        *o += &x.name;
        pargs(&x.args, o)
    }
}
pub fn psels(s: &[Sel], o: &mut String) {
    *o += "{";
    for (i, x) in s.iter().enumerate() {
        if i > 0 {
            *o += " "
        }
        match x {
            Sel::Field(f) => {
                if let Some(a) = &f.alias {
                    *o += a;
                    *o += ": "
                }
                *o += &f.name;
                pargs(&f.args, o);
                pdirs(&f.dirs, o);
                if !f.sels.is_empty() {
                    o.push(' ');
                    psels(&f.sels, o)
                }
            }
            Sel::Inline { cond, dirs, sels } => {
                *o += "...";
                if let Some(c) = cond {
                    *o += " on ";
                    *o += c
                }
                pdirs(dirs, o);
                o.push(' ');
                psels(sels, o)
            }
            Sel::Spread { name, dirs } => {
                *o += "...";
                *o += name;
                pdirs(dirs, o)
            }
        }
    }
    *o += "}"
}
impl Doc {
    pub fn print(&self) -> String {
        let mut o = String::new();
        for (i, op) in self.ops.iter().enumerate() {
            if i > 0 {
                o.push(' ');
            }
            if op.name.is_some() || !op.vars.is_empty() || op.kind != "query" || !op.dirs.is_empty() {
                o += &op.kind;
                if let Some(n) = &op.name {
                    o.push(' ');
                    o += n
                }
                if !op.vars.is_empty() {
                    o.push('(');
                    for (i, v) in op.vars.iter().enumerate() {
                        if i > 0 {
                            o += ", "
                        }
                        o += &format!("${}: {}", v.name, v.ty.print());
                        if let Some(d) = &v.default {
                            o += " = ";
                            pval(d, &mut o)
                        }
                    }
                    o.push(')')
                }
                pdirs(&op.dirs, &mut o);
                o.push(' ');
            }
            psels(&op.sels, &mut o);
        }
        for (n, (c, s)) in &self.frags {
            o += &format!(" fragment {} on {} ", n, c);
            psels(s, &mut o);
        }
        o
    }
    pub fn op(&self, name: Option<&str>) -> Option<&Op> {
        match name {
            Some(n) => self.ops.iter().find(|o| o.name.as_deref() == Some(n)),
            None => self.ops.first(),
        }
    }
}
/// Literal to JSON with variables substituted; None: a variable without value.
pub fn to_json(v: &Val, vars: &BTreeMap<String, J>) -> Option<J> {
    Some(match v {
        Val::Null => J::Null,
        Val::Int(s) | Val::Float(s) => J::Num(s.clone()),
        Val::Str(s) | Val::Enum(s) => J::s(s),
        Val::Bool(b) => J::Bool(*b),
        Val::Var(n) => return vars.get(n).cloned(),
        Val::List(l) => J::Arr(l.iter().map(|x| to_json(x, vars).unwrap_or(J::Null)).collect()),
        Val::Obj(l) => J::Obj(l.iter().filter_map(|(k, x)| to_json(x, vars).map(|j| (k.clone(), j))).collect()),
    })
}
pub fn from_json(j: &J) -> Val {
    match j {
        J::Null => Val::Null,
        J::Bool(b) => Val::Bool(*b),
        J::Num(n) => {
            if n.contains(['.', 'e', 'E']) {
                Val::Float(n.clone())
            } else {
                Val::Int(n.clone())
            }
        }
        J::Str(s) => Val::Str(s.clone()),
        J::Arr(a) => Val::List(a.iter().map(from_json).collect()),
        J::Obj(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}
