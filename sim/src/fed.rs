//! Federated schema model: random supergraphs, the data behind them, a
//! reference executor (one server holding all data) and the subgraph servers'
//! executor. Independent of the router's code.
use crate::gql::*;
use crate::json::J;
use crate::rng::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Obj,
    Iface,
    Union(Vec<String>),
    Enum(Vec<String>),
    Scalar,
    Input,
}
#[derive(Clone, Debug)]
pub struct Arg {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
}
#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: String,
    pub args: Vec<Arg>,
    pub ty: Ty,
    pub owners: Vec<usize>,
    pub external: Vec<usize>,
    pub requires: Option<(usize, String)>,
    pub provides: Vec<(usize, String)>,
    /// (new owner, old owner, label)
    pub over: Option<(usize, usize, Option<String>)>,
    /// None: public. Some(empty): @authenticated. Otherwise scopes (any of all-of).
    pub auth: Option<Vec<Vec<String>>>,
    pub default: Option<Val>, // input fields
    pub extra: String,        // more directives, verbatim
}
impl FieldDef {
    pub fn new(name: &str, ty: &str, owners: &[usize]) -> FieldDef {
        FieldDef {
            name: name.into(),
            args: vec![],
            ty: Ty::parse(ty),
            owners: owners.to_vec(),
            external: vec![],
            requires: None,
            provides: vec![],
            over: None,
            auth: None,
            default: None,
            extra: String::new(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct TypeDef {
    pub name: String,
    pub kind: Kind,
    /// graphs the type lives in, with its keys there
    pub subs: Vec<(usize, Vec<String>)>,
    pub ifaces: Vec<String>,
    pub fields: Vec<FieldDef>,
    pub auth: Option<Vec<Vec<String>>>,
    pub extra: String,
}
impl TypeDef {
    pub fn new(name: &str, kind: Kind, subs: &[usize]) -> TypeDef {
        TypeDef { name: name.into(), kind, subs: subs.iter().map(|s| (*s, vec![])).collect(), ifaces: vec![], fields: vec![], auth: None, extra: String::new() }
    }
    pub fn keyed(mut self, k: &str) -> TypeDef {
        for s in &mut self.subs {
            s.1.push(k.to_string());
        }
        self
    }
    pub fn field(&self, n: &str) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.name == n)
    }
    pub fn in_sub(&self, s: usize) -> bool {
        self.subs.iter().any(|x| x.0 == s)
    }
    pub fn entity(&self) -> bool {
        self.subs.iter().any(|s| !s.1.is_empty())
    }
}
#[derive(Clone, Debug, Default)]
pub struct Fed {
    pub subs: Vec<(String, String)>, // name, url
    pub types: Vec<TypeDef>,
    pub idx: BTreeMap<String, usize>,
    /// version of the data: salts every value
    pub salt: u64,
    pub nids: u64,
    pub auth: bool,
    pub fancy: bool,
    pub doc: String,
    pub join_ver: &'static str,
    pub extra_links: String,
}
pub const BUILTIN: [&str; 5] = ["String", "Int", "Float", "Boolean", "ID"];

/// A value in the data set.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    S(J),
    O(String, u64),
    L(Vec<V>),
}
/// The identity `who` fields answer with, set before every execution.
pub static mut WHO: String = String::new();
/// The subscription event at hand: its number and its marker.
pub static mut EVENT: u64 = 0;
pub static mut NOTE: String = String::new();
pub fn set_event(n: u64, note: &str) {
    unsafe {
        EVENT = n;
        NOTE = note.to_string();
    }
}
pub fn set_who(s: &str) {
    unsafe {
        WHO = s.to_string();
    }
}
pub fn hs(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Fed {
    pub fn t(&self, n: &str) -> Option<&TypeDef> {
        self.idx.get(n).map(|i| &self.types[*i])
    }
    pub fn add(&mut self, t: TypeDef) {
        self.idx.insert(t.name.clone(), self.types.len());
        self.types.push(t);
    }
    pub fn tm(&mut self, n: &str) -> &mut TypeDef {
        let i = self.idx[n];
        &mut self.types[i]
    }
    pub fn gname(&self, s: usize) -> String {
        self.subs[s].0.to_uppercase().replace('-', "_")
    }
    /// concrete types of a composite type (optionally within one subgraph)
    pub fn possible(&self, n: &str, sub: Option<usize>) -> Vec<String> {
        let inn = |t: &TypeDef| sub.map(|s| t.in_sub(s)).unwrap_or(true);
        match self.t(n).map(|t| &t.kind) {
            Some(Kind::Obj) => vec![n.to_string()],
            Some(Kind::Iface) => self.types.iter().filter(|t| t.kind == Kind::Obj && t.ifaces.iter().any(|i| i == n) && inn(t)).map(|t| t.name.clone()).collect(),
            Some(Kind::Union(m)) => m.iter().filter(|m| self.t(m).map(|t| inn(t)).unwrap_or(false)).cloned().collect(),
            _ => vec![],
        }
    }
    pub fn composite(&self, n: &str) -> bool {
        matches!(self.t(n).map(|t| &t.kind), Some(Kind::Obj | Kind::Iface | Kind::Union(_)))
    }
    pub fn satisfies(&self, concrete: &str, cond: &str) -> bool {
        concrete == cond || self.possible(cond, None).iter().any(|x| x == concrete)
    }

    // ------------------------------------------------------------ SDL
    pub fn sdl(&self) -> String {
        let jv = if self.join_ver.is_empty() { "v0.3" } else { self.join_ver };
        let mut o = String::new();
        if !self.doc.is_empty() {
            o += &format!("# {}\n", self.doc);
        }
        o += "schema\n  @link(url: \"https://specs.apollo.dev/link/v1.0\")\n";
        o += &format!("  @link(url: \"https://specs.apollo.dev/join/{}\", for: EXECUTION)\n", jv);
        if self.auth {
            o += "  @link(url: \"https://specs.apollo.dev/authenticated/v0.1\", for: SECURITY)\n  @link(url: \"https://specs.apollo.dev/requiresScopes/v0.1\", for: SECURITY)\n";
        }
        o += &self.extra_links;
        o += "{\n  query: Query\n";
        if self.t("Mutation").is_some() {
            o += "  mutation: Mutation\n";
        }
        if self.t("Subscription").is_some() {
            o += "  subscription: Subscription\n";
        }
        o += "}\n";
        o += r#"
directive @join__enumValue(graph: join__Graph!) repeatable on ENUM_VALUE
directive @join__field(graph: join__Graph, requires: join__FieldSet, provides: join__FieldSet, type: String, external: Boolean, override: String, usedOverridden: Boolean, overrideLabel: String) repeatable on FIELD_DEFINITION | INPUT_FIELD_DEFINITION
directive @join__graph(name: String!, url: String!) on ENUM_VALUE
directive @join__implements(graph: join__Graph!, interface: String!) repeatable on OBJECT | INTERFACE
directive @join__type(graph: join__Graph!, key: join__FieldSet, extension: Boolean! = false, resolvable: Boolean! = true, isInterfaceObject: Boolean! = false) repeatable on OBJECT | INTERFACE | UNION | ENUM | INPUT_OBJECT | SCALAR
directive @join__unionMember(graph: join__Graph!, member: String!) repeatable on UNION
directive @link(url: String, as: String, for: link__Purpose, import: [link__Import]) repeatable on SCHEMA
scalar join__FieldSet
scalar link__Import
enum link__Purpose { SECURITY EXECUTION }
"#;
        if self.auth {
            o += "directive @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM\ndirective @requiresScopes(scopes: [[requiresScopes__Scope!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM\nscalar requiresScopes__Scope\n";
        }
        o += "enum join__Graph {\n";
        for (i, (n, u)) in self.subs.iter().enumerate() {
            o += &format!("  {} @join__graph(name: \"{}\", url: \"{}\")\n", self.gname(i), n, u);
        }
        o += "}\n";
        for t in &self.types {
            o += &self.type_sdl(t);
        }
        o
    }
    fn auth_sdl(&self, a: &Option<Vec<Vec<String>>>) -> String {
        match a {
            None => String::new(),
            Some(v) if v.is_empty() => " @authenticated".into(),
            Some(v) => format!(" @requiresScopes(scopes: [{}])", v.iter().map(|g| format!("[{}]", g.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ")),
        }
    }
    fn type_sdl(&self, t: &TypeDef) -> String {
        let kw = match &t.kind {
            Kind::Obj => "type",
            Kind::Iface => "interface",
            Kind::Union(_) => "union",
            Kind::Enum(_) => "enum",
            Kind::Scalar => "scalar",
            Kind::Input => "input",
        };
        let mut o = format!("{} {}", kw, t.name);
        if !t.ifaces.is_empty() {
            o += &format!(" implements {}", t.ifaces.join(" & "));
        }
        for (s, _) in &t.subs {
            for i in &t.ifaces {
                if self.t(i).map(|x| x.in_sub(*s)).unwrap_or(false) {
                    o += &format!(" @join__implements(graph: {}, interface: \"{}\")", self.gname(*s), i);
                }
            }
        }
        for (s, keys) in &t.subs {
            if keys.is_empty() {
                o += &format!(" @join__type(graph: {})", self.gname(*s));
            }
            for k in keys {
                o += &format!(" @join__type(graph: {}, key: \"{}\")", self.gname(*s), k);
            }
        }
        o += &self.auth_sdl(&t.auth);
        o += &t.extra;
        match &t.kind {
            Kind::Union(m) => {
                for (s, _) in &t.subs {
                    for x in m {
                        if self.t(x).map(|x| x.in_sub(*s)).unwrap_or(false) {
                            o += &format!(" @join__unionMember(graph: {}, member: \"{}\")", self.gname(*s), x);
                        }
                    }
                }
                o += &format!(" = {}\n", m.join(" | "));
            }
            Kind::Enum(v) => {
                o += " {\n";
                for x in v {
                    o += &format!("  {}", x);
                    for (s, _) in &t.subs {
                        o += &format!(" @join__enumValue(graph: {})", self.gname(*s));
                    }
                    o += "\n";
                }
                o += "}\n";
            }
            Kind::Scalar => o += "\n",
            _ => {
                o += " {\n";
                for f in &t.fields {
                    o += &format!("  {}", f.name);
                    if !f.args.is_empty() {
                        o += "(";
                        for (i, a) in f.args.iter().enumerate() {
                            if i > 0 {
                                o += ", ";
                            }
                            o += &format!("{}: {}", a.name, a.ty.print());
                            if let Some(d) = &a.default {
                                o += " = ";
                                pval(d, &mut o);
                            }
                        }
                        o += ")";
                    }
                    o += &format!(": {}", f.ty.print());
                    if let Some(d) = &f.default {
                        o += " = ";
                        pval(d, &mut o);
                    }
                    let all: BTreeSet<usize> = t.subs.iter().map(|s| s.0).collect();
                    let own: BTreeSet<usize> = f.owners.iter().copied().collect();
                    if own != all || !f.external.is_empty() || f.requires.is_some() || !f.provides.is_empty() || f.over.is_some() {
                        for s in &f.owners {
                            o += &format!(" @join__field(graph: {}", self.gname(*s));
                            if let Some((g, r)) = &f.requires {
                                if g == s {
                                    o += &format!(", requires: \"{}\"", r);
                                }
                            }
                            if let Some((_, p)) = f.provides.iter().find(|p| p.0 == *s) {
                                o += &format!(", provides: \"{}\"", p);
                            }
                            if let Some((new, old, label)) = &f.over {
                                if new == s {
                                    o += &format!(", override: \"{}\"", self.subs[*old].0);
                                    if let Some(l) = label {
                                        o += &format!(", overrideLabel: \"{}\"", l);
                                    }
                                }
                            }
                            o += ")";
                        }
                        if let Some((_, old, Some(l))) = &f.over {
                            o += &format!(" @join__field(graph: {}, overrideLabel: \"{}\")", self.gname(*old), l);
                        }
                        for s in &f.external {
                            o += &format!(" @join__field(graph: {}, external: true)", self.gname(*s));
                        }
                    }
                    o += &self.auth_sdl(&f.auth);
                    o += &f.extra;
                    o += "\n";
                }
                o += "}\n";
            }
        }
        o
    }

    // ------------------------------------------------------------ data
    pub fn key_of(&self, ty: &str, id: u64, field: &str) -> Option<String> {
        match field {
            "id" => Some(format!("{}-{}", ty, id)),
            "sku" => Some(format!("sku:{}:{}", ty, id)),
            _ => None,
        }
    }
    fn id_from(&self, ty: &str, rep: &J) -> Option<u64> {
        if let Some(s) = rep.get("id").and_then(|x| x.str()) {
            return s.strip_prefix(&format!("{}-", ty))?.parse().ok();
        }
        if let Some(s) = rep.get("sku").and_then(|x| x.str()) {
            return s.strip_prefix(&format!("sku:{}:", ty))?.parse().ok();
        }
        None
    }
    fn scalar(&self, ty: &str, h: u64) -> J {
        let mut r = Rng::new(h);
        match ty {
            "Int" => J::i(r.range(0, 2000) as i64 - 1000),
            "Float" => J::Num(format!("{}.{}", r.range(0, 300) as i64 - 150, *r.pick(&["5", "25", "125", "75"]))),
            "Boolean" => J::Bool(r.chance(1, 2)),
            "ID" => J::s(&format!("x{}", r.below(100000))),
            "String" => {
                let n = r.below(10);
                if n == 0 && self.fancy {
                    J::s(*r.pick(&["", "q\"uote", "back\\slash", "new\nline", "tab\t", "üñí", "\u{1F600}", "nul\u{1}", "</script>", "{\"a\":1}", "--graphql", "data: x\n\n", "\u{2028}", "a/b"]))
                } else if n == 1 && self.fancy {
                    J::s(&"long".repeat(r.usize(200) + 1))
                } else {
                    J::s(&format!("{}{}", *r.pick(&["ab", "cd", "ef"]), r.below(1000)))
                }
            }
            "JSON" => match r.below(5) {
                0 => crate::obj! {"z" => J::i(1), "a" => J::Arr(vec![J::i(2), J::Null, J::s("t")])},
                1 => J::Arr(vec![crate::obj! {"k" => J::s("v"), "id" => J::s("w")}]),
                2 => J::i(7),
                3 => J::s("js\"on"),
                _ => crate::obj! {"b" => crate::obj! {}, "__typename" => J::s("no")},
            },
            _ => match self.t(ty).map(|t| &t.kind) {
                Some(Kind::Enum(v)) => J::s(r.pick(v)),
                _ => J::s(&format!("sc{}", r.below(1000))),
            },
        }
    }
    fn gen(&self, ty: &Ty, h: u64, concrete: &[usize], null_ok: bool) -> V {
        match ty {
            Ty::NN(t) => self.gen(t, h, concrete, false),
            _ if null_ok && mix(h, 77) % 7 == 0 => V::Null,
            Ty::L(t) => {
                let n = mix(h, 5) % 4;
                V::L((0..n).map(|i| self.gen(t, mix(h, 100 + i), concrete, true)).collect())
            }
            Ty::N(n) => {
                if self.composite(n) {
                    let p: Vec<String> = self.possible(n, None).into_iter().filter(|x| concrete.iter().all(|s| self.t(x).unwrap().in_sub(*s))).collect();
                    if p.is_empty() {
                        return V::Null;
                    }
                    let x = &p[(mix(h, 9) % p.len() as u64) as usize];
                    let id = if self.t(x).unwrap().entity() { mix(h, 11) % self.nids } else { mix(h, 12) };
                    V::O(x.clone(), id)
                } else {
                    V::S(self.scalar(n, h))
                }
            }
        }
    }
    /// The value of a field in the data set. `req`: canonical text of the
    /// required fields' values for @requires fields.
    pub fn value(&self, ty: &str, id: u64, f: &FieldDef, args: &str, req: &str) -> V {
        if self.t(ty).map(|t| t.entity()).unwrap_or(false) {
            if let Some(k) = self.key_of(ty, id, &f.name) {
                return V::S(J::Str(k));
            }
        }
        if f.name.starts_with("who") {
            return V::S(J::s(unsafe { &*std::ptr::addr_of!(WHO) }));
        }
        if f.name.starts_with("tick_note") {
            return V::S(J::s(unsafe { &*std::ptr::addr_of!(NOTE) }));
        }
        if f.name.starts_with("tick") {
            return V::S(J::i((crate::kernel::k().now / 1000) as i64));
        }
        let mut h = mix(self.salt, hs(ty));
        h = mix(h, id);
        h = mix(h, hs(&f.name));
        if ty == "Subscription" {
            h = mix(h, unsafe { EVENT });
        }
        if !args.is_empty() && args != "{}" {
            h = mix(h, hs(args));
        }
        if !req.is_empty() {
            h = mix(h, hs(req));
        }
        let mut owners = f.owners.clone();
        if let Some((_, old, _)) = &f.over {
            owners.push(*old);
        }
        self.gen(&f.ty, h, &owners, true)
    }
}

// ---------------------------------------------------------------- execution
/// How a run of the executor looks at the data.
pub struct View<'a> {
    pub fed: &'a Fed,
    pub sub: Option<usize>,
    pub vars: BTreeMap<String, J>,
    pub doc: &'a Doc,
    /// fields that fail (type, field): treated as null with propagation
    pub fail: Option<&'a dyn Fn(&str, &FieldDef) -> bool>,
    /// invalid requests seen (subgraph view)
    pub bad: RefCell<Vec<String>>,
    /// (type, field) pairs resolved
    pub touched: RefCell<BTreeSet<(String, String)>>,
    pub track: bool,
    /// keys keep the place of their first textual occurrence even if that
    /// occurrence is excluded by a variable
    pub place_all: bool,
}
/// Bubbling null.
pub struct Bubble;
type Grouped<'a> = Vec<(String, Vec<&'a Fld>)>;
#[derive(Clone)]
pub struct Node<'a> {
    pub ty: String,
    pub id: u64,
    pub rep: Option<&'a J>,
}

impl<'a> View<'a> {
    pub fn new(fed: &'a Fed, sub: Option<usize>, doc: &'a Doc, op: &Op, vars: &J) -> View<'a> {
        let mut m = BTreeMap::new();
        for v in &op.vars {
            if let Some(x) = vars.get(&v.name) {
                m.insert(v.name.clone(), fed.coerce(x, &v.ty));
            } else if let Some(d) = &v.default {
                let j = to_json(d, &BTreeMap::new()).unwrap_or(J::Null);
                m.insert(v.name.clone(), fed.coerce(&j, &v.ty));
            }
        }
        View { fed, sub, vars: m, doc, fail: None, bad: RefCell::new(vec![]), touched: RefCell::new(BTreeSet::new()), track: false, place_all: false }
    }
    fn included(&self, dirs: &[Dir]) -> bool {
        for d in dirs {
            if d.name == "skip" || d.name == "include" {
                let v = d.args.iter().find(|a| a.0 == "if").and_then(|a| to_json(&a.1, &self.vars));
                let b = v == Some(J::Bool(true));
                if (d.name == "skip") == b {
                    return false;
                }
            }
        }
        true
    }
    fn collect(&self, ty: &str, sels: &'a [Sel], out: &mut Grouped<'a>, seen: &mut BTreeSet<String>, ex: bool) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    if ex || !self.included(&f.dirs) {
                        if self.place_all && !lit_excluded(&f.dirs) && !out.iter().any(|g| g.0 == f.key()) {
                            out.push((f.key().to_string(), vec![]));
                        }
                        continue;
                    }
                    match out.iter_mut().find(|g| g.0 == f.key()) {
                        Some(g) if g.1.is_empty() => g.1.push(f),
                        Some(g) => {
                            let first = g.1[0];
                            if self.sub.is_some() && (first.name != f.name || self.argj(first, None) != self.argj(f, None)) {
                                self.bad.borrow_mut().push(format!("conflicting fields under response key {}", f.key()));
                            }
                            g.1.push(f)
                        }
                        None => out.push((f.key().to_string(), vec![f])),
                    }
                }
                Sel::Inline { cond, dirs, sels } => {
                    let inc = self.included(dirs);
                    if (inc || self.place_all && !lit_excluded(dirs)) && self.cond(ty, cond.as_deref()) {
                        self.collect(ty, sels, out, seen, ex || !inc);
                    }
                }
                Sel::Spread { name, dirs } => {
                    let inc = self.included(dirs);
                    if !inc && (!self.place_all || lit_excluded(dirs)) {
                        continue;
                    }
                    if inc && !ex && !seen.insert(name.clone()) {
                        continue;
                    }
                    match self.doc.frags.get(name) {
                        Some((c, s)) => {
                            if self.cond(ty, Some(c)) {
                                self.collect(ty, s, out, seen, ex || !inc);
                            }
                        }
                        None => self.bad.borrow_mut().push(format!("unknown fragment {}", name)),
                    }
                }
            }
        }
    }
    fn cond(&self, ty: &str, c: Option<&str>) -> bool {
        match c {
            None => true,
            Some(c) => {
                if let Some(s) = self.sub {
                    if self.fed.t(c).map(|t| !t.in_sub(s)).unwrap_or(true) && c != "_Entity" && !is_root(c) {
                        self.bad.borrow_mut().push(format!("unknown type {} in subgraph {}", c, self.fed.subs[s].0));
                    }
                }
                c == "_Entity" || self.fed.satisfies(ty, c)
            }
        }
    }
    /// Arguments as canonical JSON text (with defaults, sorted).
    fn argj(&self, f: &Fld, def: Option<&FieldDef>) -> String {
        let mut m: BTreeMap<String, J> = BTreeMap::new();
        if let Some(d) = def {
            for a in &d.args {
                let given = f.args.iter().find(|x| x.0 == a.name);
                match given {
                    Some((_, v)) => {
                        if let Some(j) = to_json(v, &self.vars) {
                            m.insert(a.name.clone(), self.fed.coerce(&j, &a.ty));
                            continue;
                        }
                    }
                    None => {}
                }
                if let Some(dv) = &a.default {
                    m.insert(a.name.clone(), self.fed.coerce(&to_json(dv, &BTreeMap::new()).unwrap_or(J::Null), &a.ty));
                }
            }
            if self.sub.is_some() {
                for (n, v) in &f.args {
                    if !d.args.iter().any(|a| a.name == *n) {
                        self.bad.borrow_mut().push(format!("unknown argument {} of {}", n, f.name));
                    }
                    if let Val::Var(v) = v {
                        if !self.vars.contains_key(v) && d.args.iter().any(|a| a.name == *n && a.ty.nn() && a.default.is_none()) {
                            self.bad.borrow_mut().push(format!("variable ${} has no value", v));
                        }
                    }
                }
                for a in &d.args {
                    if a.ty.nn() && a.default.is_none() && !m.contains_key(&a.name) {
                        self.bad.borrow_mut().push(format!("argument {} of {} is required", a.name, f.name));
                    }
                }
            }
        } else {
            for (n, v) in &f.args {
                if let Some(j) = to_json(v, &self.vars) {
                    m.insert(n.clone(), j);
                }
            }
        }
        canon(&J::Obj(m.into_iter().collect()))
    }
    fn field_def(&self, ty: &str, name: &str) -> Option<&'a FieldDef> {
        let t = self.fed.t(ty)?;
        let f = t.field(name)?;
        if let Some(s) = self.sub {
            let ok = f.owners.contains(&s) || f.external.contains(&s) || f.over.as_ref().map(|o| o.1 == s).unwrap_or(false);
            if !ok {
                return None;
            }
        }
        Some(f)
    }
    pub fn sels(&self, n: &Node, sets: &[&'a [Sel]]) -> Result<J, Bubble> {
        let mut g: Grouped<'a> = vec![];
        let mut seen = BTreeSet::new();
        for s in sets {
            self.collect(&n.ty, s, &mut g, &mut seen, false);
        }
        let mut out = vec![];
        let mut bubble = false;
        for (key, fs) in g {
            if fs.is_empty() {
                continue;
            }
            let f = fs[0];
            if f.name == "__typename" {
                out.push((key, J::s(&n.ty)));
                continue;
            }
            let def = match self.field_def(&n.ty, &f.name) {
                Some(d) => d,
                None => {
                    self.bad.borrow_mut().push(format!("no field {}.{} in {}", n.ty, f.name, self.sub.map(|s| self.fed.subs[s].0.as_str()).unwrap_or("the schema")));
                    out.push((key, J::Null));
                    continue;
                }
            };
            if self.track {
                self.touched.borrow_mut().insert((n.ty.clone(), f.name.clone()));
            }
            let v = if self.fail.map(|g| g(&n.ty, def)).unwrap_or(false) {
                V::Null
            } else {
                let args = self.argj(f, Some(def));
                let req = self.required(n, def);
                match req {
                    Ok(r) => self.fed.value(&n.ty, n.id, def, &args, &r),
                    Err(()) => V::Null,
                }
            };
            let sub: Vec<&'a [Sel]> = fs.iter().map(|f| &f.sels[..]).collect();
            if self.sub.is_some() {
                let comp = self.fed.composite(def.ty.name());
                if comp && fs.iter().any(|f| f.sels.is_empty()) || !comp && fs.iter().any(|f| !f.sels.is_empty()) {
                    self.bad.borrow_mut().push(format!("selection set of {}.{} does not fit its type", n.ty, f.name));
                }
            }
            match self.complete(&def.ty, v, &sub) {
                Ok(j) => out.push((key, j)),
                Err(Bubble) => bubble = true,
            }
        }
        if bubble {
            Err(Bubble)
        } else {
            Ok(J::Obj(out))
        }
    }
    /// Text of the values a @requires field depends on.
    fn required(&self, n: &Node, def: &FieldDef) -> Result<String, ()> {
        let (g, set) = match &def.requires {
            Some(x) => x,
            None => return Ok(String::new()),
        };
        let d = parse(&format!("{{{}}}", set)).unwrap();
        let d: &'static Doc = Box::leak(Box::new(d));
        match self.sub {
            Some(_) => {
                let rep = match n.rep {
                    Some(r) => r,
                    None => {
                        self.bad.borrow_mut().push(format!("{}.{} asked for without the fields it requires", n.ty, def.name));
                        return Err(());
                    }
                };
                let mut o = vec![];
                for s in &d.ops[0].sels {
                    if let Sel::Field(f) = s {
                        match rep.get(&f.name) {
                            Some(v) => o.push((f.name.clone(), pick(v, &f.sels))),
                            None => {
                                self.bad.borrow_mut().push(format!("representation of {} lacks {} required by {}", n.ty, f.name, def.name));
                                return Err(());
                            }
                        }
                    }
                }
                Ok(canon(&J::Obj(o)))
            }
            None => {
                let _ = g;
                let v = View { fed: self.fed, sub: None, vars: BTreeMap::new(), doc: d, fail: self.fail, bad: RefCell::new(vec![]), touched: RefCell::new(BTreeSet::new()), track: false, place_all: false };
                let m = Node { ty: n.ty.clone(), id: n.id, rep: None };
                if let Some(g) = self.fail {
                    // a required field that failed makes this one fail as well
                    for s in &d.ops[0].sels {
                        if let Sel::Field(f) = s {
                            if let Some(fd) = self.fed.t(&n.ty).and_then(|t| t.field(&f.name)) {
                                if g(&n.ty, fd) {
                                    return Err(());
                                }
                            }
                        }
                    }
                }
                match v.sels(&m, &[&d.ops[0].sels]) {
                    Ok(j) => Ok(canon(&j)),
                    Err(_) => Err(()),
                }
            }
        }
    }
    fn complete(&self, ty: &Ty, v: V, sub: &[&'a [Sel]]) -> Result<J, Bubble> {
        match (ty, v) {
            (Ty::NN(t), v) => match self.complete(t, v, sub)? {
                J::Null => Err(Bubble),
                j => Ok(j),
            },
            (_, V::Null) => Ok(J::Null),
            (Ty::L(t), V::L(l)) => {
                let mut o = vec![];
                for x in l {
                    match self.complete(t, x, sub) {
                        Ok(j) => o.push(j),
                        Err(Bubble) => return if t.nn() { Ok(J::Null) } else { Ok(J::Null) },
                    }
                }
                Ok(J::Arr(o))
            }
            (_, V::S(j)) => Ok(j),
            (_, V::O(t, id)) => match self.sels(&Node { ty: t, id, rep: None }, sub) {
                Ok(j) => Ok(j),
                Err(Bubble) => Ok(J::Null),
            },
            (_, V::L(_)) => Ok(J::Null),
        }
    }
}
fn lit_excluded(dirs: &[Dir]) -> bool {
    dirs.iter().any(|d| match d.args.iter().find(|a| a.0 == "if").map(|a| &a.1) {
        Some(Val::Bool(b)) => (d.name == "skip") == *b && (d.name == "skip" || d.name == "include"),
        _ => false,
    })
}
/// Do constant directives leave a selection set empty?
pub fn lit_empty(sels: &[Sel], frags: &BTreeMap<String, (String, Vec<Sel>)>) -> bool {
    sels.iter().all(|s| match s {
        Sel::Field(f) => lit_excluded(&f.dirs),
        Sel::Inline { dirs, sels, .. } => lit_excluded(dirs) || lit_empty(sels, frags),
        Sel::Spread { dirs, name } => lit_excluded(dirs) || frags.get(name).is_none_or(|f| lit_empty(&f.1, frags)),
    })
}
/// Is there a @skip/@include below another one?
pub fn cond_nested(sels: &[Sel], frags: &BTreeMap<String, (String, Vec<Sel>)>, c: bool) -> bool {
    sels.iter().any(|s| match s {
        Sel::Field(f) => c && !f.dirs.is_empty() || cond_nested(&f.sels, frags, c || !f.dirs.is_empty()),
        Sel::Inline { dirs, sels, .. } => c && !dirs.is_empty() || cond_nested(sels, frags, c || !dirs.is_empty()),
        Sel::Spread { dirs, name } => c && !dirs.is_empty() || frags.get(name).is_some_and(|f| cond_nested(&f.1, frags, c || !dirs.is_empty())),
    })
}
/// Is a @requires field selected below the first level of entities?
pub fn rq_nested(sels: &[Sel], frags: &BTreeMap<String, (String, Vec<Sel>)>, d: u32) -> bool {
    sels.iter().any(|s| match s {
        Sel::Field(f) => f.name == "rq" && d > 1 || rq_nested(&f.sels, frags, d + 1),
        Sel::Inline { sels, .. } => rq_nested(sels, frags, d),
        Sel::Spread { name, .. } => frags.get(name).is_some_and(|f| rq_nested(&f.1, frags, d)),
    })
}
/// Does the operation select one composite response key several times, at least once under a condition?
pub fn cond_dup(sels: &[Sel], frags: &BTreeMap<String, (String, Vec<Sel>)>) -> bool {
    fn walk(sets: &[(&[Sel], bool)], frags: &BTreeMap<String, (String, Vec<Sel>)>) -> bool {
        let mut keys: BTreeMap<String, Vec<(&[Sel], bool)>> = BTreeMap::new();
        fn collect<'a>(s: &'a [Sel], c: bool, frags: &'a BTreeMap<String, (String, Vec<Sel>)>, keys: &mut BTreeMap<String, Vec<(&'a [Sel], bool)>>) {
            for x in s {
                match x {
                    Sel::Field(f) if !f.sels.is_empty() => keys.entry(f.key().to_string()).or_default().push((&f.sels, c || !f.dirs.is_empty())),
                    Sel::Field(_) => {}
                    Sel::Inline { dirs, sels, .. } => collect(sels, c || !dirs.is_empty(), frags, keys),
                    Sel::Spread { dirs, name } => {
                        if let Some(f) = frags.get(name) {
                            collect(&f.1, c || !dirs.is_empty(), frags, keys)
                        }
                    }
                }
            }
        }
        for (s, c) in sets {
            collect(s, *c, frags, &mut keys);
        }
        keys.values().any(|v| v.len() > 1 && v.iter().any(|x| x.1)) || keys.values().any(|v| walk(&v.iter().map(|x| (x.0, false)).collect::<Vec<_>>(), frags))
    }
    walk(&[(sels, false)], frags)
}
pub fn is_root(n: &str) -> bool {
    n == "Query" || n == "Mutation" || n == "Subscription"
}
fn pick(v: &J, sels: &[Sel]) -> J {
    if sels.is_empty() {
        return v.clone();
    }
    match v {
        J::Arr(a) => J::Arr(a.iter().map(|x| pick(x, sels)).collect()),
        J::Obj(_) => J::Obj(
            sels.iter()
                .filter_map(|s| if let Sel::Field(f) = s { Some((f.key().to_string(), v.get(f.key()).map(|x| pick(x, &f.sels)).unwrap_or(J::Null))) } else { None })
                .collect(),
        ),
        x => x.clone(),
    }
}
/// Canonical text: sorted keys, normalised numbers.
pub fn canon(j: &J) -> String {
    sorted(j).to_string()
}
fn sorted(j: &J) -> J {
    match j {
        J::Obj(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, x)| (k.clone(), sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        J::Arr(a) => J::Arr(a.iter().map(sorted).collect()),
        J::Num(n) => match n.parse::<f64>() {
            Ok(f) if n.contains(['.', 'e', 'E']) => J::Num(format!("{:?}", f)),
            _ => j.clone(),
        },
        x => x.clone(),
    }
}
/// Equality with numbers compared by value and object order significant.
pub fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => x == y || matches!((x.parse::<f64>(), y.parse::<f64>()), (Ok(p), Ok(q)) if p == q),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        _ => a == b,
    }
}
/// Path and values of the first difference.
pub fn diff(a: &J, b: &J, p: &str) -> Option<String> {
    match (a, b) {
        (J::Arr(x), J::Arr(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (m, n))| diff(m, n, &format!("{}.{}", p, i))),
        (J::Obj(x), J::Obj(y)) => {
            let kx: Vec<&String> = x.iter().map(|z| &z.0).collect();
            let ky: Vec<&String> = y.iter().map(|z| &z.0).collect();
            if kx != ky {
                return Some(format!("at {}: keys {:?} instead of {:?}", p, kx, ky));
            }
            x.iter().zip(y).find_map(|(m, n)| diff(&m.1, &n.1, &format!("{}.{}", p, m.0)))
        }
        _ => {
            if same(a, b) {
                None
            } else {
                let cut = |s: String| s.chars().take(200).collect::<String>();
                Some(format!("at {}: {} instead of {}", p, cut(a.to_string()), cut(b.to_string())))
            }
        }
    }
}

impl Fed {
    /// Input coercion as far as our generated inputs need it.
    pub fn coerce(&self, j: &J, ty: &Ty) -> J {
        match (ty, j) {
            (Ty::NN(t), _) => self.coerce(j, t),
            (_, J::Null) => J::Null,
            (Ty::L(t), J::Arr(a)) => J::Arr(a.iter().map(|x| self.coerce(x, t)).collect()),
            (Ty::L(t), x) => J::Arr(vec![self.coerce(x, t)]),
            (Ty::N(n), x) => match n.as_str() {
                "ID" => match x {
                    J::Num(s) => J::s(s),
                    _ => x.clone(),
                },
                "Float" => match x {
                    J::Num(s) => J::Num(s.parse::<f64>().map(|f| format!("{:?}", f)).unwrap_or_default()),
                    _ => x.clone(),
                },
                _ => match (self.t(n).map(|t| (&t.kind, t)), x) {
                    (Some((Kind::Input, t)), J::Obj(_)) => {
                        let mut o = vec![];
                        for f in &t.fields {
                            if let Some(v) = x.get(&f.name) {
                                o.push((f.name.clone(), self.coerce(v, &f.ty)));
                            } else if let Some(d) = &f.default {
                                o.push((f.name.clone(), self.coerce(&to_json(d, &BTreeMap::new()).unwrap(), &f.ty)));
                            }
                        }
                        J::Obj(o)
                    }
                    _ => x.clone(),
                },
            },
        }
    }
    /// The answer of one server with all data, with keys placed by their first
    /// textual occurrence.
    pub fn reference_placed(&self, doc: &Doc, opname: Option<&str>, vars: &J) -> J {
        let op = doc.op(opname).unwrap();
        let mut v = View::new(self, None, doc, op, vars);
        v.place_all = true;
        let root = match op.kind.as_str() {
            "mutation" => "Mutation",
            "subscription" => "Subscription",
            _ => "Query",
        };
        v.sels(&Node { ty: root.into(), id: 0, rep: None }, &[&op.sels]).unwrap_or(J::Null)
    }
    /// The difference of an answer to the reference, if any.
    pub fn judge(&self, got: &J, doc: &Doc, opname: Option<&str>, vars: &J) -> Option<String> {
        let want = self.reference(doc, opname, vars, None);
        let d = diff(got, &want, "data")?;
        // Key order is claimed for operations made of plain fields; with fragments or conditions
        // the specification's order is a SHOULD the router does not follow.
        let plain = |sels: &[Sel]| -> bool {
            fn p(sels: &[Sel]) -> bool {
                sels.iter().all(|s| matches!(s, Sel::Field(f) if f.dirs.is_empty() && p(&f.sels)))
            }
            p(sels)
        };
        if !plain(&doc.op(opname).unwrap().sels) && diff(&sorted(got), &sorted(&want), "data").is_none() {
            return None;
        }
        Some(format!("{}\n got  {}\n want {}", d, got.to_string(), want.to_string()))
    }
    /// The answer of one server with all data.
    pub fn reference(&self, doc: &Doc, opname: Option<&str>, vars: &J, fail: Option<&dyn Fn(&str, &FieldDef) -> bool>) -> J {
        let op = doc.op(opname).unwrap();
        let mut v = View::new(self, None, doc, op, vars);
        v.fail = fail;
        let root = match op.kind.as_str() {
            "mutation" => "Mutation",
            "subscription" => "Subscription",
            _ => "Query",
        };
        match v.sels(&Node { ty: root.into(), id: 0, rep: None }, &[&op.sels]) {
            Ok(j) => j,
            Err(_) => J::Null,
        }
    }
    pub fn touched(&self, doc: &Doc, opname: Option<&str>, vars: &J) -> BTreeSet<(String, String)> {
        let op = doc.op(opname).unwrap();
        let mut v = View::new(self, None, doc, op, vars);
        v.track = true;
        let root = match op.kind.as_str() {
            "mutation" => "Mutation",
            "subscription" => "Subscription",
            _ => "Query",
        };
        let _ = v.sels(&Node { ty: root.into(), id: 0, rep: None }, &[&op.sels]);
        v.touched.into_inner()
    }
    /// What subgraph `s` answers; Err lists why the request is invalid for it.
    pub fn sub_exec(&self, s: usize, doc: &Doc, opname: Option<&str>, vars: &J) -> Result<(J, String), Vec<String>> {
        self.sub_exec_f(s, doc, opname, vars, None)
    }
    pub fn sub_exec_f(&self, s: usize, doc: &Doc, opname: Option<&str>, vars: &J, fail: Option<&dyn Fn(&str, &FieldDef) -> bool>) -> Result<(J, String), Vec<String>> {
        let op = match doc.op(opname) {
            Some(o) => o,
            None => return Err(vec!["no operation".into()]),
        };
        let mut v = View::new(self, Some(s), doc, op, vars);
        v.fail = fail;
        v.track = true;
        for d in &op.vars {
            if d.ty.nn() && d.default.is_none() && vars.get(&d.name).map(|x| x.is_null()).unwrap_or(true) {
                return Err(vec![format!("variable ${} of type {} has no value", d.name, d.ty.print())]);
            }
        }
        let mut used = BTreeSet::new();
        used_vars(&op.sels, &mut used);
        for f in doc.frags.values() {
            used_vars(&f.1, &mut used);
        }
        for u in &used {
            if !op.vars.iter().any(|d| d.name == *u) {
                return Err(vec![format!("variable ${} is not defined", u)]);
            }
        }
        let root = match op.kind.as_str() {
            "mutation" => "Mutation",
            "subscription" => "Subscription",
            _ => "Query",
        };
        // entity fetches at the root of a query
        let mut g: Grouped = vec![];
        let mut seen = BTreeSet::new();
        v.collect(root, &op.sels, &mut g, &mut seen, false);
        let mut out = vec![];
        for (key, fs) in g {
            let f = fs[0];
            if f.name == "_entities" && root == "Query" {
                let reps = f.args.iter().find(|a| a.0 == "representations").and_then(|a| to_json(&a.1, &v.vars)).unwrap_or(J::Null);
                let reps: Vec<J> = match reps {
                    J::Arr(a) => a,
                    _ => return Err(vec!["representations is not a list".into()]),
                };
                let sub: Vec<&[Sel]> = fs.iter().map(|f| &f.sels[..]).collect();
                let mut l = vec![];
                for r in &reps {
                    let ty = r.get("__typename").and_then(|t| t.str()).unwrap_or("").to_string();
                    match self.t(&ty) {
                        Some(t) if t.subs.iter().any(|x| x.0 == s && !x.1.is_empty()) => {
                            let keys = &t.subs.iter().find(|x| x.0 == s).unwrap().1;
                            if !keys.iter().any(|k| r.get(k).map(|x| !x.is_null()).unwrap_or(false)) {
                                v.bad.borrow_mut().push(format!("representation {} has none of the keys of {}", r.to_string(), ty));
                                continue;
                            }
                            match self.id_from(&ty, r) {
                                Some(id) => {
                                    let r: &J = r;
                                    let n = Node { ty, id, rep: Some(unsafe { &*(r as *const J) }) };
                                    l.push(v.sels(&n, &sub).unwrap_or(J::Null));
                                }
                                None => v.bad.borrow_mut().push(format!("representation {} names no entity", r.to_string())),
                            }
                        }
                        _ => v.bad.borrow_mut().push(format!("representation {} of a type that is no entity in {}", r.to_string(), self.subs[s].0)),
                    }
                }
                out.push((key, J::Arr(l)));
            } else {
                let one = [Sel::Field(Fld { alias: f.alias.clone(), name: f.name.clone(), args: f.args.clone(), dirs: vec![], sels: fs.iter().flat_map(|x| x.sels.clone()).collect() })];
                let one: &'static [Sel] = Box::leak(Box::new(one));
                let w = View { fed: self, sub: Some(s), vars: v.vars.clone(), doc, fail, bad: RefCell::new(vec![]), touched: RefCell::new(BTreeSet::new()), track: false, place_all: false };
                match w.sels(&Node { ty: root.into(), id: 0, rep: None }, &[one]) {
                    Ok(J::Obj(o)) => out.extend(o),
                    _ => return Ok((J::Null, op.kind.clone())),
                }
                v.bad.borrow_mut().extend(w.bad.into_inner());
            }
        }
        unsafe { LAST_TOUCHED = Some(v.touched.take()) };
        let bad = v.bad.into_inner();
        if bad.is_empty() {
            Ok((J::Obj(out), op.kind.clone()))
        } else {
            Err(bad)
        }
    }
}
static mut LAST_TOUCHED: Option<BTreeSet<(String, String)>> = None;
/// (type, field) pairs the subgraph request executed last resolved.
pub fn last_touched() -> BTreeSet<(String, String)> {
    unsafe { LAST_TOUCHED.take().unwrap_or_default() }
}
pub fn used_vars(s: &[Sel], o: &mut BTreeSet<String>) {
    fn val(v: &Val, o: &mut BTreeSet<String>) {
        match v {
            Val::Var(n) => {
                o.insert(n.clone());
            }
            Val::List(l) => l.iter().for_each(|x| val(x, o)),
            Val::Obj(l) => l.iter().for_each(|x| val(&x.1, o)),
            _ => {}
        }
    }
    for x in s {
        match x {
            Sel::Field(f) => {
                f.args.iter().for_each(|a| val(&a.1, o));
                f.dirs.iter().for_each(|d| d.args.iter().for_each(|a| val(&a.1, o)));
                used_vars(&f.sels, o);
            }
            Sel::Inline { dirs, sels, .. } => {
                dirs.iter().for_each(|d| d.args.iter().for_each(|a| val(&a.1, o)));
                used_vars(sels, o);
            }
            Sel::Spread { dirs, .. } => dirs.iter().for_each(|d| d.args.iter().for_each(|a| val(&a.1, o))),
        }
    }
}
