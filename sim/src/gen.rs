//! Random federated schemas and random valid operations over them.
use crate::fed::*;
use crate::gql::*;
use crate::json::J;
use crate::rng::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub subs: (u64, u64),
    pub entities: (u64, u64),
    pub fancy: bool,
    pub sku: bool,
    pub iface: bool,
    pub union: bool,
    pub requires: bool,
    pub provides: bool,
    pub args: bool,
    pub nonnull: u64, // percent of field types that are non-null
    pub mutation: bool,
    pub subscription: bool,
    pub who: bool, // fields that answer the propagated x-who header
    pub over: bool, // progressive @override labels
    pub share: u64, // percent of fields resolvable in two subgraphs
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { subs: (2, 4), entities: (2, 4), fancy: true, sku: true, iface: true, union: true, requires: true, provides: true, args: true, nonnull: 30, mutation: false, subscription: false, who: false, over: false, share: 15 }
    }
}
const SCALARS: [&str; 6] = ["String", "Int", "Float", "Boolean", "ID", "JSON"];

fn wrap(r: &mut Rng, base: &str, nn: u64, lists: bool) -> String {
    let q = |r: &mut Rng| if r.chance(nn, 100) { "!" } else { "" };
    if lists && r.chance(1, 3) {
        let a = q(r);
        let b = q(r);
        if r.chance(1, 8) {
            let c = q(r);
            return format!("[[{}{}]{}]{}", base, a, c, b);
        }
        format!("[{}{}]{}", base, a, b)
    } else {
        format!("{}{}", base, q(r))
    }
}
fn gen_args(r: &mut Rng, fed: &Fed) -> Vec<Arg> {
    let mut v = vec![];
    let n = 1 + r.below(2);
    for i in 0..n {
        let name = format!("{}{}", *r.pick(&["x", "first", "by"]), i);
        let has_in = fed.t("InA").is_some();
        let (ty, def): (&str, Option<Val>) = match r.below(8) {
            0 => ("Int", None),
            1 => ("Int", Some(Val::Int("5".into()))),
            2 => ("String", None),
            3 => ("String", Some(Val::Str("d\"q".into()))),
            4 => ("Boolean!", None),
            5 => ("[Int!]", None),
            6 if fed.t("En").is_some() => ("En", Some(Val::Enum("RED".into()))),
            7 if has_in => ("InA", None),
            _ => ("ID", None),
        };
        v.push(Arg { name, ty: Ty::parse(ty), default: def });
    }
    v
}

pub fn gen_fed(r: &mut Rng, c: &GenCfg) -> Fed {
    let ns = r.range(c.subs.0, c.subs.1) as usize;
    let mut fed = Fed { salt: r.next(), nids: 2 + r.below(6), fancy: c.fancy, ..Default::default() };
    for i in 0..ns {
        fed.subs.push((format!("s{}", i), format!("http://s{}.sub:80/graphql", i)));
    }
    let all: Vec<usize> = (0..ns).collect();
    let ne = r.range(c.entities.0, c.entities.1) as usize;
    let enames: Vec<String> = (0..ne).map(|i| format!("E{}", (b'a' + i as u8) as char)).collect();
    // roots first
    fed.add(TypeDef::new("Query", Kind::Obj, &all));
    if c.mutation {
        fed.add(TypeDef::new("Mutation", Kind::Obj, &all));
    }
    if c.subscription {
        fed.add(TypeDef::new("Subscription", Kind::Obj, &all));
    }
    let mut js = TypeDef::new("JSON", Kind::Scalar, &all);
    js.extra = String::new();
    fed.add(js);
    if r.chance(2, 3) {
        fed.add(TypeDef::new("En", Kind::Enum(vec!["RED".into(), "GREEN".into(), "BLUE".into()]), &all));
    }
    if r.chance(2, 3) {
        let mut t = TypeDef::new("InA", Kind::Input, &all);
        let mut a = FieldDef::new("a", "Int", &all);
        a.default = Some(Val::Int("3".into()));
        t.fields.push(a);
        t.fields.push(FieldDef::new("b", "String", &all));
        t.fields.push(FieldDef::new("c", "[Int!]", &all));
        fed.add(t);
    }
    // entity types
    for n in &enames {
        let mut gs = all.clone();
        r.shuffle(&mut gs);
        let k = if ns <= 2 { ns } else { r.range(2, ns as u64) as usize };
        gs.truncate(k);
        gs.sort();
        let mut t = TypeDef::new(n, Kind::Obj, &gs);
        let sku = c.sku && r.chance(1, 3);
        for (i, s) in t.subs.iter_mut().enumerate() {
            if sku && k >= 2 {
                // the first graph knows both keys, the others one of them
                if i == 0 {
                    s.1 = vec!["id".into(), "sku".into()];
                } else if i == k - 1 {
                    s.1 = vec!["sku".into()];
                } else {
                    s.1 = vec!["id".into()];
                }
            } else {
                s.1 = vec!["id".into()];
            }
        }
        let with = |t: &TypeDef, k: &str| t.subs.iter().filter(|s| s.1.iter().any(|x| x == k)).map(|s| s.0).collect::<Vec<_>>();
        let idg = with(&t, "id");
        t.fields.push(FieldDef::new("id", "ID!", &idg));
        let sg = with(&t, "sku");
        if !sg.is_empty() {
            t.fields.push(FieldDef::new("sku", "String!", &sg));
        }
        fed.add(t);
    }
    // interface over entities that have `id` everywhere
    let mut iface = false;
    if c.iface && r.chance(2, 3) {
        let m: Vec<String> = enames.iter().filter(|n| fed.t(n).unwrap().field("sku").is_none()).cloned().collect();
        if m.len() >= 2 {
            iface = true;
            let mut gs: Vec<usize> = m.iter().flat_map(|n| fed.t(n).unwrap().subs.iter().map(|s| s.0).collect::<Vec<_>>()).collect();
            gs.sort();
            gs.dedup();
            let mut t = TypeDef::new("Nd", Kind::Iface, &gs);
            t.fields.push(FieldDef::new("id", "ID!", &gs));
            let label = r.chance(1, 2);
            if label {
                t.fields.push(FieldDef::new("label", "String", &gs));
            }
            for n in &m {
                let tt = fed.tm(n);
                tt.ifaces.push("Nd".into());
                if label {
                    let g: Vec<usize> = tt.subs.iter().map(|s| s.0).collect();
                    tt.fields.push(FieldDef::new("label", "String", &g));
                }
            }
            fed.add(t);
        }
    }
    let mut un = false;
    if c.union && enames.len() >= 2 && r.chance(1, 2) {
        let m: Vec<String> = enames.iter().take(3).cloned().collect();
        let mut gs: Vec<usize> = m.iter().flat_map(|n| fed.t(n).unwrap().subs.iter().map(|s| s.0).collect::<Vec<_>>()).collect();
        gs.sort();
        gs.dedup();
        fed.add(TypeDef::new("Un", Kind::Union(m), &gs));
        un = true;
    }
    // value type, the same everywhere
    let val = r.chance(2, 3);
    if val {
        let mut t = TypeDef::new("Va", Kind::Obj, &all);
        for i in 0..(1 + r.below(3)) {
            let s = *r.pick(&SCALARS);
            let w = wrap(r, s, c.nonnull, true);
            t.fields.push(FieldDef::new(&format!("v{}", i), &w, &all));
        }
        fed.add(t);
    }
    // fields of entities
    for n in &enames {
        let gs: Vec<usize> = fed.t(n).unwrap().subs.iter().map(|s| s.0).collect();
        let nf = 3 + r.below(5);
        for i in 0..nf {
            let mut owners = vec![*r.pick(&gs)];
            if r.chance(c.share, 100) {
                let o2 = *r.pick(&gs);
                if !owners.contains(&o2) {
                    owners.push(o2);
                    owners.sort();
                }
            }
            let over = c.over && owners.len() == 1 && gs.len() > 1 && r.chance(1, 2);
            if over {
                let rest: Vec<usize> = gs.iter().copied().filter(|x| *x != owners[0]).collect();
                owners.push(*r.pick(&rest));
            }
            let mut f = gen_field(r, c, &fed, &format!("f{}", i), &owners, &enames, iface, un, val);
            if over {
                f.owners.truncate(1);
                f.over = Some((owners[0], owners[1], gen_label(r)));
            }
            fed.tm(n).fields.push(f);
        }
    }
    // @requires
    if c.requires {
        for n in &enames {
            if !r.chance(1, 2) {
                continue;
            }
            let t = fed.t(n).unwrap().clone();
            // with several keys the planner often fails (known finding): keep it rare
            let odd = false;
            if t.field("sku").is_some() && !odd {
                continue;
            }
            let gs: Vec<usize> = t.subs.iter().map(|s| s.0).collect();
            let g = *r.pick(&gs);
            let cand: Vec<&FieldDef> = t.fields.iter().filter(|f| f.args.is_empty() && !f.owners.contains(&g) && (f.owners.len() == 1 || odd) && f.name != "id" && f.name != "sku" && !fed.composite(f.ty.name())).collect();
            if cand.is_empty() {
                continue;
            }
            let mut names: Vec<String> = vec![r.pick(&cand).name.clone()];
            if cand.len() > 1 && r.chance(1, 2) {
                let x = r.pick(&cand).name.clone();
                if !names.contains(&x) {
                    names.push(x);
                }
            }
            let mut set = names.join(" ");
            let vcand: Vec<&FieldDef> = t.fields.iter().filter(|f| f.args.is_empty() && !f.owners.contains(&g) && f.ty.name() == "Va").collect();
            if val && !vcand.is_empty() && r.chance(1, 2) {
                let x = r.pick(&vcand).name.clone();
                set = format!("{} {} {{ v0 }}", set, x);
                names.push(x);
            }
            let tt = fed.tm(n);
            for x in &names {
                let f = tt.fields.iter_mut().find(|f| f.name == *x).unwrap();
                if !f.external.contains(&g) {
                    f.external.push(g);
                }
            }
            let mut f = FieldDef::new("rq", if r.chance(1, 3) { "Int" } else { "String" }, &[g]);
            f.requires = Some((g, set));
            tt.fields.push(f);
        }
    }
    // roots
    let nq = 3 + r.below(4);
    for i in 0..nq {
        let g = vec![*r.pick(&all)];
        let mut g = g;
        if c.over && ns > 1 && r.chance(1, 3) {
            g.push((g[0] + 1) % ns);
        }
        let mut f = gen_field(r, c, &fed, &format!("q{}", i), &g, &enames, iface, un, val);
        if g.len() > 1 {
            f.owners.truncate(1);
            f.over = Some((g[0], g[1], gen_label(r)));
        }
        fed.tm("Query").fields.push(f);
    }
    // every schema has at least one way to an entity
    let n0 = enames[0].clone();
    let g0 = fed.t(&n0).unwrap().subs[0].0;
    let w = wrap(r, &n0, c.nonnull / 2, false);
    fed.tm("Query").fields.push(FieldDef::new("one", &w, &[g0]));
    let w = format!("[{}]", n0);
    fed.tm("Query").fields.push(FieldDef::new("many", &w, &[g0]));
    // @provides on root fields
    if c.provides && r.chance(1, 2) {
        let t = fed.t(&n0).unwrap().clone();
        let cand: Vec<String> = t.fields.iter().filter(|f| f.args.is_empty() && f.requires.is_none() && !f.owners.contains(&g0) && f.name != "id" && f.name != "sku" && !fed.composite(f.ty.name())).map(|f| f.name.clone()).collect();
        if !cand.is_empty() {
            let x = r.pick(&cand).clone();
            let f = fed.tm(&n0).fields.iter_mut().find(|f| f.name == x).unwrap();
            if !f.external.contains(&g0) {
                f.external.push(g0);
            }
            let q = fed.tm("Query").fields.iter_mut().find(|f| f.name == "one").unwrap();
            q.provides.push((g0, x));
        }
    }
    if c.who {
        for g in &all {
            let f = FieldDef::new(&format!("who{}", g), "String", &[*g]);
            fed.tm("Query").fields.push(f);
            let f = FieldDef::new(&format!("tick{}", g), "Float", &[*g]);
            fed.tm("Query").fields.push(f);
        }
        for n in &enames {
            let g = r.pick(&fed.t(n).unwrap().subs).0;
            let f = FieldDef::new("who", "String", &[g]);
            fed.tm(n).fields.push(f);
        }
    }
    if c.mutation {
        for i in 0..(2 + r.below(3)) {
            let g = vec![*r.pick(&all)];
            let mut f = gen_field(r, c, &fed, &format!("m{}", i), &g, &enames, iface, un, val);
            if f.args.is_empty() && r.chance(1, 2) {
                f.args = gen_args(r, &fed);
            }
            fed.tm("Mutation").fields.push(f);
        }
    }
    if c.subscription {
        for i in 0..(1 + r.below(2)) {
            let n = r.pick(&enames).clone();
            let g = r.pick(&fed.t(&n).unwrap().subs).0;
            let mut f = FieldDef::new(&format!("ev{}", i), &format!("{}!", n), &[g]);
            if r.chance(1, 3) {
                f.args = gen_args(r, &fed);
            }
            fed.tm("Subscription").fields.push(f);
        }
    }
    fed
}

/// A label of a progressive override.
fn gen_label(r: &mut Rng) -> Option<String> {
    Some(match r.below(6) {
        0 => "percent(0)".into(),
        1 => "percent(100)".into(),
        2 => "percent(50)".into(),
        3 => format!("percent({})", r.pick(&["25", "75", "30.5", "0.00000001", "99.99999999"])),
        4 => "flag-a".into(),
        _ => "flag-b".into(),
    })
}

fn gen_field(r: &mut Rng, c: &GenCfg, fed: &Fed, name: &str, owners: &[usize], enames: &[String], iface: bool, un: bool, val: bool) -> FieldDef {
    let here = |n: &str| owners.iter().all(|o| fed.t(n).unwrap().in_sub(*o));
    let ents: Vec<&String> = enames.iter().filter(|n| here(n)).collect();
    let roll = r.below(10);
    let base: String = if roll < 3 && !ents.is_empty() {
        r.pick(&ents).to_string()
    } else if roll == 3 && iface && here("Nd") && !fed.possible("Nd", None).iter().filter(|t| here(t)).next().is_none() {
        "Nd".into()
    } else if roll == 4 && un && here("Un") && !fed.possible("Un", None).iter().filter(|t| here(t)).next().is_none() {
        "Un".into()
    } else if roll == 5 && val {
        "Va".into()
    } else if roll == 6 && fed.t("En").is_some() {
        "En".into()
    } else if name.starts_with('q') && !ents.is_empty() && r.chance(2, 3) {
        r.pick(&ents).to_string()
    } else {
        r.pick(&SCALARS).to_string()
    };
    let w = wrap(r, &base, c.nonnull, true);
    let mut f = FieldDef::new(name, &w, owners);
    if c.args && r.chance(1, 4) {
        f.args = gen_args(r, fed);
    }
    f
}

// ---------------------------------------------------------------- operations
pub struct QGen<'a> {
    pub r: Rng,
    pub fed: &'a Fed,
    pub vars: Vec<VarDef>,
    pub values: Vec<(String, J)>,
    pub frags: BTreeMap<String, (String, Vec<Sel>)>,
    sig: BTreeMap<String, String>,
    budget: i64,
    pub simple: bool,
    no_rq: bool,
    deep_rq: bool,
    no_cond: bool,
    pub frag_names: u64,
}
#[derive(Clone, Debug)]
pub struct GenOp {
    pub doc: Doc,
    pub text: String,
    pub opname: Option<String>,
    pub vars: J,
}
impl<'a> QGen<'a> {
    pub fn new(r: Rng, fed: &'a Fed) -> QGen<'a> {
        QGen { r, fed, vars: vec![], values: vec![], frags: BTreeMap::new(), sig: BTreeMap::new(), budget: 0, simple: false, no_rq: false, deep_rq: false, no_cond: false, frag_names: 0 }
    }
    pub fn op(mut self, kind: &str, size: i64) -> GenOp {
        // shapes with known findings are generated in odd mode only
        for _ in 0..if odd_mode() { 400 } else { 20 } {
            let q = QGen { r: Rng::new(self.r.next()), fed: self.fed, simple: self.simple, ..QGen::new(Rng::new(0), self.fed) };
            let g = q.op1(kind, size);
            let want = match crate::run::r().o.seed {
                700..=849 => g.odd() == Some("requires-nested"),
                850..=999 => g.odd() == Some("conditional-duplicate-field"),
                _ => odd_mode() == g.odd().is_some(),
            };
            if want {
                return g;
            }
        }
        self.simple = true;
        self.op1(kind, size)
    }
    fn op1(mut self, kind: &str, size: i64) -> GenOp {
        // a @requires field together with @skip/@include is a known finding: keep it rare
        self.deep_rq = odd_mode() && self.r.chance(1, 4);
        match if odd_mode() { 0 } else { 1 + self.r.below(119) } {
            0 => {}
            x if x % 2 == 0 => self.no_rq = true,
            _ => self.no_cond = true,
        }
        self.budget = size;
        let root = match kind {
            "mutation" => "Mutation",
            "subscription" => "Subscription",
            _ => "Query",
        };
        let mut sels = if kind == "subscription" { self.sub_root() } else { self.sels(root, 0, "") };
        if kind == "mutation" {
            sels.retain(|s| matches!(s, Sel::Field(f) if f.name != "__typename"));
            if sels.is_empty() {
                let f = self.fed.t("Mutation").unwrap().fields[0].clone();
                sels.push(self.field(&f, "Mutation", 0, "", "forced"));
            }
        }
        if kind != "query" {
            // what only the dropped fields used
            loop {
                let mut names = std::collections::BTreeSet::new();
                spreads(&sels, &mut names);
                for (_, s) in self.frags.values() {
                    spreads(s, &mut names);
                }
                let n = self.frags.len();
                self.frags.retain(|k, _| names.contains(k));
                if n == self.frags.len() {
                    break;
                }
            }
            let mut used = std::collections::BTreeSet::new();
            crate::fed::used_vars(&sels, &mut used);
            for (_, s) in self.frags.values() {
                crate::fed::used_vars(s, &mut used);
            }
            self.vars.retain(|v| used.contains(&v.name));
            self.values.retain(|v| used.contains(&v.0));
        }
        let name = if self.r.chance(2, 3) { Some(format!("Op{}", self.r.below(5))) } else { None };
        let mut doc = Doc::default();
        doc.frags = std::mem::take(&mut self.frags);
        doc.ops.push(Op { kind: kind.into(), name: name.clone(), vars: std::mem::take(&mut self.vars), dirs: vec![], sels });
        let mut opname = None;
        if name.is_some() && !self.simple && doc.frags.is_empty() && self.r.chance(1, 6) && kind == "query" {
            // a second operation in the same document
            let other = Op { kind: "query".into(), name: Some("Other".into()), vars: vec![], dirs: vec![], sels: vec![Sel::Field(Fld::new("__typename"))] };
            if self.r.chance(1, 2) {
                doc.ops.insert(0, other);
            } else {
                doc.ops.push(other);
            }
            opname = name.clone();
        } else if name.is_some() && self.r.chance(1, 2) {
            opname = name.clone();
        }
        let mut text = doc.print();
        if self.r.chance(1, 8) {
            text = format!("# comment {}\n{}", self.r.below(3), text.replace(" {", "\n{"));
        }
        GenOp { doc, text, opname, vars: J::Obj(self.values) }
    }
    fn sub_root(&mut self) -> Vec<Sel> {
        let t = self.fed.t("Subscription").unwrap();
        let f = self.r.pick(&t.fields).clone();
        vec![self.field(&f, "Subscription", 0, "", "")]
    }
    fn cond_dir(&mut self) -> Vec<Dir> {
        if self.simple || self.no_cond || !self.r.chance(1, 7) {
            return vec![];
        }
        let name = if self.r.chance(1, 2) { "include" } else { "skip" };
        let v = if self.r.chance(1, 3) {
            Val::Bool(self.r.chance(1, 2))
        } else {
            // reuse a boolean variable now and then
            let bools: Vec<String> = self.vars.iter().filter(|v| v.ty.print() == "Boolean!").map(|v| v.name.clone()).collect();
            if !bools.is_empty() && self.r.chance(1, 2) {
                Val::Var(self.r.pick(&bools).clone())
            } else {
                let b = J::Bool(self.r.chance(1, 2));
                self.new_var(Ty::parse("Boolean!"), b)
            }
        };
        vec![Dir { name: name.into(), args: vec![("if".into(), v)] }]
    }
    fn new_var(&mut self, ty: Ty, v: J) -> Val {
        let n = format!("v{}", self.vars.len());
        let def = None;
        self.vars.push(VarDef { name: n.clone(), ty, default: def });
        self.values.push((n.clone(), v));
        Val::Var(n)
    }
    fn arg_json(&mut self, ty: &Ty) -> J {
        match ty {
            Ty::NN(t) => loop {
                let j = self.arg_json(t);
                if !j.is_null() {
                    return j;
                }
            },
            _ if self.r.chance(1, 8) => J::Null,
            Ty::L(t) => J::Arr((0..self.r.below(3)).map(|_| self.arg_json(t)).collect()),
            Ty::N(n) => match n.as_str() {
                "Int" => J::i(self.r.range(0, 20) as i64 - 5),
                "String" => J::s(*self.r.pick(&["", "x", "q\"", "ü", "$v", "a,b"])),
                "ID" => J::s(&format!("k{}", self.r.below(5))),
                "Boolean" => J::Bool(self.r.chance(1, 2)),
                "En" => J::s(*self.r.pick(&["RED", "GREEN", "BLUE"])),
                "InA" => {
                    let mut o = vec![];
                    if self.r.chance(1, 2) {
                        o.push(("a".to_string(), J::i(self.r.below(9) as i64)));
                    }
                    if self.r.chance(1, 2) {
                        o.push(("b".to_string(), J::s("bb")));
                    }
                    if self.r.chance(1, 2) {
                        o.push(("c".to_string(), J::Arr(vec![J::i(1), J::i(2)])));
                    }
                    J::Obj(o)
                }
                _ => J::Null,
            },
        }
    }
    fn lit(&self, j: &J, ty: &Ty) -> Val {
        match (ty, j) {
            (Ty::NN(t), _) => self.lit(j, t),
            (Ty::L(t), J::Arr(a)) => Val::List(a.iter().map(|x| self.lit(x, t)).collect()),
            (Ty::N(n), J::Str(s)) if matches!(self.fed.t(n).map(|t| &t.kind), Some(Kind::Enum(_))) => Val::Enum(s.clone()),
            (Ty::N(n), J::Obj(o)) => {
                let t = self.fed.t(n);
                Val::Obj(o.iter().map(|(k, v)| (k.clone(), match t.and_then(|t| t.field(k)) {
                    Some(f) => self.lit(v, &f.ty),
                    None => from_json(v),
                })).collect())
            }
            _ => from_json(j),
        }
    }
    fn field(&mut self, f: &FieldDef, parent: &str, depth: u32, path: &str, tag: &str) -> Sel {
        let mut x = Fld::new(&f.name);
        for a in &f.args {
            let need = a.ty.nn() && a.default.is_none();
            if !need && self.r.chance(1, 3) {
                continue;
            }
            let j = self.arg_json(&a.ty);
            if !self.simple && self.r.chance(2, 5) {
                // a variable; sometimes without a value but with a default, sometimes plainly absent
                let mut ty = a.ty.clone();
                let v = if !need && self.r.chance(1, 6) {
                    let n = format!("v{}", self.vars.len());
                    self.vars.push(VarDef { name: n.clone(), ty, default: None });
                    Val::Var(n)
                } else if !j.is_null() && self.r.chance(1, 5) {
                    let n = format!("v{}", self.vars.len());
                    if let Ty::NN(t) = ty {
                        ty = *t;
                    }
                    if need {
                        let d = self.lit(&j, &a.ty);
                        self.vars.push(VarDef { name: n.clone(), ty, default: Some(d) });
                    } else {
                        let d = self.lit(&j, &ty);
                        self.vars.push(VarDef { name: n.clone(), ty, default: Some(d) });
                        if self.r.chance(1, 2) {
                            let k = loop {
                                let k = self.arg_json(&a.ty);
                                if !k.is_null() {
                                    break k;
                                }
                            };
                            self.values.push((n.clone(), k));
                        }
                    }
                    Val::Var(n)
                } else {
                    // null for a nullable type is fine
                    self.new_var(ty, j)
                };
                x.args.push((a.name.clone(), v));
            } else {
                let v = self.lit(&j, &a.ty);
                x.args.push((a.name.clone(), v));
            }
        }
        if x.args.len() > 1 && self.r.chance(1, 3) {
            x.args.reverse();
        }
        let mut sig = String::new();
        psels(&[Sel::Field(x.clone())], &mut sig);
        sig += &f.ty.print();
        // a free response key that does not conflict
        let mut key = if self.r.chance(1, 5) { format!("a{}", self.r.below(4)) } else { f.name.clone() };
        if !x.args.is_empty() {
            key = format!("{}_{}", key, hs(&sig) % 97);
        }
        let mut i = 0;
        loop {
            let p = format!("{}/{}", path, key);
            match self.sig.get(&p) {
                Some(s) if *s != sig => {
                    i += 1;
                    key = format!("{}_{}{}", f.name, i, parent);
                }
                _ => {
                    self.sig.insert(p, sig.clone());
                    break;
                }
            }
        }
        let _ = tag;
        if key != f.name {
            x.alias = Some(key.clone());
        }
        x.dirs = self.cond_dir();
        if parent == "Mutation" || parent == "Subscription" {
            x.dirs = vec![];
        }
        if self.fed.composite(f.ty.name()) {
            let p = format!("{}/{}", path, key);
            x.sels = self.sels(f.ty.name(), depth + 1, &p);
        }
        Sel::Field(x)
    }
    fn sels(&mut self, ty: &str, depth: u32, path: &str) -> Vec<Sel> {
        let mut out = vec![];
        let t = self.fed.t(ty).unwrap();
        let kind = t.kind.clone();
        let n = if ty == "Mutation" { 1 + self.r.below(5) } else if depth == 0 { 1 + self.r.below(3) } else { 1 + self.r.below(4) };
        if self.r.chance(1, 6) || matches!(kind, Kind::Union(_)) && self.r.chance(1, 2) {
            let mut f = Fld::new("__typename");
            let k = if self.r.chance(1, 5) { "tn".to_string() } else { "__typename".to_string() };
            let p = format!("{}/{}", path, k);
            if self.sig.get(&p).map(|s| s == "__typename").unwrap_or(true) {
                self.sig.insert(p, "__typename".into());
                if k != "__typename" {
                    f.alias = Some(k);
                }
                out.push(Sel::Field(f));
            }
        }
        if !t.fields.is_empty() {
            for _ in 0..n {
                if self.budget <= 0 && !out.is_empty() {
                    break;
                }
                let leafs: Vec<FieldDef> = t.fields.iter().filter(|f| depth < 4 && self.budget > 0 || !self.fed.composite(f.ty.name())).filter(|f| !f.name.starts_with("tick")).filter(|f| f.name != "rq" || !self.no_rq && (depth < 2 || self.deep_rq)).cloned().collect();
                if leafs.is_empty() {
                    break;
                }
                self.budget -= 1;
                let f = self.r.pick(&leafs).clone();
                let s = self.field(&f, ty, depth, path, "");
                out.push(self.maybe_wrap(s, ty));
            }
        }
        if matches!(kind, Kind::Iface | Kind::Union(_)) {
            for c in self.fed.possible(ty, None) {
                if self.r.chance(1, 2) && depth < 5 {
                    let sub = self.sels(&c, depth + 1, path);
                    let dirs = self.cond_dir();
                    out.push(Sel::Inline { cond: Some(c), dirs, sels: sub });
                }
            }
        }
        if out.is_empty() {
            let mut f = Fld::new("__typename");
            let p = format!("{}/__typename", path);
            self.sig.insert(p, "__typename".into());
            f.alias = None;
            out.push(Sel::Field(f));
        }
        out
    }
    fn maybe_wrap(&mut self, s: Sel, ty: &str) -> Sel {
        if self.simple || ty == "Mutation" || ty == "Subscription" {
            return s;
        }
        match self.r.below(14) {
            0 => Sel::Inline { cond: None, dirs: self.cond_dir(), sels: vec![s] },
            1 => Sel::Inline { cond: Some(ty.to_string()), dirs: self.cond_dir(), sels: vec![s] },
            2 | 3 => {
                let n = format!("F{}", self.frag_names);
                self.frag_names += 1;
                self.frags.insert(n.clone(), (ty.to_string(), vec![s]));
                Sel::Spread { name: n, dirs: self.cond_dir() }
            }
            _ => s,
        }
    }
}
impl GenOp {
    /// The known finding (known_findings.txt) this operation may run into, by its shape.
    pub fn odd(&self) -> Option<&'static str> {
        let has = |x: &str| self.text.contains(x);
        let fr = &self.doc.frags;
        for o in &self.doc.ops {
            if lit_empty(&o.sels, fr) {
                return Some("literal-skip-empty-operation");
            }
        }
        if has("rq") && (has("@include") || has("@skip")) {
            return Some("requires-with-conditions");
        }
        if has("rq") && has("... on E") {
            return Some("requires-in-type-condition");
        }
        if (has("@include") || has("@skip")) && has("... on E") {
            return Some("conditions-with-type-conditions");
        }
        for o in &self.doc.ops {
            if rq_nested(&o.sels, fr, 0) {
                return Some("requires-nested");
            }
            if cond_nested(&o.sels, fr, false) {
                return Some("nested-conditions");
            }
        }
        None
    }
    /// Also asks subgraph `s` for its clock, under the response key tk.
    pub fn with_tick(mut self, s: usize) -> GenOp {
        let name = self.opname.clone();
        let i = match name {
            Some(n) => self.doc.ops.iter().position(|o| o.name.as_deref() == Some(&n)).unwrap(),
            None => 0,
        };
        let mut f = Fld::new(&format!("tick{}", s));
        f.alias = Some("tk".into());
        self.doc.ops[i].sels.push(Sel::Field(f));
        self.text = self.doc.print();
        self
    }
    pub fn from_text(text: &str, vars: J) -> GenOp {
        GenOp { doc: parse(text).unwrap(), text: text.into(), opname: None, vars }
    }
    pub fn body(&self) -> String {
        let mut o = vec![("query".to_string(), J::s(&self.text))];
        if let Some(n) = &self.opname {
            o.push(("operationName".into(), J::s(n)));
        }
        if !matches!(&self.vars, J::Obj(v) if v.is_empty()) {
            o.push(("variables".into(), self.vars.clone()));
        }
        J::Obj(o).to_string()
    }
}

/// Seeds below 1000 generate only operations of the shapes known to fail.
pub fn odd_mode() -> bool {
    crate::run::r().o.seed < 1000
}

fn spreads(s: &[Sel], o: &mut std::collections::BTreeSet<String>) {
    for x in s {
        match x {
            Sel::Field(f) => spreads(&f.sels, o),
            Sel::Inline { sels, .. } => spreads(sels, o),
            Sel::Spread { name, .. } => {
                o.insert(name.clone());
            }
        }
    }
}
