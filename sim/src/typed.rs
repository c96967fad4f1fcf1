//! Schemas and documents that typed clients (bluejay-typegen) are generated for, and the Rust source of those clients.
//! The names come with the Rust name the documentation gives them (PascalCase types, snake_case fields).
use crate::model::*;
use crate::refval;
use crate::tape::Tape;
use serde_json::Value as V;
use std::fmt::Write as _;

/// (GraphQL name, Rust name)
type Pool = &'static [(&'static str, &'static str)];
const TYPES: Pool = &[
    ("Thing", "Thing"),
    ("blog_post", "BlogPost"),
    ("HTTPServer", "HttpServer"),
    ("Option", "Option"),
    ("Result", "Result"),
    ("Vec", "Vec"),
    ("Box", "Box"),
    ("userID", "UserId"),
    ("_Under", "Under"),
    ("X", "X"),
    ("Some", "Some"),
    ("Clone", "Clone"),
    ("Cow", "Cow"),
    ("Str", "Str"),
    ("Serialize", "Serialize"),
    ("Visitor", "Visitor"),
    ("Map", "Map"),
    ("Place", "Place"),
    ("Node", "Node"),
    ("Money", "Money"),
    ("LONG_NAME", "LongName"),
    ("query_", "Query"),
    ("camelCase", "CamelCase"),
    ("Debug", "Debug"),
    ("A", "A"),
    ("B", "B"),
    ("I32", "I32"),
    ("StringBuilder", "StringBuilder"),
    ("Error", "Error"),
    ("thingBuilder", "ThingBuilder"),
];
const FIELDS: Pool = &[
    ("name", "name"),
    ("firstName", "first_name"),
    ("type", "r#type"),
    ("match", "r#match"),
    ("async", "r#async"),
    ("ID", "id"),
    ("URL", "url"),
    ("_private", "private"),
    ("is_ok", "is_ok"),
    ("out", "out"),
    ("state", "state"),
    ("data", "data"),
    ("k", "k"),
    ("s", "s"),
    ("visited", "visited"),
    ("union", "r#union"),
    ("box", "r#box"),
    ("value", "value"),
    ("node", "node"),
    ("items", "items"),
    ("SHOUT", "shout"),
    ("a", "a"),
    ("b", "b"),
    ("deep_node", "deep_node"),
    ("in", "r#in"),
    ("on", "on"),
    ("query", "query"),
    ("builder", "builder"),
    ("try", "r#try"),
    ("Some", "some"),
    ("size_", "size"),
    ("item__count", "item_count"),
    ("httpURL", "http_url"),
    ("Sort_", "sort"),
];
const VALUES: Pool = &[
    ("RED", "Red"),
    ("DARK_BLUE", "DarkBlue"),
    ("green", "Green"),
    ("NONE", "None"),
    ("SOME", "Some"),
    ("OK", "Ok"),
    ("ERR", "Err"),
    ("type", "Type"),
    ("camelCase", "CamelCase"),
    ("_Z", "Z"),
    ("on", "On"),
    ("Mixed_CASE", "MixedCase"),
    ("LAST_", "Last"),
    ("V_2", "V2"),
];
const DEFS: Pool = &[
    ("GetThing", "GetThing"),
    ("getNode", "GetNode"),
    ("list_items", "ListItems"),
    ("Q", "Q"),
    ("F", "F"),
    ("Details", "Details"),
    ("detailsBuilder", "DetailsBuilder"),
    ("PartOne", "PartOne"),
    ("part2", "Part2"),
    ("All", "All"),
    ("Option", "Option"),
    ("Some", "Some"),
    ("Inner", "Inner"),
    ("OUTER", "Outer"),
    ("GetBuilder", "GetBuilder"),
    ("two__parts_", "TwoParts"),
    ("String", "String"),
];

/// the Rust type documented for an input, as far as options and lists go
fn shape(ty: &Ty) -> String {
    let inner = match ty {
        Ty::List(i, _) => format!("::std::vec::Vec<{}>", shape(i)),
        Ty::Named(..) => "_".to_string(),
    };
    if ty.required() {
        inner
    } else {
        format!("::std::option::Option<{inner}>")
    }
}

pub fn norm(s: &str) -> String {
    s.trim_start_matches("r#").chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}
fn rust(p: Pool, n: &str) -> &'static str {
    p.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| panic!("no rust name for {n}"))
}
fn take(t: &mut Tape, p: Pool, n: usize) -> Vec<String> {
    let mut v: Vec<&str> = p.iter().map(|x| x.0).collect();
    t.shuffle(&mut v);
    let mut seen: Vec<String> = vec![];
    v.retain(|x| {
        let k = norm(x);
        let new = !seen.contains(&k);
        seen.push(k);
        new
    });
    v.into_iter().take(n).map(String::from).collect()
}

pub const ALIASES: [&str; 3] = ["text", "long", "texts"];

pub struct CaseSrc {
    pub schema: Schema,
    pub docs: Vec<Doc>,
    /// custom scalar -> what the client reads it as
    pub aliases: Vec<(String, &'static str)>,
}

fn wrap(t: &mut Tape, base: &str) -> Ty {
    let r = t.chance(1, 2);
    let b = Ty::Named(base.into(), r);
    match t.pick(8) {
        0 | 1 => Ty::List(Box::new(b), t.chance(1, 2)),
        2 => Ty::List(Box::new(Ty::List(Box::new(b), t.chance(1, 2))), t.chance(1, 2)),
        _ => b,
    }
}
fn text(t: &mut Tape) -> String {
    (*t.choose(&["", "a", "two words", "with \"quotes\" and \\", "line\nbreak\ttab", "é🔥\u{1}", "null", "</>&"])).to_string()
}
fn descr(t: &mut Tape, plain: bool) -> Option<String> {
    t.chance(1, 4).then(|| if plain { "A thing".to_string() } else { (*t.choose(&["A thing", "two\nlines", "\"quoted\" \\ `code` # {x}", "ends with */ and 'q'", " é🔥 "])).to_string() })
}

/// A value of an input type, as JSON: the way the typed client holds it (lists are lists).
pub fn gen_input(t: &mut Tape, s: &Schema, al: &dyn Fn(&str) -> &'static str, ty: &Ty, depth: usize) -> V {
    if !ty.required() && (depth == 0 || t.chance(1, 4)) {
        return V::Null;
    }
    match ty {
        Ty::List(i, _) => {
            let n = if depth == 0 { 0 } else { t.pick(4) };
            V::Array((0..n).map(|_| gen_input(t, s, al, i, depth - 1)).collect())
        }
        Ty::Named(n, _) => gen_base(t, s, al, n, depth),
    }
}
pub fn gen_base(t: &mut Tape, s: &Schema, al: &dyn Fn(&str) -> &'static str, n: &str, depth: usize) -> V {
    match n {
        "Int" => V::from(*t.choose(&[0, 1, -1, 7, i32::MAX, i32::MIN])),
        "Float" => V::from(*t.choose(&[0.5, -2.25, 3.0, 1e10, 0.0])),
        "Boolean" => V::from(t.chance(1, 2)),
        "String" | "ID" => V::from(text(t)),
        _ => match &s.ty(n).unwrap().kind {
            Kind::Enum(vs) => V::from(t.choose(vs).name.clone()),
            Kind::Input(fs) => {
                let mut m = serde_json::Map::new();
                if s.ty(n).unwrap().one_of() {
                    let k = if depth == 0 { fs.iter().position(|f| s.is_leaf(f.ty.base()) && f.ty.depth() == 0).unwrap_or(0) } else { t.pick(fs.len()) };
                    let f = &fs[k];
                    m.insert(f.name.clone(), gen_input(t, s, al, &f.ty.with_req(true), depth.saturating_sub(1)));
                } else {
                    for f in fs {
                        let ty = if f.default.is_some() { f.ty.with_req(false) } else { f.ty.clone() };
                        let v = gen_input(t, s, al, &ty, depth.saturating_sub(1));
                        if !v.is_null() || t.chance(1, 2) {
                            m.insert(f.name.clone(), v);
                        }
                    }
                }
                V::Object(m)
            }
            _ => match al(n) {
                "text" => V::from(text(t)),
                "long" => V::from(*t.choose(&[0i64, -5, 1 << 40])),
                _ => V::Array((0..t.pick(3)).map(|_| V::from(text(t))).collect()),
            },
        },
    }
}
/// the same as a constant in a document
fn lit(s: &Schema, ty: &Ty, v: &V) -> Val {
    match (ty, v) {
        (_, V::Null) => Val::Null,
        (Ty::List(i, _), V::Array(l)) => Val::List(l.iter().map(|x| lit(s, i, x)).collect()),
        (Ty::Named(n, _), _) => match (s.ty(n).map(|t| &t.kind), v) {
            (Some(Kind::Input(fs)), V::Object(o)) => Val::Obj(o.iter().filter_map(|(k, x)| {
                let f = fs.iter().find(|f| f.name == *k).unwrap();
                (!(x.is_null() && f.ty.required())).then(|| (k.clone(), lit(s, &f.ty, x)))
            }).collect()),
            (Some(Kind::Enum(_)), V::String(x)) => Val::Enum(x.clone()),
            (_, V::String(x)) => Val::Str(x.clone()),
            (_, V::Bool(b)) => Val::Bool(*b),
            (_, V::Number(x)) => match x.as_i64().and_then(|i| i32::try_from(i).ok()) {
                Some(i) => Val::Int(i),
                None => Val::Float(x.as_f64().unwrap()),
            },
            (_, V::Array(l)) => Val::List(l.iter().map(|x| lit(s, ty, x)).collect()),
            _ => Val::Null,
        },
        _ => Val::Null,
    }
}

fn gen_schema(t: &mut Tape, plain: bool) -> (Schema, Vec<(String, &'static str)>) {
    let (n_sc, n_en, n_in, n_if, n_ob, n_un) = (t.range(1, 2), t.range(1, 3), t.range(2, 4), t.range(0, 2), t.range(3, 5), t.range(1, 2));
    let mut names = take(t, TYPES, n_sc + n_en + n_in + n_if + n_ob + n_un).into_iter();
    let mut part = |n: usize| -> Vec<String> { names.by_ref().take(n).collect() };
    let (scs, ens, ins, ifs, obs, uns) = (part(n_sc), part(n_en), part(n_in), part(n_if), part(n_ob), part(n_un));
    let root = *t.choose(&["Query", "QueryRoot", "Root"]);
    let mutation = t.chance(1, 2).then(|| "Mutation".to_string());
    let mut s = Schema { desc: None, dirs: vec![], explicit: root != "Query", query: root.into(), mutation: mutation.clone(), subscription: None, types: vec![], directives: vec![] };
    if s.explicit {
        s.desc = descr(t, plain);
    }
    let mut aliases = vec![];
    for n in &scs {
        s.types.push(TypeDef { name: n.clone(), desc: descr(t, plain), dirs: vec![], kind: Kind::Scalar });
        aliases.push((n.clone(), ALIASES[t.pick(3)]));
    }
    for n in &ens {
        let k = t.range(1, 4);
        let vs = take(t, VALUES, k).into_iter().map(|v| EnumVal { name: v, desc: descr(t, plain), dirs: vec![] }).collect();
        s.types.push(TypeDef { name: n.clone(), desc: descr(t, plain), dirs: vec![], kind: Kind::Enum(vs) });
    }
    let leaves: Vec<String> = BUILTIN_SCALARS.iter().map(|x| x.to_string()).chain(scs.iter().cloned()).chain(ens.iter().cloned()).collect();
    for (i, n) in ins.iter().enumerate() {
        let one_of = i > 0 && t.chance(1, 3);
        let k = t.range(1, 5);
        let mut fs: Vec<InVal> = vec![];
        for f in take(t, FIELDS, k) {
            let j = if t.chance(2, 5) { Some(t.pick(ins.len())) } else { None };
            let base = j.map(|j| ins[j].clone()).unwrap_or_else(|| t.choose(&leaves).clone());
            let mut ty = wrap(t, &base);
            // what a value cannot do without comes earlier
            if one_of {
                ty = ty.with_req(false);
            } else if j.is_some_and(|j| j >= i) && ty.required() && ty.depth() == 0 {
                ty = ty.with_req(false);
            }
            fs.push(InVal { name: f, desc: descr(t, plain), ty, default: None, dirs: vec![] });
        }
        if one_of && !fs.iter().any(|f| s.is_leaf(f.ty.base()) && f.ty.depth() == 0) {
            fs[0].ty = Ty::named("Int");
        }
        let dirs = if one_of { vec![Dir { name: "oneOf".into(), args: vec![] }] } else { vec![] };
        s.types.push(TypeDef { name: n.clone(), desc: descr(t, plain), dirs, kind: Kind::Input(fs) });
    }
    // defaults (of leaf types, so that they do not depend on each other)
    let al = aliases.clone();
    let al = move |n: &str| al.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or("text");
    let snap = s.clone();
    for ty in s.types.iter_mut() {
        let one_of = ty.one_of();
        if let Kind::Input(fs) = &mut ty.kind {
            for f in fs.iter_mut() {
                if !one_of && snap.is_leaf(f.ty.base()) && t.chance(1, 3) {
                    let v = gen_input(t, &snap, &al, &f.ty, 2);
                    f.default = Some(lit(&snap, &f.ty, &v));
                }
            }
        }
    }
    // output types
    let outs: Vec<String> = leaves.iter().cloned().chain(obs.iter().cloned()).chain(obs.iter().cloned()).chain(ifs.iter().cloned()).chain(uns.iter().cloned()).chain(uns.iter().cloned()).collect();
    let in_bases: Vec<String> = leaves.iter().cloned().chain(ins.iter().cloned()).chain(ins.iter().cloned()).collect();
    let mut fields = |t: &mut Tape, lo: usize, hi: usize, skip: &[FieldDef]| -> Vec<FieldDef> {
        let k = t.range(lo, hi);
        take(t, FIELDS, k + skip.len())
            .into_iter()
            .filter(|f| !skip.iter().any(|x| norm(&x.name) == norm(f)))
            .take(k)
            .map(|f| {
                let base = t.choose(&outs).clone();
                let ty = wrap(t, &base);
                let na = if t.chance(1, 3) { t.range(1, 2) } else { 0 };
                let args = take(t, FIELDS, na).into_iter().map(|a| InVal { name: a, desc: None, ty: { let b = t.choose(&in_bases).clone(); wrap(t, &b) }, default: None, dirs: vec![] }).collect();
                FieldDef { name: f, desc: descr(t, plain), args, ty, dirs: vec![] }
            })
            .collect()
    };
    let mut if_defs: Vec<(String, Vec<String>, Vec<FieldDef>)> = vec![];
    for n in &ifs {
        let (mut im, mut fs) = (vec![], vec![]);
        if let (Some(p), true) = (if_defs.first(), t.chance(1, 2)) {
            im.push(p.0.clone());
            fs = p.2.clone();
        }
        let more = fields(t, 1, 3, &fs);
        fs.extend(more);
        if_defs.push((n.clone(), im, fs));
    }
    let mut defs: Vec<TypeDef> = if_defs.iter().map(|d| TypeDef { name: d.0.clone(), desc: descr(t, plain), dirs: vec![], kind: Kind::Interface(d.1.clone(), d.2.clone()) }).collect();
    for (i, n) in obs.iter().enumerate() {
        let (mut im, mut fs): (Vec<String>, Vec<FieldDef>) = (vec![], vec![]);
        for (k, d) in if_defs.iter().enumerate() {
            // every interface has an implementor
            if (i == k || t.chance(1, 3)) && !im.contains(&d.0) {
                let mut add = vec![d.0.clone()];
                add.extend(d.1.iter().cloned());
                let clash = d.2.iter().any(|f| fs.iter().any(|x| norm(&x.name) == norm(&f.name) && x != f));
                if !clash {
                    for a in add {
                        if !im.contains(&a) {
                            im.push(a);
                        }
                    }
                    for f in &d.2 {
                        if !fs.contains(f) {
                            fs.push(f.clone());
                        }
                    }
                }
            }
        }
        let more = fields(t, 1, 5, &fs);
        fs.extend(more);
        defs.push(TypeDef { name: n.clone(), desc: descr(t, plain), dirs: vec![], kind: Kind::Object(im, fs) });
    }
    for n in &uns {
        let mut m = obs.clone();
        t.shuffle(&mut m);
        let k = t.range(1, m.len().min(4));
        m.truncate(k);
        defs.push(TypeDef { name: n.clone(), desc: descr(t, plain), dirs: vec![], kind: Kind::Union(m) });
    }
    let f = fields(t, 4, 8, &[]);
    defs.push(TypeDef { name: root.into(), desc: descr(t, plain), dirs: vec![], kind: Kind::Object(vec![], f) });
    if let Some(m) = &mutation {
        let f = fields(t, 1, 4, &[]);
        defs.push(TypeDef { name: m.clone(), desc: None, dirs: vec![], kind: Kind::Object(vec![], f) });
    }
    s.types.extend(defs);
    (s, aliases)
}

struct DocGen<'s> {
    s: &'s Schema,
    al: &'s dyn Fn(&str) -> &'static str,
    frags: Vec<Frag>,
    vars: Option<Vec<VarDef>>,
}
impl DocGen<'_> {
    /// does the fragment apply to everything a value of type `n` can be?
    fn applies(&self, n: &str, f: &Frag) -> bool {
        let p = self.s.possible(&f.on);
        let t = self.s.ty(n).unwrap();
        match t.is_interface() {
            true => f.on == n || t.ifaces().contains(&f.on),
            false => self.s.possible(n).iter().all(|x| p.contains(x)),
        }
    }
    fn sels(&mut self, t: &mut Tape, n: &str, depth: usize) -> Vec<Sel> {
        let c: Vec<String> = self.frags.iter().filter(|f| self.applies(n, f)).map(|f| f.name.clone()).collect();
        if !c.is_empty() && t.chance(1, 3) {
            return vec![Sel::Spread(t.choose(&c).clone(), vec![])];
        }
        match self.s.ty(n).map(|x| x.kind.clone()) {
            Some(Kind::Union(ms)) => {
                let mut out = vec![Sel::Field(FieldSel { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sels: vec![] })];
                let mut ms = ms.clone();
                t.shuffle(&mut ms);
                let lo = if t.chance(1, 6) { 0 } else { 1 };
                let k = t.range(lo, ms.len());
                for m in ms.into_iter().take(k) {
                    let mut fs = self.fields(t, &m, depth);
                    if t.chance(1, 4) {
                        let at = t.pick(fs.len() + 1);
                        fs.insert(at, out[0].clone());
                    }
                    out.push(Sel::Inline(Some(m), vec![], fs));
                }
                out
            }
            _ => self.fields(t, n, depth),
        }
    }
    fn fields(&mut self, t: &mut Tape, n: &str, depth: usize) -> Vec<Sel> {
        let defs: Vec<FieldDef> = self.s.ty(n).unwrap().fields().to_vec();
        let k = t.range(1, 5);
        let (mut out, mut keys): (Vec<Sel>, Vec<String>) = (vec![], vec![]);
        for _ in 0..k {
            let d = t.choose(&defs).clone();
            let comp = self.s.is_composite(d.ty.base());
            if comp && depth == 0 {
                continue;
            }
            let alias = t.chance(1, 4).then(|| t.choose(FIELDS).0.to_string());
            let key = norm(alias.as_ref().unwrap_or(&d.name));
            if keys.contains(&key) {
                continue;
            }
            let mut args = vec![];
            for a in &d.args {
                if a.ty.required() || t.chance(1, 2) {
                    let v = match &mut self.vars {
                        Some(vs) if vs.len() < 6 => {
                            let n = format!("v{}", vs.len());
                            vs.push(VarDef { name: n.clone(), ty: a.ty.clone(), default: None, dirs: vec![] });
                            Val::Var(n)
                        }
                        _ => {
                            let v = gen_input(t, self.s, self.al, &a.ty, 2);
                            lit(self.s, &a.ty, &v)
                        }
                    };
                    args.push((a.name.clone(), v));
                }
            }
            keys.push(key);
            let sels = if comp { self.sels(t, d.ty.base(), depth - 1) } else { vec![] };
            out.push(Sel::Field(FieldSel { alias, name: d.name.clone(), args, dirs: vec![], sels }));
        }
        if (out.is_empty() || t.chance(1, 6)) && !keys.contains(&"typename".to_string()) {
            out.push(Sel::Field(FieldSel { alias: t.chance(1, 3).then(|| "kind".to_string()), name: "__typename".into(), args: vec![], dirs: vec![], sels: vec![] }));
        }
        out
    }
}

fn gen_doc(t: &mut Tape, s: &Schema, al: &dyn Fn(&str) -> &'static str) -> Doc {
    let mut g = DocGen { s, al, frags: vec![], vars: None };
    let nf = t.range(1, 4);
    let no = t.range(1, 3);
    let mut names = take(t, DEFS, nf + no).into_iter();
    let comps: Vec<String> = s.types.iter().filter(|x| x.is_composite()).map(|x| x.name.clone()).collect();
    for _ in 0..nf {
        let on = t.choose(&comps).clone();
        let sels = g.sels(t, &on, 2);
        g.frags.push(Frag { name: names.next().unwrap(), on, dirs: vec![], sels });
    }
    let mut ops = vec![];
    for _ in 0..no {
        let kind = if s.mutation.is_some() && t.chance(1, 3) { OpKind::Mutation } else { OpKind::Query };
        let root = s.root(kind).unwrap().to_string();
        g.vars = Some(vec![]);
        let sels = g.sels(t, &root, 3);
        let vars = g.vars.take().unwrap();
        ops.push(Op { kind, shorthand: false, name: names.next(), vars, dirs: vec![], sels });
    }
    if ops.len() == 1 && t.chance(1, 2) {
        ops[0].name = None;
        ops[0].shorthand = ops[0].kind == OpKind::Query && ops[0].vars.is_empty();
    }
    let mut d = Doc { defs: ops.into_iter().map(Def::Op).chain(g.frags.drain(..).map(Def::Frag)).collect() };
    loop {
        let used = crate::gen::used_frags(&d);
        let n = d.defs.len();
        d.defs.retain(|x| !matches!(x, Def::Frag(f) if !used.contains(&f.name)));
        if n == d.defs.len() {
            break;
        }
    }
    t.shuffle(&mut d.defs);
    d
}

pub fn gen_case(t: &mut Tape, plain: bool) -> CaseSrc {
    let (schema, aliases) = gen_schema(t, plain);
    let al = |n: &str| aliases.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or("text");
    let mut docs = vec![];
    for _ in 0..2 {
        for _ in 0..60 {
            let d = gen_doc(t, &schema, &al);
            if refval::validate(&schema, &d).is_empty() {
                docs.push(d);
                break;
            }
        }
    }
    CaseSrc { schema, docs, aliases }
}

/// does a type's Rust type carry a lifetime when it borrows?
fn borrows(s: &Schema, al: &dyn Fn(&str) -> &'static str, n: &str, seen: &mut Vec<String>) -> bool {
    if seen.iter().any(|x| x == n) {
        return false;
    }
    seen.push(n.to_string());
    match (n, s.ty(n).map(|t| &t.kind)) {
        ("String" | "ID", _) => true,
        (_, Some(Kind::Scalar)) => al(n) == "text",
        (_, Some(Kind::Input(fs))) => fs.iter().any(|f| borrows(s, al, f.ty.base(), seen)),
        _ => false,
    }
}

/// Write the sources of `n` cases to `dir`; `cases.rs` includes them.
pub fn write(seed: u64, n: usize, dir: &str, only: Option<usize>) {
    std::fs::create_dir_all(dir).unwrap();
    let mut out = String::from("pub static CASES: &[Case] = &[\n");
    let mut mods = String::new();
    let mut t = Tape::from_seed(crate::tape::mix(seed ^ 0x7e9ed));
    for i in 0..n {
        let dsl_case = i % 3 == 2;
        let c = gen_case(&mut t, dsl_case);
        let sdl = if dsl_case { schema_plain(&c.schema) } else { schema_src(&c.schema, Style::Noisy, &mut t) };
        let docs: Vec<String> = c.docs.iter().map(|d| if dsl_case { doc_plain(d) } else { doc_src(d, Style::Noisy, &mut t) }).collect();
        if only.is_some_and(|o| o != i) {
            continue;
        }
        let al = |n: &str| c.aliases.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or("text");
        let put = |name: &str, txt: &str| -> String {
            let h = crate::tape::fnv(0xcbf29ce484222325, txt.as_bytes());
            let f = format!("{dir}/c{i}_{name}_{h:016x}.graphql");
            if std::fs::read_to_string(&f).ok().as_deref() != Some(txt) {
                std::fs::write(&f, txt).unwrap();
            }
            f
        };
        let sf = put("schema", &sdl);
        let dfs: Vec<String> = docs.iter().enumerate().map(|(k, d)| put(&format!("doc{k}"), d)).collect();
        let rustable = |s: &str| !s.contains("\"\"\"") && !s.contains('\\') && !s.contains('-') && !s.contains('#') && s.is_ascii();
        writeln!(out, "Case {{ sdl: include_str!({sf:?}), docs: &[{}], aliases: &{:?}, clients: &[", dfs.iter().map(|f| format!("include_str!({f:?})")).collect::<Vec<_>>().join(","), c.aliases).unwrap();
        for (m, codec, borrow) in [("serde", "serde", false), ("borrow", "serde", true), ("miniserde", "miniserde", false)] {
            let dsl = dsl_case && rustable(&sdl) && m != "serde";
            let src = if dsl { format!("[{sdl}]") } else { format!("{sf:?}") };
            let md = format!("c{i}_{m}");
            writeln!(mods, "#[allow(dead_code, unused, non_camel_case_types, non_snake_case)]\npub mod {md} {{\nuse crate::props::s15::rt::{{FromV, V}};\n#[bluejay_typegen::typegen({src}, codec = \"{codec}\"{})]\npub mod m {{", if borrow { ", borrow = true" } else { "" }).unwrap();
            for (n, a) in &c.aliases {
                let n = rust(TYPES, n);
                match (*a, borrow) {
                    ("text", true) => writeln!(mods, "type {n}<'a> = ::std::borrow::Cow<'a, ::std::primitive::str>;"),
                    ("text", _) => writeln!(mods, "type {n} = ::std::string::String;"),
                    ("long", _) => writeln!(mods, "type {n} = ::std::primitive::i64;"),
                    _ => writeln!(mods, "type {n} = ::std::vec::Vec<::std::string::String>;"),
                }
                .unwrap();
            }
            for (k, d) in docs.iter().enumerate() {
                let q = if dsl && rustable(d) { format!("[{d}]") } else { format!("{:?}", dfs[k]) };
                writeln!(mods, "#[query({q})] pub mod query{k} {{}}").unwrap();
            }
            writeln!(mods, "}}").unwrap();
            let mut enc = String::new();
            for ty in &c.schema.types {
                let (rn, gn) = (TYPES.iter().find(|x| x.0 == ty.name).map(|x| x.1).unwrap_or(""), &ty.name);
                match &ty.kind {
                    Kind::Enum(vs) => {
                        writeln!(mods, "impl FromV for m::{rn} {{ fn from_v(v: &V) -> Self {{ match v.as_str() {{").unwrap();
                        for v in vs {
                            writeln!(mods, "::std::option::Option::Some({:?}) => m::{rn}::{},", v.name, rust(VALUES, &v.name)).unwrap();
                        }
                        writeln!(mods, "_ => ::std::panic!(\"not a value\") }} }} }}").unwrap();
                    }
                    Kind::Input(fs) => {
                        let lt = if borrow && borrows(&c.schema, &al, gn, &mut vec![]) { "<'_>" } else { "" };
                        writeln!(mods, "impl FromV for m::{rn}{lt} {{ fn from_v(v: &V) -> Self {{").unwrap();
                        if ty.one_of() {
                            for f in fs {
                                let vn = pascal(&f.name);
                                writeln!(mods, "if !v[{:?}].is_null() {{ let x: {} = FromV::from_v(&v[{:?}]); return m::{rn}::{vn}(x); }}", f.name, shape(&f.ty.with_req(true)), f.name).unwrap();
                            }
                            writeln!(mods, "::std::panic!(\"no member\") }} }}").unwrap();
                        } else {
                            writeln!(mods, "m::{rn} {{").unwrap();
                            for f in fs {
                                let ty = if f.default.is_some() { f.ty.with_req(false) } else { f.ty.clone() };
                                writeln!(mods, "{}: {{ let x: {} = FromV::from_v(&v[{:?}]); x }},", rust(FIELDS, &f.name), shape(&ty), f.name).unwrap();
                            }
                            writeln!(mods, "}} }} }}").unwrap();
                        }
                    }
                    _ => continue,
                }
                writeln!(enc, "({gn:?}, |v| crate::props::s15::rt::enc_{codec}::<{md}::m::{rn}>(v)),").unwrap();
            }
            writeln!(mods, "}}").unwrap();
            writeln!(out, "Client {{ name: {m:?}, enc: &[{enc}], dec: &[").unwrap();
            for (k, d) in c.docs.iter().enumerate() {
                let names = d.ops().map(|o| o.name.clone()).chain(d.frags().map(|f| Some(f.name.clone())));
                for n in names {
                    let rn = n.as_ref().map(|n| rust(DEFS, n)).unwrap_or("Root");
                    let value = if m == "serde" { format!("Some(|s| crate::props::s15::rt::dec_value::<{md}::m::query{k}::{rn}>(s))") } else { "None".into() };
                    writeln!(out, "Dec {{ doc: {k}, name: {:?}, text: |s| crate::props::s15::rt::dec_{codec}::<{md}::m::query{k}::{rn}>(s), value: {value} }},", n.unwrap_or_default()).unwrap();
                }
            }
            writeln!(out, "] }},").unwrap();
        }
        writeln!(out, "] }},").unwrap();
    }
    writeln!(out, "];").unwrap();
    let f = format!("{dir}/cases.rs");
    let all = out + &mods + KNOWN;
    if std::fs::read_to_string(&f).ok().as_deref() != Some(&all) {
        std::fs::write(&f, all).unwrap();
    }
}
fn pascal(field: &str) -> String {
    let snake = rust(FIELDS, field).trim_start_matches("r#");
    snake.split('_').map(|w| w[..1].to_ascii_uppercase() + &w[1..]).collect()
}

/// clients for the known findings
const KNOWN: &str = r#"
pub mod known {
    macro_rules! client { ($n:ident, $codec:literal) => {
        #[bluejay_typegen::typegen([ type Query { x: Int! y: Int } ], codec = $codec)]
        pub mod $n { #[query([ query Q($c: Boolean!) { x @skip(if: $c) } query R($c: Boolean!) { y @skip(if: $c) } ])] pub mod query {} }
    } }
    client!(se, "serde");
    client!(mi, "miniserde");
}
"#;

// ------------------------------------------------------------------ programs that must not compile

/// The documented restrictions of documents: Some(reason) when one is broken, Some("") when it cannot be told.
fn restricted(s: &Schema, d: &Doc) -> Option<&'static str> {
    fn set(s: &Schema, d: &Doc, n: &str, sels: &[Sel], in_union: bool, maybe: &mut bool) -> Option<&'static str> {
        let spread = sels.iter().find_map(|x| if let Sel::Spread(n, _) = x { d.frag(n) } else { None });
        if spread.is_some() && sels.len() != 1 {
            return Some("spread among other selections");
        }
        // the code generator gives up on a member whose selections are one spread
        *maybe |= in_union && spread.is_some();
        let inline: Vec<&Option<String>> = sels.iter().filter_map(|x| if let Sel::Inline(on, ..) = x { Some(on) } else { None }).collect();
        let ty = s.ty(n)?;
        match (&ty.kind, spread) {
            (Kind::Union(_), Some(f)) => {
                let p = s.possible(&f.on);
                if s.possible(n).iter().any(|m| !p.contains(m)) {
                    return Some("spread that does not apply to every member");
                }
                // an interface without the members the schema says implement it, and so on: the same by name
            }
            (Kind::Union(ms), None) => {
                if !matches!(&sels[0], Sel::Field(f) if f.name == "__typename" && f.alias.is_none()) {
                    return Some("union without __typename first");
                }
                if sels[1..].iter().any(|x| matches!(x, Sel::Field(_))) {
                    return Some("field on a union");
                }
                if inline.iter().any(|on| !on.as_ref().is_some_and(|on| ms.contains(on))) {
                    return Some("inline fragment that is not on a member");
                }
                if inline.iter().enumerate().any(|(i, on)| inline[..i].contains(on)) {
                    return Some("two inline fragments on a member");
                }
            }
            (k, sp) => {
                if let (Kind::Interface(im, _), Some(f)) = (k, sp) {
                    if f.on != n && !im.contains(&f.on) {
                        return Some("spread on an interface that does not always apply");
                    }
                }
                if !inline.is_empty() {
                    return Some("inline fragment on an object or interface");
                }
            }
        }
        for x in sels {
            let r = match x {
                Sel::Field(f) if !f.sels.is_empty() => s.field_ty(n, &f.name).and_then(|t| set(s, d, t.base(), &f.sels, false, maybe)),
                Sel::Inline(on, _, sub) => set(s, d, on.as_deref().unwrap_or(n), sub, true, maybe),
                _ => None,
            };
            if r.is_some() {
                return r;
            }
        }
        None
    }
    let mut maybe = false;
    for o in d.ops() {
        if d.frag(o.name.as_deref().unwrap_or("Root")).is_some() {
            return Some("fragment called like an operation");
        }
        if let Some(r) = set(s, d, s.root(o.kind)?, &o.sels, false, &mut maybe) {
            return Some(r);
        }
    }
    for f in d.frags() {
        if let Some(r) = set(s, d, &f.on, &f.sels, false, &mut maybe) {
            return Some(r);
        }
    }
    maybe.then_some("")
}

fn break_restriction(t: &mut Tape, s: &Schema, d: &mut Doc) {
    let frs: Vec<(String, String)> = d.frags().map(|f| (f.name.clone(), f.on.clone())).collect();
    let comps: Vec<String> = s.types.iter().filter(|x| x.is_composite()).map(|x| x.name.clone()).collect();
    let k = t.pick(9);
    if k > 6 {
        // everything about a value of an abstract type is in a fragment on one thing it can be, or its other name
        fn abs(s: &Schema, n: &str, l: &mut Vec<Sel>, out: &mut Vec<(*mut Vec<Sel>, String)>) {
            if s.ty(n).is_some_and(|x| !matches!(x.kind, Kind::Object(..))) {
                out.push((l as *mut _, n.to_string()));
            }
            for x in l.iter_mut() {
                match x {
                    Sel::Field(f) if !f.sels.is_empty() => {
                        if let Some(ty) = s.field_ty(n, &f.name) {
                            abs(s, ty.base(), &mut f.sels, out)
                        }
                    }
                    Sel::Inline(on, _, l) => abs(s, &on.clone().unwrap_or(n.to_string()), l, out),
                    _ => {}
                }
            }
        }
        let mut sets = vec![];
        for x in &mut d.defs {
            match x {
                Def::Op(o) => abs(s, &s.root(o.kind).unwrap().to_string(), &mut o.sels, &mut sets),
                Def::Frag(f) => abs(s, &f.on.clone(), &mut f.sels, &mut sets),
            }
        }
        if sets.is_empty() {
            return;
        }
        let (l, n) = t.choose(&sets);
        let c: Vec<&String> = comps.iter().filter(|c| s.possible(c).iter().any(|x| s.possible(n).contains(x))).collect();
        let on = (*t.choose(&c)).clone();
        // one of the pointers gathered above is used
        unsafe { **l = vec![Sel::Spread("Narrow".into(), vec![])] };
        let sels = vec![crate::mutate::field("__typename")];
        d.defs.push(Def::Frag(Frag { name: "Narrow".into(), on, dirs: vec![], sels }));
        let used = crate::gen::used_frags(d);
        d.defs.retain(|x| !matches!(x, Def::Frag(f) if !used.contains(&f.name)));
        return;
    }
    let mut sets: Vec<*mut Vec<Sel>> = vec![];
    fn walk(l: &mut Vec<Sel>, out: &mut Vec<*mut Vec<Sel>>) {
        out.push(l as *mut _);
        for x in l.iter_mut() {
            match x {
                Sel::Field(f) if !f.sels.is_empty() => walk(&mut f.sels, out),
                Sel::Inline(_, _, l) => walk(l, out),
                _ => {}
            }
        }
    }
    for x in &mut d.defs {
        match x {
            Def::Op(o) => walk(&mut o.sels, &mut sets),
            Def::Frag(f) => walk(&mut f.sels, &mut sets),
        }
    }
    // the pointers come from the walk above; one is used
    let l = unsafe { &mut **t.choose(&sets) };
    match k {
        0 if !frs.is_empty() => l.push(Sel::Spread(t.choose(&frs).0.clone(), vec![])),
        1 => l.push(Sel::Inline(Some(t.choose(&comps).clone()), vec![], vec![crate::mutate::field("__typename")])),
        2 => l.push(Sel::Inline(None, vec![], vec![crate::mutate::field("__typename")])),
        3 if l.len() > 1 => {
            l.remove(0);
        }
        4 => {
            let x = t.choose(l).clone();
            l.push(x);
        }
        5 => l.push(crate::mutate::field("__typename")),
        _ => {
            // a fragment called like an operation
            let n = d.ops().next().map(|o| o.name.clone().unwrap_or("Root".into()));
            let (Some(n), Some(old)) = (n, frs.first().map(|f| f.0.clone())) else { return };
            fn rename(l: &mut [Sel], a: &str, b: &str) {
                for x in l {
                    match x {
                        Sel::Spread(n, _) if n == a => *n = b.to_string(),
                        Sel::Spread(..) => {}
                        Sel::Field(f) => rename(&mut f.sels, a, b),
                        Sel::Inline(_, _, l) => rename(l, a, b),
                    }
                }
            }
            for x in &mut d.defs {
                match x {
                    Def::Op(o) => rename(&mut o.sels, &old, &n),
                    Def::Frag(f) => {
                        if f.name == old {
                            f.name = n.clone();
                        }
                        rename(&mut f.sels, &old, &n)
                    }
                }
            }
        }
    }
}

fn plain_name(n: &str) -> bool {
    n.starts_with(|c: char| c.is_ascii_uppercase()) && n[1..].chars().all(|c| c.is_ascii_lowercase())
}
/// can every name become an identifier?
fn nameable(names: &[String]) -> bool {
    names.iter().all(|n| n.contains(|c: char| c.is_ascii_alphabetic()) && !n.trim_start_matches('_').starts_with(|c: char| c.is_ascii_digit()) && !["self", "super", "crate", "_self"].contains(&n.to_lowercase().as_str()))
}

/// Write programs with one typed client each to `dir`/bad.rs, and to `dir`/bad.json which of them must be refused.
pub fn write_bad(seed: u64, n: usize, dir: &str, only: Option<usize>) {
    std::fs::create_dir_all(dir).unwrap();
    let mut t = Tape::from_seed(crate::tape::mix(seed ^ 0xbad7e9ed));
    let (mut out, mut list, mut line) = (String::new(), vec![], 1);
    let mut i = 0;
    while list.len() < n {
        i += 1;
        let mut c = gen_case(&mut t, true);
        if c.docs.is_empty() {
            continue;
        }
        let mut doc = c.docs.swap_remove(0);
        let (mut sdl, mut doc_txt) = (None, None);
        let (mut aliases, mut attr) = (c.aliases.iter().map(|a| format!("type {} = String;", rust(TYPES, &a.0))).collect::<Vec<_>>(), "codec = \"serde\"".to_string());
        // None: cannot be told
        let verdict: Option<&'static str> = match t.pick(16) {
            0 => Some(""),
            1 => {
                let k = t.pick(aliases.len());
                aliases.remove(k);
                Some("alias missing")
            }
            2 => {
                let no: Vec<&str> = c.schema.types.iter().filter(|x| x.kind != Kind::Scalar && plain_name(&x.name)).map(|x| x.name.as_str()).chain(["Nope", "Int", "String"]).collect();
                let a = format!("type {} = String;", t.choose(&no));
                if aliases.contains(&a) {
                    continue;
                }
                aliases.push(a);
                Some("alias for what is not a custom scalar")
            }
            3 => {
                attr = (*t.choose(&["codec = \"miniserde\", borrow = true", "borrow = true, codec = \"miniserde\"", "codec = \"nope\"", "borrow = true, borrow = true", "mode = 1"])).to_string();
                Some("bad arguments")
            }
            4 | 5 => {
                let mut d = crate::sdlmut::sdl_of(&c.schema);
                for _ in 0..t.range(1, 2) {
                    crate::sdlmut::damage(&mut t, &mut d);
                }
                sdl = Some(crate::sdlmut::render(&d, None));
                aliases.clear();
                let mut ok = true;
                for x in d.types.iter().filter(|x| x.kind == Kind::Scalar && !BUILTIN_SCALARS.contains(&x.name.as_str())) {
                    let n = TYPES.iter().find(|p| p.0 == x.name).map(|p| p.1.to_string()).or_else(|| plain_name(&x.name).then(|| x.name.clone()));
                    match n {
                        Some(n) => aliases.push(format!("type {n} = String;")),
                        None => ok = false,
                    }
                }
                ok &= !d.types.iter().any(|x| BUILTIN_SCALARS.contains(&x.name.as_str()));
                let ns: Vec<String> = d.types.iter().flat_map(|x| std::iter::once(x.name.clone()).chain(x.fields().iter().map(|f| f.name.clone())).chain(x.enum_vals().iter().map(|f| f.name.clone()))).collect();
                ok &= nameable(&ns);
                doc = Doc { defs: vec![] };
                match (crate::sdlmut::judge(&d).is_empty() && crate::sdlmut::judge_rules(&d).is_empty(), ok) {
                    (false, _) => Some("not a schema"),
                    (true, true) => Some(""),
                    _ => None,
                }
            }
            6 => {
                let txt = doc_src(&doc, Style::Plain, &mut t);
                let cs: Vec<char> = txt.chars().collect();
                let (a, b) = (t.pick(cs.len()), t.range(1, 4));
                let cut: String = if t.chance(1, 2) { cs[..a].iter().collect() } else { cs.iter().enumerate().filter(|(i, _)| *i < a || *i >= a + b).map(|x| x.1).collect() };
                let v = match crate::refparse::parse(&cut) {
                    Err(_) => Some("not a document"),
                    Ok(d) => {
                        doc = d;
                        None
                    }
                };
                doc_txt = Some(cut);
                v.or_else(|| judge_doc(&c.schema, &doc))
            }
            7..=12 => {
                break_restriction(&mut t, &c.schema, &mut doc);
                judge_doc(&c.schema, &doc)
            }
            _ => {
                for _ in 0..t.range(1, 2) {
                    crate::mutate::mutate(&mut t, &c.schema, &mut doc);
                }
                judge_doc(&c.schema, &doc)
            }
        };
        let Some(verdict) = verdict else { continue };
        let id = list.len();
        let sdl = sdl.unwrap_or_else(|| schema_plain(&c.schema));
        let doc_txt = doc_txt.or_else(|| (!doc.defs.is_empty()).then(|| doc_plain(&doc)));
        let put = |name: &str, txt: &str| -> String {
            let f = format!("{dir}/b{id}_{name}.graphql");
            std::fs::write(&f, txt).unwrap();
            f
        };
        let mut src = format!("#[bluejay_typegen::typegen({:?}, {attr})]\npub mod b{id} {{\n{}\n", put("schema", &sdl), aliases.join("\n"));
        if let Some(d) = &doc_txt {
            src += &format!("#[query({:?})] pub mod query {{}}\n", put("doc", d));
        }
        src += "}\n";
        let lines = src.lines().count();
        if only.map_or(true, |o| o == id) {
            list.push(serde_json::json!({"id": id, "from": line, "to": line + lines - 1, "refused": verdict, "schema": sdl, "doc": doc_txt, "program": src}));
            out += &src;
            line += lines;
        } else {
            list.push(V::Null);
        }
    }
    let _ = i;
    list.retain(|x| !x.is_null());
    std::fs::write(format!("{dir}/bad.rs"), out).unwrap();
    std::fs::write(format!("{dir}/bad.json"), serde_json::to_string(&list).unwrap()).unwrap();
}
/// Some(reason): must be refused; Some(""): must not; None: cannot be told
fn judge_doc(s: &Schema, d: &Doc) -> Option<&'static str> {
    if crate::refparse::parse(&doc_plain(d)).is_err() {
        return Some("not a document");
    }
    if !refval::validate(s, d).is_empty() {
        return Some("not valid");
    }
    match restricted(s, d) {
        Some("") => None,
        Some(r) => Some(r),
        None => {
            let mut names: Vec<String> = d.ops().filter_map(|o| o.name.clone()).chain(d.frags().map(|f| f.name.clone())).collect();
            fn keys(l: &[Sel], out: &mut Vec<String>) {
                for x in l {
                    match x {
                        Sel::Field(f) => {
                            out.push(f.key().to_string());
                            keys(&f.sels, out)
                        }
                        Sel::Inline(_, _, l) => keys(l, out),
                        _ => {}
                    }
                }
            }
            d.ops().for_each(|o| keys(&o.sels, &mut names));
            d.frags().for_each(|o| keys(&o.sels, &mut names));
            nameable(&names).then_some("")
        }
    }
}

/// Compare the compiler's messages (`log`, JSON) with what bad.json says; prints counts, and the first program it differs on.
pub fn judge_bad(dir: &str, log: &str) -> Result<V, V> {
    let list: Vec<V> = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/bad.json")).unwrap()).unwrap();
    let mut at: Vec<(usize, String)> = vec![];
    for l in std::fs::read_to_string(log).unwrap().lines() {
        let Ok(j) = serde_json::from_str::<V>(l) else { continue };
        let m = &j["message"];
        // what the macro says has no error code; what the compiler says about generated code does
        if m["level"] != "error" || !m["code"].is_null() {
            continue;
        }
        for s in m["spans"].as_array().into_iter().flatten() {
            let mut s = s;
            // where the macro was called
            loop {
                if s["file_name"].as_str().is_some_and(|f| f.ends_with("/bad.rs")) {
                    at.push((s["line_start"].as_u64().unwrap() as usize, m["message"].as_str().unwrap_or("").to_string()));
                    break;
                }
                s = &s["expansion"]["span"];
                if s.is_null() {
                    break;
                }
            }
        }
    }
    let mut counts = std::collections::BTreeMap::<String, u64>::new();
    for p in &list {
        let (a, b) = (p["from"].as_u64().unwrap() as usize, p["to"].as_u64().unwrap() as usize);
        let why = p["refused"].as_str().unwrap();
        let msg = at.iter().find(|x| x.0 >= a && x.0 <= b).map(|x| x.1.clone());
        if msg.is_some() == why.is_empty() {
            return Err(serde_json::json!({"property": "S15", "key": if why.is_empty() { "a good program is refused" } else { "a bad program is accepted" }, "msg": msg.unwrap_or_else(|| why.to_string()), "program": p}));
        }
        *counts.entry(if why.is_empty() { "accepted".into() } else { format!("refused: {why}") }).or_default() += 1;
    }
    Ok(serde_json::json!(counts))
}

/// the cases in the order in which the compiler's messages mention them
pub fn suspects(dir: &str, log: &str, n: usize) -> Vec<usize> {
    let src = std::fs::read_to_string(format!("{dir}/cases.rs")).unwrap();
    let lines: Vec<&str> = src.lines().collect();
    let mut out = vec![];
    for l in std::fs::read_to_string(log).unwrap().lines() {
        let Some(at) = l.split("cases.rs:").nth(1).and_then(|x| x.split(':').next()?.parse::<usize>().ok()) else { continue };
        let m = lines[..at.min(lines.len())].iter().rev().find_map(|l| l.strip_prefix("pub mod c")?.split('_').next()?.parse::<usize>().ok());
        out.extend(m.filter(|m| !out.contains(m)));
    }
    let rest: Vec<usize> = (0..n).filter(|i| !out.contains(i)).collect();
    out.extend(rest);
    out
}
/// what `check.sh replay` needs for a failure of the compiler, with the sources and the messages
pub fn replay_file(dir: &str, log: &str, args: &str) -> V {
    let log = std::fs::read_to_string(log).unwrap_or_default();
    if let Ok(mut v) = serde_json::from_str::<V>(&log) {
        v["typed"] = V::from(args);
        return v;
    }
    let mut files = serde_json::Map::new();
    let cases = std::fs::read_to_string(format!("{dir}/cases.rs")).unwrap_or_default();
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = f.path().to_string_lossy().to_string();
        if n.ends_with(".graphql") && cases.contains(&n) {
            files.insert(f.file_name().to_string_lossy().into(), V::from(std::fs::read_to_string(&n).unwrap_or_default()));
        }
    }
    let errors: Vec<&str> = log.lines().skip_while(|l| !l.starts_with("error")).take(60).collect();
    serde_json::json!({"property": "S15", "key": "typed clients do not compile", "typed": args, "files": files, "cases": cases, "errors": errors})
}
/// SEED CASES PROGRAMS of a replay file of S15
pub fn replay_args(file: &str) -> Option<String> {
    let j: V = serde_json::from_str(&std::fs::read_to_string(file).ok()?).ok()?;
    let a = j["typed"].as_str()?;
    Some(if a.split(' ').count() == 2 { format!("{a} 0") } else { a.to_string() })
}
